#!/usr/bin/env python3
"""Mutation analysis of the harnesses (not a check; used to find gaps in them).
mutate.py cover            line coverage of strtk.hpp by each harness             -> W/cov/*.json
mutate.py build [HARNESS]  one binary per harness holding all its mutants, and which section reaches which
mutate.py run [-j N] [--only RESULTS] [FROM-TO]  run every mutant in lines FROM..TO (that survived in RESULTS) against the sections that reach it -> W/results.*
All mutants of a harness live in one binary ("mutant schemata"): every mutated statement becomes mut::at(k) ? mutated : original."""
import sys, os, re, subprocess, json, glob, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import spec
REPO = os.environ.get("STRTK_REPO", "/repo"); W = os.environ.get("MUT_DIR", "/tmp/mut"); os.makedirs(W + "/cov", exist_ok=True); os.makedirs(W + "/b", exist_ok=True)
HS = {}
for pid, s in spec.CHECKS.items():
    for h in s["harness"]: HS[h["src"]] = (pid, h.get("flags", ["-Dstrtk_no_tr1_or_boost"]))
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, errors="replace", **k)
def fl(src, link): return [f for f in HS[src][1] if f.startswith("-l") == link]

def cover1(src):
    d = W + "/cov/" + src + ".d"; sh(["rm", "-rf", d]); os.makedirs(d)
    r = sh(["g++", "-std=c++14", "-g1", "-w", "-O0", "--coverage", "-Wl,-u,__gcov_dump", "-I", REPO, "-I", HERE + "/harness"] + fl(src, 0) + ["-o", d + "/x", HERE + "/harness/" + src] + fl(src, 1), cwd=d)
    if r.returncode: return src, r.stderr[-300:]
    for s in sh([d + "/x", "--list"], cwd=d).stdout.split():
        sd = d + "/s_" + s; os.makedirs(sd)
        try: subprocess.run([d + "/x", s, "quick"], cwd=sd, capture_output=True, timeout=900, env=dict(os.environ, MC_SCRATCH=sd, LC_ALL="C"))
        except subprocess.TimeoutExpired: pass
    lines = {}
    for l in subprocess.run("gcov -j -t *.gcda", shell=True, cwd=d, capture_output=True).stdout.decode().splitlines():
        for f in json.loads(l)["files"]:
            if f["file"].endswith("strtk.hpp"):
                for x in f["lines"]: lines[x["line_number"]] = lines.get(x["line_number"], 0) + x["count"]
    json.dump({k: v for k, v in lines.items() if v}, open(W + "/cov/" + src + ".json", "w")); sh(["rm", "-rf", d])
    return src, len(lines)

OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "),
       (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])", ""), (r"\.first\b", ".second"), (r"\.second\b", ".first"),
       (r"std::min\b", "std::max"), (r"std::max\b", "std::min"), (r"\bbegin\b", "end"), (r"\bend\b", "begin"), (r" \? (.+) : (.+)$", None)]
def variants(e):
    out = []
    for pat, rep in OPS:
        if rep is None: continue
        for m in re.finditer(pat, e): out.append(e[:m.start()] + rep + e[m.end():])
    for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"])", e): out.append(e[:m.start()] + str(int(m.group(1)) + 1) + e[m.end():])
    for m in re.finditer(r"(?<![\w.'\"])([2-9]|\d\d+)(?![\w.'\"])", e): out.append(e[:m.start()] + str(int(m.group(1)) - 1) + e[m.end():])
    return [v for i, v in enumerate(out) if v != e and v not in out[:i]]
def balanced(s, i):
    """index just past the parenthesis that closes s[i] == '('"""
    d = 0; q = None; j = i
    while j < len(s):
        c = s[j]
        if q:
            if c == "\\": j += 1
            elif c == q: q = None
        elif c in "'\"": q = c
        elif c == "(": d += 1
        elif c == ")":
            d -= 1
            if d == 0: return j + 1
        j += 1
    return -1
def stmt(s):
    """(text with the placeholder, original, variants, kind)"""
    m = re.match(r"^(return )(.+);$", s)
    if m: return [("return %s;", m.group(2), variants(m.group(2)))]
    if re.match(r"^(\+\+|--)[\w.()*>-]+;$", s): return [("STMT", s, ["(void)0;", s.replace("++", "--") if "++" in s else s.replace("--", "++")])]
    m = re.match(r"^((?:const |static |unsigned |signed |long |short |typename )*[\w:]+(?:<.*>)?(?:::\w+)*[ *&]+\w+ *= *)(.+);$", s)
    if m and not re.match(r"^(\w+|\(\*\w+\)) *= ", s): return [(m.group(1) + "%s;", m.group(2), variants(m.group(2)))]
    if re.match(r"^(\w|\(\*|\*)[\w.\[\]()*+>:& -]*? *([-+*/%&|^]|<<|>>)?= .+;$", s) or re.match(r"^[\w.:>-]+(<[\w: ,*]+>)?\(.*\);$", s) or re.match(r"^\(\*\w+\)\(.*\);$", s) or re.match(r"^\(\*\w+(\+\+)?\) = .*;$", s):
        return [("STMT", s, ["(void)0;"] + variants(s))]
    if s == "break;": return [("STMT", s, ["(void)0;"])]
    return []
def mutants(line):
    """[(rebuild(k -> text), variant text)] for one source line"""
    if line.rstrip().endswith("\\") or line.lstrip().startswith(("#", "//", "template", "typedef", "case ", "inline", "static inline", "friend", "operator", ":", ",", "&&", "||", "?")): return None
    ind = line[:len(line) - len(line.lstrip())]; s = line.strip()
    m = re.match(r"^(else if |if |while |switch |\} while )\(", s)
    if m:
        i = m.end() - 1; j = balanced(s, i)
        if j < 0: return None
        cond, rest = s[i + 1:j - 1], s[j:].strip()
        parts = [(ind + s[:i] + "(%s) ", cond, variants(cond))]
        if rest and rest != ";": parts += [("%s", rest, None)] if not stmt(rest) else [stmt(rest)[0]]
        elif rest: parts.append(("%s", rest, None))
        return parts
    m = re.match(r"^for \((.*)\)$", s)
    if m and balanced(s, 4) == len(s) and m.group(1).count(";") == 2:
        a, c, b = m.group(1).split(";")
        m2 = re.match(r"^(.*?= *)(.+)$", a)
        parts = [(ind + "for (" + (m2.group(1) + "%s" if m2 else a.replace("%", "%%") + "%s"), m2.group(2) if m2 else "", variants(m2.group(2)) if m2 else None)]
        return parts + [("; %s;", c.strip(), variants(" " + c.strip() + " ")), (b.replace("%", "%%") + ")%s", "", None)]
    p = stmt(s)
    if p: return [(("" if p[0][0] == "STMT" else ind) + p[0][0], p[0][1], p[0][2])] if p[0][2] else None
    return None

def plan():
    src = open(REPO + "/strtk.hpp", encoding="latin-1", newline="").read().split("\n"); ids = []; pl = {}; blk = {}
    cov = {}
    for h in HS:
        f = W + "/cov/" + h + ".json"
        if os.path.exists(f):
            for n in json.load(open(f)): cov.setdefault(int(n), set()).add(h)
    for n in sorted(cov):
        raw = src[n - 1].rstrip("\r")
        ctx = "|".join(x.strip() for x in src[n - 4:n + 2]); blk[ctx] = blk.get(ctx, 0) + 1
        if blk[ctx] > 3: continue                                           # copies of the same code (arities)
        p = mutants(raw)
        if not p: continue
        # a statement that is the body of an unbraced if/else/while can be replaced by a braced one all the same
        lst = []
        for part in p: lst.append([(len(ids) + 1 + i, v) for i, v in enumerate(part[2] or [])]); ids += [(n, v) for v in part[2] or []]
        if any(lst): pl[n] = (p, lst)
    return src, pl, ids, cov
def esc(x): return x.replace("%", "%%") if False else x
MARK = " //MUT%d"
def render(p, lst, dead):
    out = ""
    for (tmpl, orig, _), vs in zip(p, lst):
        vs = [(k, v) for k, v in vs if k not in dead]
        if tmpl.strip() == "STMT":
            t = orig
            for k, v in reversed(vs): t = "if (mut::at(%d)) {\n%s%s\n} else { %s }" % (k, v, MARK % k, t)
            out += "{ " + t + " }" if vs else t
        else:
            e = orig
            for k, v in reversed(vs): e = "(mut::at(%d) ?\n(%s)%s\n: (%s))" % (k, v.strip(), MARK % k, e)
            out += tmpl.replace("%s", "\0").replace("%%", "%").replace("\0", e)
    return out
MUTH = '''#include <cstdio>
#include <cstdlib>
namespace mut { static int on = std::getenv("MUT") ? std::atoi(std::getenv("MUT")) : 0; static unsigned char hit[%d];
static inline bool at(int k) { hit[k] = 1; return on == k; } }
extern "C" void __gcov_dump(void) { const char* f = std::getenv("MUT_HIT"); if (f) { FILE* o = std::fopen(f, "wb"); std::fwrite(mut::hit, 1, sizeof mut::hit, o); std::fclose(o); } }
'''
ASAN = "abort_on_error=0:exitcode=96:detect_leaks=0:detect_stack_use_after_return=1:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:quarantine_size_mb=8:symbolize=0:handle_abort=1"
def build1(src):
    _, pl, ids, cov = PLAN; text = PLAN[0]; d = W + "/b/" + src; sh(["rm", "-rf", d]); os.makedirs(d)
    mine = [n for n in pl if src in cov[n]]; dead = set()
    open(d + "/mut.h", "w").write(MUTH % (len(ids) + 2)); byline = {n: [k for l in pl[n][1] for k, _ in l] for n in mine}
    for rnd in range(25):
        t = list(text)
        for n in mine:
            cr = "\r" if t[n - 1].endswith("\r") else ""
            if any(k not in dead for k in byline[n]): t[n - 1] = render(pl[n][0], pl[n][1], dead) + cr
        open(d + "/strtk.hpp", "w", encoding="latin-1", newline="").write("\n".join(t))
        r = sh(["g++", "-std=c++14", "-g1", "-w", "-O1", "-fmax-errors=0", "-fsanitize=address,bounds,return,integer-divide-by-zero,unreachable,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
                "-include", d + "/mut.h", "-I", d, "-I", HERE + "/harness"] + fl(src, 0) + ["-o", d + "/x", HERE + "/harness/" + src] + fl(src, 1))
        if r.returncode == 0: break
        gen = "\n".join(t).split("\n"); start = {}; pos = 1
        for n, l in enumerate(t, 1): start[n] = pos; pos += l.count("\n") + 1
        bad = set(int(x) for x in re.findall(r"strtk\.hpp:(\d+):\d+: error", r.stderr)); new = set()
        for n in bad:
            m = re.search(r"//MUT(\d+)", gen[n - 1])
            if m: new.add(int(m.group(1)))
        new -= dead
        if not new:
            for n in set(int(x) for x in re.findall(r"strtk\.hpp:(\d+):", r.stderr)):
                m = re.search(r"//MUT(\d+)", gen[n - 1])
                if m: new.add(int(m.group(1)))
            new -= dead
        if not new or rnd > 12:
            for n in bad:
                for m in mine:
                    if start[m] - 3 <= n <= start[m] + t[m - 1].count("\n") + 3: new |= set(byline[m])
            new -= dead
        if not new:
            for n in set(int(x) for x in re.findall(r"strtk\.hpp:(\d+):", r.stderr)):
                for m in mine:
                    if start[m] - 1 <= n <= start[m] + t[m - 1].count("\n") + 1: new |= set(byline[m])
            new -= dead
        if not new: return src, "BUILD " + r.stderr[-600:]
        # drop one variant at a time is too slow: drop the line's variants with type problems altogether
        dead |= new
    secs = {}
    for s in sh([d + "/x", "--list"]).stdout.split():
        sd = d + "/s_" + s; os.makedirs(sd); t0 = time.time()
        r = sh([d + "/x", s, "quick"], cwd=sd, env=dict(os.environ, MC_SCRATCH=sd, LC_ALL="C", ASAN_OPTIONS=ASAN, MUT_HIT=d + "/hit"))
        dt = time.time() - t0; h = open(d + "/hit", "rb").read() if os.path.exists(d + "/hit") else b""
        secs[s] = (dt, [k for k, c in enumerate(h) if c]); 
        if r.returncode: return src, "BASE FAILS " + s + r.stdout[-300:]
        os.path.exists(d + "/hit") and os.unlink(d + "/hit")
    json.dump(dict(secs=secs, dead=sorted(dead)), open(d + "/reach.json", "w"))
    return src, "%d lines, %d mutants, %d dropped, reached %d, %d rounds" % (len(mine), sum(len(byline[n]) for n in mine), len(dead), len(set(k for v in secs.values() for k in v[1])), rnd + 1)
def run1(job):
    k, tries = job; log = []
    for h, s, dt in tries:
        d = W + "/b/" + h; sd = "%s/run/%d.%s" % (d, k, s); os.makedirs(sd, exist_ok=True)
        try: r = sh([d + "/x", s, "quick"], cwd=sd, timeout=dt * 4 + 8, env=dict(os.environ, MUT=str(k), MC_SCRATCH=sd, LC_ALL="C", ASAN_OPTIONS=ASAN)); bad = r.returncode != 0
        except subprocess.TimeoutExpired: bad = True
        sh(["rm", "-rf", sd])
        if bad: return k, (h, s)
    return k, None
def main():
    global PLAN
    a = sys.argv[1:]; cmd = a.pop(0); j = 6
    if "-j" in a: i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    only = None
    if "--only" in a:
        i = a.index("--only"); only = set()
        for l in open(a[i + 1]):
            f = l.rstrip("\n").split("\t")
            if len(f) == 5 and f[2] == "None": only.add((f[3], f[4]))
        del a[i:i + 2]
    if cmd == "cover":
        with cf.ThreadPoolExecutor(j) as ex:
            for r in ex.map(cover1, a or sorted(HS)): print(*r, flush=True)
        return
    PLAN = plan(); src, pl, ids, cov = PLAN
    json.dump(ids, open(W + "/ids.json", "w")) if cmd == "build" and not a else None
    if cmd == "plan": print(len(pl), "lines", len(ids), "mutants"); return
    if cmd == "build":
        with cf.ThreadPoolExecutor(j) as ex:
            for r in ex.map(build1, a or sorted(HS)): print(*r, flush=True)
        return
    ids = json.load(open(W + "/ids.json")); reach = {}; lo, hi = 0, 10**9
    for x in a:
        if "-" in x: lo, hi = map(int, x.split("-"))
    size = {}
    for h in HS:
        f = W + "/b/" + h + "/reach.json"
        if not os.path.exists(f): continue
        z = json.load(open(f)); dead = set(z["dead"]); size[h] = len(set(k for v in z["secs"].values() for k in v[1]))
        for s, (dt, ks) in z["secs"].items():
            for k in ks:
                if k not in dead: reach.setdefault(k, []).append((h, s, dt))
    jobs = []
    for k in sorted(reach):
        n = ids[k - 1][0]
        if only is not None and (ids[k - 1][1].strip(), src[n - 1].strip()) not in only: continue
        if lo <= n <= hi: jobs.append((k, sorted(reach[k], key=lambda t: (size[t[0]], t[2]))))
    print(len(jobs), "mutants reached of", len(ids), flush=True)
    res = open(W + "/results.%d-%d.txt" % (lo, min(hi, 99999)), "w"); surv = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for i, (k, kill) in enumerate(ex.map(run1, jobs)):
            n, v = ids[k - 1]
            first = dict(jobs)[k][0][0] if not kill else None
            res.write("%d\t%d\t%s\t%s\t%s\n" % (k, n, kill and kill[0] + ":" + kill[1], v.strip(), src[n - 1].strip())); res.flush()
            if not kill: surv += 1
            if i % 200 == 0: print(i, "run", surv, "survive", flush=True)
    print("done", len(jobs), "survive", surv)
if __name__ == "__main__": main()
