#!/usr/bin/env python3
"""How deep do the checks drive each loop?  (not a check; used to find gaps in them)
depth.py build [HARNESS ...]   run every harness with a counter on every basic block of strtk.hpp, reset whenever the harness looks at a result -> W/*.json
depth.py report [N]            loop bodies of strtk.hpp that never run N (40) times between two observations"""
import sys, os, re, subprocess, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import spec
REPO = os.environ.get("STRTK_REPO", "/repo"); W = os.environ.get("DEPTH_DIR", "/tmp/depth"); os.makedirs(W, exist_ok=True)
HS = {}
for pid, s in spec.CHECKS.items():
    for h in s["harness"]: HS[h["src"]] = h.get("flags", ["-Dstrtk_no_tr1_or_boost"])
OBS = r'''
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sys/mman.h>
struct C { unsigned ep, cnt, mx; }; static const size_t M = 64u << 20, B = 0x400000; static unsigned epoch = 1;
static C* t = (C*)mmap(0, M * sizeof(C), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
extern "C" void mc_observe() { ++epoch; }
extern "C" void __sanitizer_cov_trace_pc(void)
{ if (!t) return; size_t i = (size_t)__builtin_return_address(0) - B; if (i >= M) return; C& c = t[i]; if (c.ep != epoch) { c.ep = epoch; c.cnt = 0; } if (++c.cnt > c.mx) c.mx = c.cnt; }
extern "C" void __gcov_dump(void) { const char* f = getenv("OBS"); if (!f) return; extern char etext; FILE* o = fopen(f, "w"); for (size_t i = 0; i < M && i + B < (size_t)&etext; ++i) if (t[i].mx) fprintf(o, "%zx %u\n", i + B, t[i].mx); fclose(o); }
'''
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, errors="replace", **k)
def build(src):
    d = W + "/" + src + ".d"; os.makedirs(d, exist_ok=True); open(d + "/obs.cpp", "w").write(OBS)
    fl = [f for f in HS[src] if not f.startswith("-l")]; ln = [f for f in HS[src] if f.startswith("-l")]
    r = sh(["g++", "-O1", "-c", "-o", d + "/obs.o", d + "/obs.cpp"])
    r = sh(["g++", "-std=c++14", "-w", "-O0", "-g1", "-no-pie", "-fno-pie", "-DMC_OBSERVE", "-fsanitize-coverage=trace-pc", "-I", REPO, "-I", HERE + "/harness"] + fl + ["-o", d + "/x", HERE + "/harness/" + src, d + "/obs.o"] + ln)
    if r.returncode: return src, "BUILD " + r.stderr[-1500:]
    mx = {}
    for s in sh([d + "/x", "--list"]).stdout.split():
        sd = d + "/s"; os.makedirs(sd, exist_ok=True)
        try: subprocess.run([d + "/x", s, "quick"], cwd=sd, capture_output=True, timeout=1500, env=dict(os.environ, MC_SCRATCH=sd, LC_ALL="C", OBS=d + "/obs"))
        except subprocess.TimeoutExpired: print(src, s, "timeout")
        if os.path.exists(d + "/obs"):
            for l in open(d + "/obs"):
                a, c = l.split(); a = int(a, 16); mx[a] = max(mx.get(a, 0), int(c))
            os.unlink(d + "/obs")
        sh(["rm", "-rf", sd])
    al = sorted(mx); r = subprocess.run(["llvm-symbolizer-18", "--obj=" + d + "/x", "--output-style=GNU", "-f", "-C", "--no-inlines"], input="\n".join(hex(a - 1) for a in al), capture_output=True, text=True).stdout.split("\n")
    out = {}
    for i, a in enumerate(al):
        fn, loc = r[2 * i], r[2 * i + 1]; m = re.search(r"strtk\.hpp:(\d+)", loc)
        if m: k = m.group(1) + "\t" + fn; out[k] = max(out.get(k, 0), mx[a])
    json.dump(out, open(W + "/" + src + ".json", "w")); sh(["rm", "-rf", d])
    return src, len(out)
def loops():
    """line -> first line of the innermost enclosing loop"""
    src = open(REPO + "/strtk.hpp", encoding="latin-1").read().split("\n"); st = []; out = {}; pend = None; par = 0
    for n, l in enumerate(src, 1):
        l = re.sub(r"//.*|\"(\\.|[^\"\\])*\"|'(\\.|[^'\\])'", "", l); s = l.strip().rstrip("\\").strip()
        if re.match(r"(while|for|do)\b", s): pend = n
        inner = [x for x in st if x]
        if inner: out[n] = inner[-1]
        elif pend and pend != n: out[n] = pend
        for c in l:
            if c == "{": st.append(pend); pend = None
            elif c == "}" and st: st.pop()
        if pend and s.endswith(";") and not s.startswith("for") and pend != n: pend = None
    return out, src
def main():
    a = sys.argv[1:]
    if a[0] == "build":
        with cf.ThreadPoolExecutor(5) as ex:
            for r in ex.map(build, a[1:] or sorted(HS)): print(*r, flush=True)
        return
    N = int(a[1]) if len(a) > 1 else 40; lp, src = loops(); mx = {}; by = {}
    for h in HS:
        f = W + "/" + h + ".json"
        if os.path.exists(f):
            for k, v in json.load(open(f)).items():
                n, fn = k.split("\t"); n = int(n)
                if v > mx.get(n, 0): mx[n] = v; by[n] = h
    seen = {}
    top = {}
    for n in mx:
        if n in lp: top[lp[n]] = max(top.get(lp[n], 0), mx[n])
    for n in sorted(mx):
        if n in lp and mx[n] < N and top[lp[n]] < N: seen.setdefault(lp[n], []).append(n)
    for l in sorted(seen):
        t = max(mx[n] for n in seen[l]); print("%5d %-60s max %3d  lines %s  (%s)" % (l, src[l - 1].strip()[:60], t, " ".join("%d:%d" % (n, mx[n]) for n in seen[l][:8]), by[seen[l][0]]))
if __name__ == "__main__": main()
