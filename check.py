#!/usr/bin/env python3
"""Decide one property by bounded-exhaustive exploration of the real code (see DESIGN.md).

  check.py ID                 build the property's harnesses against /repo and explore (tier: $VERIF_TIER)
  check.py ID --tier thorough
  check.py --replay FILE      re-run the section that produced a recorded violation
  check.py --setup            check that the toolchain and the framework work

Exit 0: the property held on everything explored (evidence/<ID>.json says what that was).
Exit 1: a line 'VIOLATION property=<ID> replay=<path>'.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("STRTK_REPO", "/repo")
CXX = os.environ.get("MC_CXX", "g++")
SAN = ["-fsanitize=address,bounds,return,integer-divide-by-zero,unreachable,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
FLAGS = ["-std=c++14", "-g1", "-w"]
ASAN = ("abort_on_error=0:exitcode=96:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=0:"
        "allocator_may_return_null=0:max_allocation_size_mb=1024:hard_rss_limit_mb=3600:quarantine_size_mb=8:"
        "malloc_context_size=6:handle_abort=1:symbolize=0:fast_unwind_on_malloc=1")
DEADLINE = {"quick": 800, "thorough": 5400}

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import spec  # noqa: E402


def sh(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("latin-1"), (e.stderr or b"").decode("latin-1")


def compile_one(src, out, opt, extra):
    cmd = [CXX] + FLAGS + [opt] + SAN + ["-I", REPO, "-I", os.path.join(HERE, "harness")]
    cmd += [f for f in extra if not f.startswith("-l")] + ["-o", out, src] + [f for f in extra if f.startswith("-l")]
    rc, so, se = sh(cmd, 700)
    return rc, " ".join(cmd) + "\n" + so + se


def baseline_compiles(bdir):
    """Does a client that only includes the header compile? (separates a broken sandbox/tree from a removed API)"""
    src = os.path.join(bdir, "base.cpp")
    with open(src, "w") as f:
        f.write('#include "strtk.hpp"\n#include "mc.hpp"\nint main(){std::string s;return (int)strtk::parse(std::string("1"),",",s)-1;}\n')
    rc, log = compile_one(src, os.path.join(bdir, "base"), "-O0", ["-Dstrtk_no_tr1_or_boost"])
    return rc == 0, log


class Problem(object):
    def __init__(self, harness, section, case, msg):
        self.harness, self.section, self.case, self.msg = harness, section, case, msg


def run_section(binary, harness, section, tier, scratch, timeout):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=0", MC_SCRATCH=scratch, LC_ALL="C")
    t0 = time.time()
    rc, so, se = sh([binary, section, tier], timeout, env=env, cwd=scratch)
    problems, result = [], None
    for line in so.split("\n"):
        p = line.split("\t")
        if p[0] == "FAIL" and len(p) >= 4:
            problems.append(Problem(harness, section, p[2], "\t".join(p[3:])))
        elif p[0] == "CRASH" and len(p) >= 4:
            what = p[3]
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|ERROR: [^\n]*)", se)
            if m:
                what += ": " + re.sub(r"0x[0-9a-f]+", "ADDR", re.sub(r"==\d+==", "", m.group(1)))
            problems.append(Problem(harness, section, p[2], what))
        elif p[0] == "RESULT":
            result = json.loads(p[1])
    if result is None and not problems:
        if rc is None:
            what = "the section did not finish within %d s" % timeout
        else:
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|hard rss limit[^\n]*)", se)
            what = "abnormal end rc=%s %s" % (rc, re.sub(r"==\d+==|0x[0-9a-f]+", "", m.group(1)) if m else se[-300:])
        problems.append(Problem(harness, section, "(unknown case)", what))
    return problems, result, se[-4000:], time.time() - t0


def load_known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) section=(\S+) case=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def write_replay(pid, tier, prob, extra):
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"\W+", "_", prob.section)[:60]))
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "harness": prob.harness, "section": prob.section, "case": prob.case,
                   "failure": prob.msg, "detail": extra,
                   "replay": "python3 check.py --replay " + os.path.relpath(path, HERE)}, f, indent=1)
    return path


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if args and args[0] == "--setup":
        return setup()
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        args, tier, only = [r["property"]], r["tier"], (r["harness"], r["section"])
    if "--section" in args:
        i = args.index("--section"); only = (None, args[i + 1]); del args[i:i + 2]
    pid = args[0]
    sp = spec.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = os.path.join(HERE, "build", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    scratch = os.path.join(bdir, "scratch")
    os.makedirs(scratch)
    try:
        return decide(pid, sp, tier, seed, only, bdir, scratch, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def decide(pid, sp, tier, seed, only, bdir, scratch, t0):
    problems, results, logs, times = [], [], {}, {}
    jobs = []
    with cf.ThreadPoolExecutor(8) as pool:
        futs = {}
        for h in sp["harness"]:
            src = os.path.join(HERE, "harness", h["src"])
            out = os.path.join(bdir, re.sub(r"\W", "_", h["src"]))
            futs[pool.submit(compile_one, src, out, h.get("opt", "-O1"), h.get("flags", ["-Dstrtk_no_tr1_or_boost"]))] = (h, out)
        for f in cf.as_completed(futs):
            h, out = futs[f]
            rc, log = f.result()
            if rc != 0:
                ok, blog = baseline_compiles(bdir)
                if not ok:
                    sys.stderr.write("cannot build anything against %s:\n%s\n" % (REPO, blog[-3000:]))
                    return 2
                errs = [l for l in log.split("\n") if "error" in l][:3]
                problems.append(Problem(h["src"], "build", "client code using the documented interface does not compile", " | ".join(errs)[:600]))
                logs[h["src"] + ":build"] = log[-4000:]
                continue
            rc, so, se = sh([out, "--list"], 60)
            for s in so.split():
                if only and only[1] != s:
                    continue
                jobs.append((h, out, s))
    deadline = t0 + DEADLINE[tier]
    with cf.ThreadPoolExecutor(8) as pool:
        futs = {}
        for h, out, s in jobs:
            sdir = os.path.join(scratch, re.sub(r"\W", "_", h["src"]) + "." + s)
            os.makedirs(sdir, exist_ok=True)
            futs[pool.submit(run_section, out, h["src"], s, tier, sdir, max(30, deadline - time.time()))] = (h, out, s, sdir)
        for f in cf.as_completed(futs):
            h, out, s, sdir = futs[f]
            pr, res, se, dt = f.result()
            times[s] = round(dt, 2)
            problems += pr
            if res:
                results.append(res)
            if pr:
                logs[h["src"] + ":" + s] = se
    # Replay before report: the exploration is deterministic, so the section must fail the same way again.
    known = load_known(pid)
    confirmed, seen, known_hit = [], set(), set()
    for p in problems:
        k = [i for i, (rs, rc_, _) in enumerate(known) if rs.search(p.section) and rc_.search(p.case)]
        if k:
            known_hit.update(k)
            continue
        if (p.harness, p.section) in seen:
            continue
        seen.add((p.harness, p.section))
        if p.section == "build":
            confirmed.append(p)
            continue
        if len(confirmed) >= 1 and time.time() - t0 > 300:
            continue
        out = [o for (h, o, s) in jobs if h["src"] == p.harness and s == p.section][0]
        sdir = os.path.join(scratch, "replay"); os.makedirs(sdir, exist_ok=True)
        pr, _, se, _ = run_section(out, p.harness, p.section, tier, sdir, max(60, deadline + 60 - time.time()))
        same = [q for q in pr if q.case == p.case] or [q for q in pr if p.case == "(unknown case)" or q.case == "(unknown case)"]
        if same:
            confirmed.append(p)
        elif pr:
            # It failed again, but elsewhere: layout-dependent memory corruption. Still a violation.
            p.msg += " [replayed: failed at " + pr[0].case[:200] + ": " + pr[0].msg[:200] + "]"
            confirmed.append(p)
        else:
            sys.stderr.write("not reproduced, dropped: %s %s %s\n" % (p.section, p.case, p.msg))
    for p in confirmed:
        path = write_replay(pid, tier, p, logs.get(p.harness + ":" + p.section, ""))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
        print("  section %s, case: %s\n  %s" % (p.section, p.case[:500], p.msg[:500]))
    for i, (_, _, what) in enumerate(known):
        if i in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    tot = lambda k: sum(r[k] for r in results)
    samples = []
    for r in sorted(results, key=lambda r: r["section"]):
        samples += ["%s: %s" % (r["section"], s) for s in r["samples"][:3]]
    cov = {"exhaustive": not confirmed and only is None,
           "sections": {r["section"]: {k: r[k] for k in ("evals", "distinct", "states", "transitions", "traces") if r[k]} for r in sorted(results, key=lambda r: r["section"])},
           "section_seconds": times,
           "evaluations": tot("evals"), "distinct_nontrivial": tot("distinct"),
           "rule": sp["rule"] + " A case counts as distinct and non-trivial by the hash of what was observed (result values, tokens, return codes), counted per section.",
           "samples": samples[:40]}
    if sp["level"] == "model_checking":
        cov.update({"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("traces")})
    notes = {}
    for r in results:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": sp["level"], "coverage": cov,
          "assumptions": spec.COMMON_ASSUMPTIONS + sp.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d evaluations, %d distinct, %d states, %d transitions in %d sections, %d violation(s), %.1f s" % (
        pid, tier, tot("evals"), tot("distinct"), tot("states"), tot("transitions"), len(results), len(confirmed), time.time() - t0))
    return 1 if confirmed else 0


def setup():
    bdir = os.path.join(HERE, "build", "setup.%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        src = os.path.join(bdir, "t.cpp")
        with open(src, "w") as f:
            f.write('#include "mc.hpp"\nMC_SECTION(s){ MC_CASE(o << "x"); mc::outcome(1); }\nMC_MAIN\n')
        rc, log = compile_one(src, os.path.join(bdir, "t"), "-O1", [])
        if rc != 0:
            sys.stderr.write(log)
            return 1
        pr, res, se, _ = run_section(os.path.join(bdir, "t"), "t.cpp", "s", "quick", bdir, 60)
        print("framework ok" if res and not pr else "framework broken: " + se)
        return 0 if res and not pr else 1
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
