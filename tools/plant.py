#!/usr/bin/env python3
"""Plant bugs: plant.py FILE.py [ID ...] [--dry] [--nocheck] [--notest] [--tier T]
FILE.py holds calls B(id, property, edits, needs, breaks, demo, flags="", prelude=""): edits is a list of (old, new) or (anchor, old, new)
applied to strtk.hpp; demo is the body of int main() using CHECK(cond). Every bug is made in a scratch copy of /repo, demonstrated
(demo passes without and fails with it), run through the stable tests (in a private mount namespace) and the property's check, and
kept in /verif/seeded/ID when it compiles, passes the tests and is demonstrated."""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
W = os.environ.get("PLANT_W", "/tmp/plant"); REPO = "/repo"; V = "/verif"
BUGS = []
def B(id, prop, edits, needs, breaks, demo, flags="", prelude="", std="c++14"):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, prelude=prelude, std=std))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this tree; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=%s -O1 -w -g1 -I "$PWD" -o "$T/demo" "$D/demo.cpp" %s || exit 3
cd "$T" && timeout 120 ./demo
'''
DEMO_CPP = '''%s#include "strtk.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <limits>
#include <memory>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %%d: %%s\\n", __LINE__, #x); std::exit(1); } } while (0)
typedef std::string S;
typedef std::vector<std::string> VS;
%s
int main()
{
%s
   std::printf("ok\\n");
   return 0;
}
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
def apply_edits(src, edits):
    for e in edits:
        if len(e) == 2:
            old, new = e
            n = src.count(old)
            if n != 1: raise ValueError("old occurs %d times: %r" % (n, old[:160]))
            src = src.replace(old, new)
        else:
            anchor, old, new = e
            if src.count(anchor) != 1: raise ValueError("anchor occurs %d times: %r" % (src.count(anchor), anchor[:160]))
            i = src.index(anchor); j = src.find(old, i)
            if j < 0 or j > i + 8000: raise ValueError("old not found after anchor: %r" % old[:160])
            src = src[:j] + new + src[j + len(old):]
    return src
def one(b, opts):
    d = "%s/%s" % (W, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = d + "/repo"; sh("cp -a %s %s" % (REPO, r))
    p = r + "/strtk.hpp"; src = open(p, encoding="latin-1", newline="").read()
    try: new = apply_edits(src, b["edits"])
    except ValueError as x: return b, "EDIT: %s" % x, ""
    open(p, "w", encoding="latin-1", newline="").write(new)
    pd = sh("git -C %s diff --no-color" % r).stdout
    k = d + "/k"; os.makedirs(k)
    open(k + "/patch.diff", "w").write(pd)
    open(k + "/demo.sh", "w").write(DEMO_SH % (b["std"], b["flags"])); os.chmod(k + "/demo.sh", 0o755)
    open(k + "/demo.cpp", "w").write(DEMO_CPP % (b["prelude"] if b["prelude"].startswith("#define strtk") else "", "" if b["prelude"].startswith("#define strtk") else b["prelude"], b["demo"]))
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(k + "/meta.json", "w"), indent=1)
    c = sh("cd %s && bash %s/demo.sh" % (REPO, k))
    if c.returncode: return b, "DEMO FAILS ON CLEAN TREE rc=%d\n%s" % (c.returncode, (c.stdout + c.stderr)[-1500:]), ""
    c = sh("cd %s && bash %s/demo.sh" % (r, k))
    if c.returncode == 0: return b, "DEMO PASSES WITH BUG", ""
    if c.returncode == 3: return b, "DEMO DOES NOT COMPILE WITH BUG\n" + c.stderr[-800:], ""
    if opts["dry"]: return b, "demonstrated", ""
    if not opts["notest"]:
        t = sh("unshare -m bash -c 'mount --bind %s /repo && bash /opt/vp/build.sh >%s/build.log 2>&1 && bash /opt/vp/test.sh %s/out.json >/dev/null 2>&1'" % (r, d, d))
        try:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; out = json.load(open(d + "/out.json"))["passed"]
        except Exception as x: return b, "BUILD FAILED\n" + sh("grep -m5 error %s/build.log; tail -5 %s/build.log" % (d, d)).stdout, ""
        miss = [x for x in base if x not in out]
        if miss: return b, "BREAKS TESTS " + " ".join(miss), ""
    s = "%s/seeded/%s" % (V, b["id"]); shutil.rmtree(s, ignore_errors=True); shutil.copytree(k, s)
    if opts["nocheck"]: return b, "kept", "-"
    c = sh("STRTK_REPO=%s MC_BUILD=%s/build python3 %s/check.py %s --tier %s" % (r, d, V, b["prop"], opts["tier"]))
    viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=%s " % b["prop"])]
    res = "CAUGHT" if c.returncode == 1 and viol else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return b, "kept", res
def main():
    a = sys.argv[1:]; opts = dict(nocheck="--nocheck" in a, notest="--notest" in a, dry="--dry" in a, tier="quick")
    if "--tier" in a: opts["tier"] = a[a.index("--tier") + 1]; a.remove(opts["tier"])
    a = [x for x in a if not x.startswith("--")]
    exec(compile(open(a[0]).read(), a[0], "exec"), globals())
    ids = a[1:]; todo = [b for b in BUGS if not ids or b["id"] in ids]
    os.makedirs(W, exist_ok=True); n = dict(CAUGHT=0)
    with cf.ThreadPoolExecutor(4) as ex:
        for b, st, res in ex.map(lambda b: one(b, opts), todo):
            print("%-34s %-4s %s %s" % (b["id"], b["prop"], st, res), flush=True)
if __name__ == "__main__": main()
