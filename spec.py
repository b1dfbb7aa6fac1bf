"""The properties this framework decides: single source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

COMMON_ASSUMPTIONS = [
    "g++ 13 at -O1 in C++14 mode with AddressSanitizer and UBSan(bounds, return, divide) is the execution platform; results on it stand for the library",
    "the reference models in /verif/harness are right (short, written from the documented behaviour, and agreeing with the code on every case explored)",
    "nothing is claimed outside the stated bounds (alphabets, lengths, depths) of each section",
]
CHECKS = {}
NOT_APPLICABLE = []
EXH = "every case of a finite space is enumerated by nested loops, run on the real code and compared with a reference model; nothing is sampled."


def P(pid, title, statement, over, text, why, mech, harness, rule, level="exploration",
      technique=None, note=None, assumptions=(), flags=None, opt=None, observe=()):
    hs = []
    for h in harness if isinstance(harness, (list, tuple)) else [harness]:
        d = dict(h) if isinstance(h, dict) else {"src": h}
        if "flags" not in d and flags is not None:
            d["flags"] = flags
        if opt is not None:
            d["opt"] = opt
        hs.append(d)
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, statement
    CHECKS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, mech=mech, harness=hs, rule=rule + " " + EXH,
        level=level, assumptions=list(assumptions), observe=list(observe),
        technique=technique or ("explicit exploration of all operation histories to a depth against a reference model" if level == "model_checking"
                                else "bounded-exhaustive enumeration of inputs and configurations against a reference model"),
        note=note or "Exhaustive within the bounds of each section (listed in DESIGN.md, measured in the evidence file); says nothing outside them. Trusts the reference model, the compiler and the sanitizers.")


import importlib, os, pkgutil  # noqa: E402
for _f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs"))):
    if _f.endswith(".py"):
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs", _f)) as _h:
            exec(compile(_h.read(), _f, "exec"))
