#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan, props
T = "symbolic execution of the real code's LLVM bitcode, Z3 deciding every branch and assertion"
NOTE = ("Bounded: within the stated bounds every path of the real code is executed symbolically and every assertion, memory access and division on it is decided by Z3 for all values; a violation is reported only after its counterexample "
        "is reproduced on a native build of the same sources. Trusted: the bitcode interpreter (/verif/engine), its models of libc functions (malloc, strptime, regexec, printf are concrete or modelled), clang's code generation at -O0 and Z3.")
NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in sorted(props.PROPS):
        p = props.PROPS[i]
        assert len(p["title"]) <= 80, i
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=list(p["observe"]), hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, 'lib'); import vpbuild; vpbuild.build_engine()\"",
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified; the linker's --wrap and the engine intercept library calls", source_commits=[]),
    checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique=T, level="model_checking", level_note=NOTE + (" " + props.PROPS[i]["note"] if props.PROPS[i]["note"] else "")) for i in sorted(plan.PLAN)],
    not_applicable=[dict(property=a, reason=b) for a, b in NA])
for i in props.PROPS:
    assert i in plan.PLAN or i in dict(NA), i
for i in plan.PLAN:
    assert i in props.PROPS, i
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
# the table of properties in DESIGN.md
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
a, b = "<!-- properties -->", "<!-- end of properties -->"
rows = []
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    hs = sorted({j["harness"] for j in plan.PLAN[i]["jobs"]}) if i in plan.PLAN else []
    rows.append("### %s %s\nDecided by %s (%d jobs). Bounds: %s\nOutside: %s\n" % (i, p["title"], ", ".join("`harness/%s`" % h for h in hs) or "not claimed", len(plan.PLAN[i]["jobs"]) if i in plan.PLAN else 0, p["bounds"], p["outside"]))
block = a + "\n## Properties, bounds and what lies outside them\n" + "\n".join(rows) + b
text = text[:text.index(a)] + block + text[text.index(b) + len(b):] if a in text else text + block + "\n"
open(path, "w").write(text)
