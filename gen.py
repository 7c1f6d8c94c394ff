#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and props.py."""
import json, os
import props, texts
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for t in texts.T:
        assert len(t["title"]) <= 80, t["id"]
        f.write(json.dumps(t) + "\n")
NA = getattr(texts, "NA", {})
ids = [t["id"] for t in texts.T]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in NA:
        continue
    p = props.PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled library's LLVM IR, path conditions and assertions decided by z3 (symx)",
        "level": "model_checking",
        "level_note": "Within the bounds every path is decided by the solver: %s. Outside: %s. Assumes: %s." % (p["bounds"], p["outside"], "; ".join(p["assumes"])),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the checks use only the public API of /repo. ring, bcrypt-pbkdf and aes are replaced by models through [patch] in /verif/harness and /verif/replay."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")


# ---- DESIGN.md: the generated parts
import how, glob


def between(text, mark, body):
    a, b = "<!-- %s -->" % mark, "<!-- /%s -->" % mark
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + "\n" + text[j:]


d = open(os.path.join(V, "DESIGN.md")).read()
rows = []
for t in texts.T:
    i = t["id"]
    if i in NA:
        rows.append("### %s %s\n\nNot applicable: %s\n" % (i, t["title"], NA[i]))
        continue
    p = props.PROPS[i]
    c = getattr(how, "COST", {}).get(i)
    rows.append("### %s %s\n\n- decided by: %s\n- bounds: %s\n- outside: %s\n- jobs: %d quick, %d thorough%s\n- beyond tests: %s\n" % (
        i, t["title"], how.HOW[i], p["bounds"], p["outside"], len(p["jobs"]("quick")), len(p["jobs"]("thorough")), "; " + c if c else "", t["why_tests_cant"]))
d = between(d, "generated", "\n".join(rows))
fx = [l.split(" ", 3) for l in open(os.path.join(V, "known-findings.txt")) if l.startswith("fixed:")]
d = between(d, "fixed", "\n".join("- %s (%s): %s" % (a.split("=")[1], b, c.strip()) for _, a, b, c in fx))
sd = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    sd.append("- `%s` (%s, %s): %s" % (n, m["property"], getattr(how, "CAUGHT", {}).get(n, "caught"), m["what_it_breaks"]))
if sd:
    d = between(d, "seeded", "\n".join(sd))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
