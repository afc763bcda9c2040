"""Writes DESIGN.md: the handwritten parts below, and per property what the check modules state about themselves
(docstring, bounds, assumptions), the fixes and findings of known_findings.json and the results of tools/plant.py."""
import importlib, json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
J = lambda f: json.load(open(f"{ROOT}/{f}"))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
man = {c["property"]: c for c in J("MANIFEST.json")["checks"]}
known = J("known_findings.json")
res = J("tools/planted/results.json") if os.path.exists(f"{ROOT}/tools/planted/results.json") else {}
times = J("tools/times.json") if os.path.exists(f"{ROOT}/tools/times.json") else {}

HEAD = open(f"{ROOT}/tools/design_head.md").read()
TAIL = open(f"{ROOT}/tools/design_tail.md").read()


def short(x, n=420):
    t = json.dumps(x, default=str) if not isinstance(x, str) else x
    return t if len(t) <= n else t[: n - 3] + "..."


out = [HEAD, "\n## Per property\n"]
for p in props:
    m = importlib.import_module("vmc.checks." + p["id"].lower())
    out.append(f"### {p['id']}: {p['title']}\n")
    out.append(f"*Property.* {p['statement']}\n")
    out.append(f"*How it is decided* ({man[p['id']]['technique']}). {' '.join(m.__doc__.split())}\n")
    b = m.bounds("quick"), m.bounds("thorough")
    rows = []
    for k in b[0] | b[1]:
        q, t = b[0].get(k, "-"), b[1].get(k, "-")
        rows.append(f"| {k} | {short(q)} | {'same' if q == t else short(t)} |".replace("\n", " "))
    out.append("| bound | quick | thorough |\n|---|---|---|\n" + "\n".join(rows) + "\n")
    out.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append(f"*Why tests cannot settle it.* {p['why_tests_cant']}\n")
    if p["id"] in times:
        out.append(f"*Cost.* quick {times[p['id']]['wall']} s on 8 cores: {times[p['id']]['counts']}.\n")
out.append("## Defects of the pinned commit found by the checks\n\nRepaired by one `fix:` commit each (the existing tests pass with all of them):\n")
for f in known["fixed"]:
    out.append("- " + f.removeprefix("fixed: "))
out.append("\nRecorded, not repaired (`known_findings.json`; every check run prints them as KNOWN-FINDING):\n")
for f in known["findings"]:
    out.append(f"- {f['property']} `{f['case']}`: {f['what']}")
out.append("\nThe three have one cause: the shift rule of `differentiation/gpsr.py` treats every name in the values as a rotation angle, also names that only scale observables. A repair would have to define what the backward function returns for such names (its documentation only speaks of circuit parameters), so it is left to the maintainers. `expectation(diff_mode=GPSR)` values are right; only these derivatives are wrong.\n")
out.append("\n## Planted bugs and what catches them\n\nEach is in `seeded/<id>/`; all apply to HEAD, pass the 309 tests and have a demonstration. Quick checks that were run against it:\n\n| bug | property | breaks | needs | caught by | not caught by |\n|---|---|---|---|---|---|")
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    r = res.get(d, {"checks": {}})["checks"]
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(k for k, v in r.items() if v) or '-'} | {', '.join(k for k, v in r.items() if not v) or '-'} |")
out.append("\n" + TAIL)
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))
