"""Writes MANIFEST.json: every property with a check module is claimed, the others are listed with a reason."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "explicit enumeration of all gate/layout/angle configurations and closed breadth-first search over reachable states, every transition replayed on the code",
 "C02": "bounded exhaustive exploration of gate words x nestings x entry points against an executable model",
 "C03": "bounded exhaustive exploration of gates, layouts and words in dagger and Jacobian mode against an executable model",
 "C04": "bounded exhaustive exploration of gate layouts and words on density matrices against an executable model",
 "C05": "bounded exhaustive exploration of channel words x gates x layouts against an executable model",
 "C06": "exhaustive enumeration of a probability lattice per channel",
 "C07": "bounded exhaustive exploration of an observable grammar x circuits x modes x representations against an executable model",
 "C08": "bounded exhaustive exploration of circuits x parameter-sharing patterns against an exact derivative model",
 "C09": "bounded exhaustive exploration of circuits x parameter-sharing patterns x gradient routes against an exact derivative model",
 "C10": "controlled random source: exhaustive exploration of its answers, replayed on the code",
 "C11": "controlled random source: exhaustive exploration of its answers, replayed on the code",
 "C12": "bounded exhaustive exploration of programs in dense and sparse form (bisimulation of two implementations and a model)",
 "C13": "bounded exhaustive exploration of gate/composite terms x supports against an executable model",
 "C14": "bounded exhaustive exploration of objects x transformations x call histories of one compiled function",
 "C15": "bounded exhaustive exploration of circuits against an executable model of the bookkeeping",
 "C16": "bounded exhaustive exploration of Hamiltonians x times x target orders x words against an executable model",
 "C17": "exhaustive exploration of API call histories (failing calls included) on shared objects",
 "C18": "exhaustive enumeration of constructors and of all pairs from families of states against their definitions",
 "C19": "exhaustive enumeration of the product of configurations against an executable model",
 "C20": "bounded exhaustive exploration of gate words x flag combinations x representations against an executable model",
 "C21": "stateless model checking: all schedules of two threads up to a preemption bound under a controlled scheduler",
}
NOTE = {}
notes = os.path.join(root, "tools", "level_notes.json")
if os.path.exists(notes):
    NOTE = json.load(open(notes))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "vmc", "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"./check {i} --tier quick", thorough_cmd=f"./check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=T[i], level="model_checking",
            level_note=NOTE.get(i, "exhaustive within the bounds written to the evidence file; nothing is claimed beyond them"),
        ))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import vmc.build\"", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
