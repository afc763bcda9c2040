"""Which planted bugs are in which state (development only)."""
import json, os, re, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f"{ROOT}/tools/plant.py").read()
ns = {"__file__": f"{ROOT}/tools/plant.py", "__name__": "x"}
exec(compile(re.sub(r"^main\(\)\s*$", "", src, flags=re.M), "plant.py", "exec"), ns)
r = json.load(open(f"{ROOT}/tools/planted/results.json"))
ids = sorted(os.listdir(f"{ROOT}/seeded"))
apply = lambda d: subprocess.run(["git", "-C", "/repo", "apply", "--check", f"{ROOT}/seeded/{d}/patch.diff"], capture_output=True).returncode == 0
print("does not apply:", [d for d in ids if not apply(d)])
print("changes lines of later commits:", [d for d in ids if apply(d) and ns["mine"](f"{ROOT}/seeded/{d}")])
print("never run with tests:", [d for d in ids if not r.get(d, {}).get("tests")])
print("not caught:", {d: r.get(d, {}).get("checks") for d in ids if not any(v in (True, "caught") for v in r.get(d, {}).get("checks", {}).values())})
