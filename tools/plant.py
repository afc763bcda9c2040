"""Writes and tries planted bugs (development only; no check uses this).
python3 tools/plant.py SPECS.py [ID ...]: SPECS.py defines SPECS, a list of dicts
  id, property, edits=[(file, old, new)], needs, breaks, demo (python source run with the repository as cwd).
For each one: writes seeded/ID/, then in a scratch copy of /repo applies the patch and runs the stable tests, the
demo with and without the patch, and the property's quick check (through VMC_REPO)."""
import json, os, runpy, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# exit 0 if the property holds, non-zero otherwise (run in /repo)\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n'


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def write(s):
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/seed/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    for f, old, new in s["edits"]:
        t = open(f"{w}/{f}").read()
        assert t.count(old) >= 1, (s["id"], f, "text not found", old)
        assert t.count(old) == 1, (s["id"], f, "text found several times", old)
        open(f"{w}/{f}", "w").write(t.replace(old, new))
    diff = sh("git diff", w).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
    return d, w


def mine(d):
    """Lines the patch removes that were added by later commits than the first one."""
    root = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()[:7]
    out, f, n = [], None, 0
    for l in open(f"{d}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-"):
            b = sh(f"git blame -s --root -L {n},{n} HEAD -- {f}", "/repo").stdout
            if root not in b.split()[0]:
                out.append((f, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def record(id, tests, checks):
    """tools/planted/results.json: which checks catch which planted bug (read by make_design.py)."""
    p = f"{ROOT}/tools/planted/results.json"
    r = json.load(open(p)) if os.path.exists(p) else {}
    e = r.setdefault(id, dict(tests=False, checks={}))
    e["tests"] = e["tests"] or tests
    e["checks"].update(checks)
    json.dump(dict(sorted(r.items())), open(p, "w"), indent=1)


def main():
    specs = runpy.run_path(sys.argv[1])["SPECS"]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in specs:
        if only and s["id"] not in only:
            continue
        t0 = time.time()
        try:
            d, w = write(s)
        except AssertionError as e:
            print(s["id"], "SPEC STALE", str(e)[:120], flush=True)
            continue
        if mine(d):
            print(s["id"], "changes lines that are not original:", mine(d), flush=True)
        a = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", w)
        line = [f"{s['id']} {s['property']} demo {a.returncode}/{b.returncode}"]
        if a.returncode or not b.returncode:
            print(*line, "DEMO WRONG", (a.stderr or "")[-600:] if a.returncode else b.stdout[-300:], flush=True)
            continue
        if "-notest" not in sys.argv:
            t = sh(f"JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 {PY} -m pytest tests -q -x -p no:cacheprovider --timeout=300 -n 8 --randomly-seed=0 --randomly-dont-reorganize", w)
            line.append(t.stdout.strip().splitlines()[-1])
            if t.returncode:
                print(*line, "TESTS FAIL", [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:3], flush=True)
                shutil.rmtree(w, ignore_errors=True)
                continue
        res = {}
        for prop in [s["property"]] + s.get("also", []) if "-nocheck" not in sys.argv else []:
            t1 = time.time()
            c = sh(f"./check {prop} --tier quick", ROOT, VMC_REPO=w)
            res[prop] = c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
            line.append(f"{prop}: {'caught' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED rc=%d' % c.returncode} {time.time() - t1:.0f}s")
            if c.returncode == 1:
                line.append("| " + [l for l in c.stdout.splitlines() if l.startswith("case:")][0][:160])
        print(*line, f"({time.time() - t0:.0f}s)", flush=True)
        record(s["id"], tests="-notest" not in sys.argv, checks={p: r for p, r in res.items()})
        shutil.rmtree(w, ignore_errors=True)


main()
