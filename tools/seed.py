"""seed.py NAME... : (re)build and confirm planted bugs described in tools/seeds.py.

For each: makes a scratch copy of /repo, applies the textual change, writes patch.diff, demo.sh, demo.py and
meta.json under /verif/seeded/NAME, and confirms that the demo passes without and fails with the change.
--tests also runs the stable tests on the changed copy, --checks runs the property's check on it.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V / "tools"))
import seeds
args = [a for a in sys.argv[1:] if not a.startswith("--")]
tests, checks = "--tests" in sys.argv, "--checks" in sys.argv
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD/src" JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
bad = 0
for name in args or sorted(seeds.SEEDS):
    s = seeds.SEEDS[name]
    # changes of .smk files do not count as planted bugs: kept here only
    smk = any(f.endswith(".smk") for f, *_ in s["edits"])
    out = V / ("out/seeds" if smk else "seeded") / name
    out.mkdir(parents=True, exist_ok=True)
    d = pathlib.Path(tempfile.mkdtemp(prefix="seed.", dir="/tmp"))
    try:
        subprocess.run(["git", "clone", "-q", os.environ.get("BMI_REPO", "/repo"), str(d / "r")], check=True)
        r = d / "r"
        for f, old, new in s["edits"]:
            t = (r / f).read_text()
            n = s.get("count", 1)  # "all": wherever it occurs
            assert t.count(old) == n or n == "all" and old in t, (name, f, t.count(old), old)
            (r / f).write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True, check=True).stdout
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO)
        os.chmod(out / "demo.sh", 0o755)
        (out / "demo.py").write_text(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out / "meta.json", "w"), indent=1)
        clean = subprocess.run([str(out / "demo.sh")], cwd=os.environ.get("BMI_REPO", "/repo"), capture_output=True, text=True, timeout=300)
        dirty = subprocess.run([str(out / "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)
        ok = clean.returncode == 0 and dirty.returncode != 0
        print(name, s["property"], "demo", "ok" if ok else "BAD", clean.returncode, dirty.returncode, (dirty.stderr or dirty.stdout).strip().splitlines()[-1:], flush=True)
        if clean.returncode: print(clean.stderr[-1500:])
        bad += not ok
        if checks:
            for c in [s["property"], *s.get("also", [])]:
                p = subprocess.run([str(V / "check"), c], env={**os.environ, "BMI_REPO": str(r)}, capture_output=True, text=True)
                print("   check", c, p.returncode, [l for l in (p.stdout + p.stderr).splitlines() if "VIOLATION" in l][:1], flush=True)
        if tests:
            # the tests import bmi from /repo unless told otherwise
            b = json.load(open("/opt/vp/BASELINE.json"))
            p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-n", "8", "tests"], cwd=r, env={**os.environ, "PYTHONPATH": str(r / "src")}, capture_output=True, text=True)
            print("   tests", p.returncode, p.stdout.strip().splitlines()[-3:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(bool(bad))
