"""Apply a textual change to a scratch copy and run checks: mut.py FILE OLD NEW CHECK...  (OLD must occur exactly once)."""
import os, shutil, subprocess, sys, tempfile
f, old, new, checks = sys.argv[1], sys.argv[2].encode().decode("unicode_escape"), sys.argv[3].encode().decode("unicode_escape"), sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
try:
    subprocess.run(["cp", "-a", "/repo/src", "/repo/workflows", "/repo/external", d], check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    assert s.count(old) == 1, f"{s.count(old)} occurrences"
    open(p, "w").write(s.replace(old, new))
    for c in checks:
        r = subprocess.run(["/verif/check", c, "--tier", "quick"], env=dict(os.environ, BMI_REPO=d), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith(("minimised", "VIOLATION", "held", "CHECK-ERROR", "violation"))]
        print(f"{c} rc={r.returncode}", *[l[:400] for l in lines], sep="\n   ", flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-2000:], r.stderr[-1000:])
finally:
    shutil.rmtree(d)
