"""Writes /verif/MANIFEST.json from the property list and the property modules."""
import ast, json, os, pathlib
V = pathlib.Path(__file__).resolve().parents[1]
NA = {
 "P30": "A pure function of the parameters: no schedule, clock, I/O, fault or history can change the verdict, so simulation has nothing to control (that the value stays the same over a task's life is P09).",
 "P31": "A pure function of the data: a simulator adds nothing to input generation (repeatability, chunk and worker independence of these estimators are P10 and P13).",
 "P32": "Pure functions of parameters and points with no schedule, time, I/O or fault dimension.",
 "P33": "A pure identity between densities with no schedule, time, I/O or fault dimension.",
}
NOTES = json.load(open(V / "tools" / "level_notes.json"))
checks, na = [], []
for line in open(V / "properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif (V / "sim" / "props" / f"{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                       "level": "exploration", "level_note": NOTES.get(i, "Seeded search: a clean batch is evidence over the sampled runs, not proof.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: all seams are Python-level (open, subprocess.Popen, time, threading.Lock, joblib, sys.monitoring) and are installed by the harness process. Replay: ./check <id> --replay <file>."},
  open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
