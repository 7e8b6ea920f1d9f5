"""Rewrites the table of planted bugs in DESIGN.md from tools/seeds.py."""
import pathlib, re, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V / "tools"))
import seeds
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for n, s in sorted(seeds.SEEDS.items()):
    also = {"p01": ["P06"], "p02-shared-warnings": ["P14"], "p17-duplicates-dropped": ["P18"]}
    smk = " (rule file)" * any(f.endswith(".smk") for f, *_ in s["edits"])
    rows.append(f"| `{n}`{smk} | {', '.join(dict.fromkeys([s['property'], *s.get('also', []), *also.get(n, also.get(n[:3], []))]))} | {s['needs']} | {s['breaks']} |")
p = V / "DESIGN.md"
t = p.read_text()
t = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t)
t = re.sub(r"`seeded/` holds \S+ bugs", f"`seeded/` holds {sum(not any(f.endswith('.smk') for f, *_ in s['edits']) for s in seeds.SEEDS.values())} bugs", t)
p.write_text(t)
print(len(seeds.SEEDS))
