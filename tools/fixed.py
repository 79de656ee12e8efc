"""Record a repaired defect: fixed.py C18 <commit> <what failed>."""
import json, sys, pathlib
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}")
f.write_text(json.dumps(d, indent=1) + "\n")
