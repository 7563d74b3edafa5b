"""Write MANIFEST.json from dv/checks.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(R, "dv", "checks.json")))
checks = [dict(property=p, quick_cmd=f"./check.sh {p} --tier quick", thorough_cmd=f"./check.sh {p} --tier thorough", technique=c["technique"], level=c["level"], level_note=c["level_note"])
          for p, c in sorted(cfg.items()) if not c.get("na")]
na = [dict(property=p, reason=c["na"]) for p, c in sorted(cfg.items()) if c.get("na")]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
