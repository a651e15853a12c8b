"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import core
core.setup_process()
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="no check built yet"))
        continue
    m = importlib.import_module("mc.checks." + pid.lower())
    checks.append(dict(property=pid, quick_cmd="bash check.sh {} quick".format(pid),
        thorough_cmd="bash check.sh {} thorough".format(pid), evidence_file="evidence/{}.json".format(pid),
        technique="model checking: " + m.TECHNIQUE, level=m.LEVEL,
        level_note="Exhaustive inside the bounds, executed on the real code: {}. Assumes: {}".format(
            m.bounds("quick"), "; ".join(m.ASSUMPTIONS) or "nothing further")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks in /repo. See DESIGN.md."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
