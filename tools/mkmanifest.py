"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
DAY = "TLA+ (ApplianceDay, DayRules) checked with TLC; outcome sets of the real code compared with the model's reachable ones; recorded days validated as traces"
T = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C20"):
    T[p] = (DAY, "exhaustive on small windows/durations (model and code); full-size days are sampled")
EXTRA = json.load(open("tools/levels.json")) if os.path.exists("tools/levels.json") else {}
T.update({k: tuple(v) for k, v in EXTRA.items()})
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in ids:
    if p in T:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking", level_note=T[p][1]))
na = [dict(property=p, reason="check not built yet") for p in ids if p not in T]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
