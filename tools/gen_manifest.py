import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.tech import TECH, SHORT, NOTE
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa && python3 -c \"import sa.check\"",
     "checks": [{"property": p, "quick_cmd": "python3 -m sa.check %s quick" % p, "thorough_cmd": "python3 -m sa.check %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": SHORT[p], "level": "other", "level_note": NOTE[p]} for p in sorted(TECH)],
     "not_applicable": [
         {"property": "C26", "reason": "a bound on accumulated floating-point rounding over unboundedly many updates quantifies over runtime values; no sound static error analysis in reach bounds the cancelling recurrences used here (differences of large sums), and the analysis works in real arithmetic"},
         {"property": "C27", "reason": "overflow, underflow and cancellation to zero depend on the magnitude of the data at run time; the definitions themselves (products of squared norms, determinants, exponentials) overflow for representable data, so no static argument over the source decides it"}],
     "notes": "Static analysis only: the analysed package is parsed and abstractly interpreted, never imported or run. Checks need only the system python3 (standard library). CVI_REPO overrides the analysed tree (default /repo)."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
