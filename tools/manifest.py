#!/usr/bin/env python3
"""Writes MANIFEST.json and MANIFEST's view of which properties are claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification (%s) model-checked with TLC; conformance: traces recorded from the real code validated against it by TLC%s"
def main():
    import props_claimed
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", 
      "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                  "technique": TECH % (m, x), "level": "model_checking", "level_note": n} for p, (m, x, n) in sorted(props_claimed.S.items())],
      "not_applicable": [{"property": p, "reason": r} for p, r in sorted(props_claimed.NA.items())],
      "notes": "No hooks: the harnesses use the public interface only. Known findings and repairs: known-findings.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
