#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{R}/properties.jsonl")]
T = "property-based testing"
TECH = {
 "C01": f"{T}: structured fuzzing of every parser and reader, panic / hang oracle",
 "C02": f"{T}: generated encodings and mutants against a reference recogniser",
 "C03": f"{T}: metamorphic tails and re-parsing",
 "C04": f"{T}: generated encodings against table-driven field readers",
 "C05": f"{T}: stateful write histories against a table-driven unit model",
 "C06": f"{T}: generated buffers and prior contents against the table-driven default message",
 "C07": f"{T}: stateful edit histories against a byte list",
 "C08": f"{T}: stateful fallible edit histories against a capacity model",
 "C09": f"{T}: edit histories against a canonical encoder",
 "C10": f"{T}: generated call orders on iterators against a list iterator",
 "C11": f"{T}: packet streams against reference packet readers",
 "C12": f"{T}: generated text histories, round trip and canonical encoder",
 "C13": f"{T}: generated text histories, round trip and canonical encoder",
 "C14": f"{T}: stateful histories, invariant over packets",
 "C15": f"{T}: round trip and reference conversion",
 "C16": f"{T}: generated routes between buffers, differential and capacity model",
 "C17": f"{T}: differential between wrapped and unwrapped message",
 "C18": f"{T}: exhaustive and generated typed values against code tables",
 "C19": f"{T}: stateful write histories against a byte layout model",
 "C20": f"{T}: differential over buffer kinds, allocation counting",
 "C22": f"{T}: stateful histories of every provided buffer against a list of units",
 "C23": f"{T}: generated pairs of messages and histories, equality against the units, copies edited side by side",
 "C21": f"{T}: differential between feature subsets and the full build",
}
impl = [l.strip() for l in open(f"{R}/tools/claimed.txt") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in impl:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "generated-input search with an explicit oracle; failures shrink to a replay file (harness replay FILE)",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is reached through the public interface."}
json.dump(m, open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
