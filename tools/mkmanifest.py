#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"A01":"runtime monitor: panic/overflow/hang detector under hostile workloads",
"A02":"runtime monitor: invariant checker on every result",
"A03":"runtime monitor: result digests across repeats, orders and processes",
"A04":"runtime monitor: concurrent digests vs sequential (interference oracle)",
"A05":"runtime monitor: metamorphic relation between paired executions",
"A06":"runtime monitor: executable model of the documented pipeline run alongside",
"A07":"runtime monitor: policy checker over runs under related switches",
"A08":"runtime monitor: consistency checker on result metadata",
"A09":"runtime monitor: ground-truth oracle on synthesised pulses",
"A10":"runtime monitor: ground-truth and transposition oracle on synthesised chords",
"G04":"runtime monitor: state-machine reference model over update histories",
"K04":"runtime monitor: exhaustive keys and random text against the wheel arithmetic",
"R02":"runtime monitor: round-trip oracle",
"V02":"runtime monitor: round-trip oracle over generated, cut and damaged tags",
"V03":"runtime monitor: exactly-once accounting over calls and rows, with injected analyser faults and delays",
"V04":"runtime monitor: set and content oracle on prepared batches",
"V05":"runtime monitor: recomputed statistics against printed reports",
"V06":"runtime monitor: exactly-once accounting over recorded calls and recomputed rankings, with injected analyser faults",
"V01":"runtime monitor: exhaustive spellings and random text against pitch-class arithmetic",
}
C=[]
for l in open(D+"/properties.jsonl"):
    i=json.loads(l)["id"]
    C.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":T.get(i,"runtime monitor: independent reference oracle on generated stage inputs"),
      "level":"exploration",
      "level_note":"real code built from /repo with overflow checks and debug assertions on; seeded workloads, verdict by an independent oracle on every execution; evidence counts observed events"})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":C,"not_applicable":[],
 "notes":"No hooks in /repo: every monitored quantity is public. See DESIGN.md."},open(D+"/MANIFEST.json","w"),indent=1)
print(len(C),"checks")
