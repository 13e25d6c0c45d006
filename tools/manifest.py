#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
SEQ="bounded exhaustive enumeration of histories/inputs over explicit alphabets, each executed on the real code and compared with an independent reference model"
SCH="stateless model checking of the real client: exhaustive delay-bounded schedule, segmentation and fault enumeration under a controlled scheduler with virtual time and a simulated network"
BOUND="Exhaustive within the stated bounds; trusts the hand-written reference model and the bounds (see DESIGN.md)."
SB="Exhaustive within the delay bound and the enumerated scenarios; trusts synctest virtual time, the simulated network and the reference model (see DESIGN.md)."
RACE="concurrent calls: stateless model checking of all interleavings within a delay bound under a controlled scheduler, with the Go race detector as a monitor on every explored execution"
CH={}
for p in "C01 C02 C03 C04 C05 C07".split(): CH[p]=(SEQ,BOUND)
import os
built=[l.strip() for l in open(os.path.join(os.path.dirname(__file__),'built.txt')) if l.strip()]
ALL=["C%02d"%i for i in range(1,21)]
SCHED={"C08","C09","C10","C11","C12","C19"}
out={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in ALL:
    if p in built:
        t,n=(SEQ+'; '+RACE,BOUND+' '+SB) if p=='C06' else (SCH,SB) if p in SCHED else (SEQ,BOUND)
        out["checks"].append({"property":p,"quick_cmd":"./run.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+p,"technique":t,"level":"model_checking","level_note":n})
    else:
        out["not_applicable"].append({"property":p,"reason":"Check not built yet (planned, see DESIGN.md)."})
json.dump(out,open(os.path.join(os.path.dirname(__file__),'..','MANIFEST.json'),'w'),indent=1)
