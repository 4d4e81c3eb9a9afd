#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after adding a check."""
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
CHECKS={
'C02':('lockstep monitor: a saved-and-loaded story against the one it was saved from',
       'Exploration: every transcript, save, variable and visit count compared after random shared continuations from thousands of save points; trusts the harness comparison.'),
'C17':('lockstep monitor: a reset story against a newly constructed one',
       'Exploration: random histories (errors, flows, loads, jumps), then both stories driven by the same calls and compared; trusts the harness comparison.'),
'C19':('in-process audit hook walking every loaded object, plus saved-position checker',
       'Exploration: every object of every program walked through a cfg-guarded hook, and every position in saves resolved by an independent reader of the JSON.'),
}
import os
for f in sorted(os.listdir('/verif/manifest.d')) if os.path.isdir('/verif/manifest.d') else []:
    d=json.load(open('/verif/manifest.d/'+f)); CHECKS[f[:-5]]=(d['technique'],d['note'])
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"cfg(vp_hooks)","enable":"RUSTFLAGS=\"--cfg vp_hooks\" (env.sh)","source_commits":["810c113"]},
 "checks":[],"not_applicable":[],
 "notes":"run.sh builds the harness crate (path dependencies on /repo) with the hooks on and runs one check; known_findings.json lists genuine findings and the fix commits."}
for p in P:
    i=p['id']
    if i in CHECKS:
        t,n=CHECKS[i]
        m['checks'].append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":t,"level":"exploration","level_note":n})
    else:
        m['not_applicable'].append({"property":i,"reason":"check not finished yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']),'checks')
