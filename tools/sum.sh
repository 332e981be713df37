#!/bin/bash
# one line per specification run of the last evidence of a property
python3 - "$1" <<'P'
import json,sys
d=json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
for r in d['coverage']['spec_runs']: print({k:r.get(k) for k in ('spec','states','transitions','paths','paths_replayed','steps','tlc_s','replay_s')})
P
