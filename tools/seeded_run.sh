#!/bin/bash
# runs the check of each planted bug's property (quick) with the patch applied to /repo, and records the result. Not a check.
cd /verif; for d in ${@:-seeded/*/}; do b=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
 t0=$(date +%s); out=$(MC_VERIF=/tmp/mcv bash check.sh $p quick 2>&1); rc=$?; git -C /repo checkout -q -- .
 su=$(echo "$out" | grep -m1 -oE '^case [^ ]+' | cut -c6-); r="missed (rc $rc)"; [ $rc = 1 ] && r="$p $su"
 echo "$b $rc $(( $(date +%s)-t0 ))s $r"
 python3 - "$b" "$r" <<'P'
import json,sys,os
f="/verif/tools/seeded_results.json"; d=json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]]=sys.argv[2]; json.dump(d,open(f,"w"),indent=1,sort_keys=True)
P
done
