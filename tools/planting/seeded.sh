#!/bin/bash
# seeded.sh [ids]: run each planted bug's check against it; in copies
cd /verif
ids="${@:-$(ls seeded)}"
echo $ids | tr ' ' '\n' | xargs -P 2 -I{} bash -c '
b={}; p=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$b/meta.json\"))[\"property\"])")
rm -rf /tmp/m/s-$b; mkdir -p /tmp/m; cp -a /repo /tmp/m/s-$b; git -C /tmp/m/s-$b apply /verif/seeded/$b/patch.diff || echo APPLYFAIL
o=$(DST_REPO=/tmp/m/s-$b timeout 850 python3 check.py $p 2>&1 | tail -3); 
echo "$b: $(echo "$o" | grep -c "VIOLATION property=$p") $(echo "$o" | head -1 | cut -c1-160)"
rm -rf /tmp/m/s-$b'
