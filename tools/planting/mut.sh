#!/bin/bash
# mut.sh CHECK FILE 'python expr on s'
rm -rf /tmp/m/r; cp -a /repo /tmp/m/r
cd /tmp/m/r && python3 - "$2" "$3" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); o=s
ns={'s':s}; exec(sys.argv[2],ns); s=ns['s']
assert s!=o,'no change'
open(p,'w').write(s)
P
cd /verif && DST_REPO=/tmp/m/r timeout 400 python3 check.py $1 2>&1 | tail -4
