#!/bin/bash
# mut.sh "ID..." FILE 'python expr old' 'new'  -- run checks against a mutated copy
IDS=$1; F=$2; OLD=$3; NEW=$4
D=/tmp/mut.$$; mkdir -p $D; cp -a /repo/maa $D/maa
python3 - "$D/maa/$F" "$OLD" "$NEW" <<'P' || exit 3
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
if s.count(o)<1: sys.exit("pattern not found")
s=s.replace(o,n,1); open(p,'w').write(s)
P
for i in $IDS; do MC_REPO=$D /verif/check $i | grep -v ' executions ' | cut -c1-600; done
rm -rf /tmp/mut.$$
