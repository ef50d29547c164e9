#!/bin/bash
# tryref.sh NAME... -- run every check on a copy of /repo with refactored/NAME.diff
# (all of them have to stay quiet); CHECKS="C01 C02" limits them.
for N in "$@"; do
W=/tmp/rf.$N; rm -rf "$W"; cp -a /repo "$W"
git -C "$W" apply /verif/refactored/$N.diff || { echo "$N: does not apply"; rm -rf "$W"; continue; }
bad=
for c in ${CHECKS:-$(seq -f C%02g 1 26)}; do
	r=$(MC_REPO=$W timeout 900 /verif/check $c 2>&1); e=$?
	[ $e = 0 ] || { bad="$bad $c"; echo "$N $c exit $e: $(echo "$r" | grep -E 'VIOLATION|ERROR' | head -2 | cut -c1-200)"; echo "$r" | tail -15 > /tmp/rf.$N.$c.log; }
done
echo "$N:${bad:- quiet}"
rm -rf "$W"
done
