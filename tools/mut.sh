#!/bin/bash
# mut.sh PROPS FILE OLD NEW: run checks on a scratch copy with one textual change (developer tool)
wt=/tmp/wtc/mut.$$
mkdir -p /tmp/wtc && cp -a /repo $wt && git -C $wt checkout -q -- .
python3 - "$wt/popsynth/$2" "$3" "$4" <<'P'
import sys
f,a,b=sys.argv[1:]
s=open(f).read()
assert a in s, "pattern not found"
open(f,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 9
for p in ${1//,/ }; do SYMX_REPO=$wt SYMX_EVIDENCE=/tmp/wtc/ev.$$ timeout 900 /verif/check $p 2>&1 | cut -c1-400 | tail -${TAIL:-4}; echo "   -> $p rc=${PIPESTATUS[0]}"; done
find $wt /tmp/wtc/ev.$$ -delete 2>/dev/null
