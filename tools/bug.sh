#!/bin/bash
# bug.sh ID [PROPS]: run the checks of PROPS (default: the change's own property) on a scratch copy with a planted change
d=/verif/seeded/$1
wt=/tmp/wtc/$1.$$
mkdir -p /tmp/wtc && cp -a /repo $wt && git -C $wt checkout -q -- . && git -C $wt apply $d/patch.diff || exit 9
P=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in ${P//,/ }; do
  s=$(date +%s)
  SYMX_REPO=$wt SYMX_EVIDENCE=/tmp/wtc/ev.$$ timeout 900 /verif/check $p > /tmp/wtc/$1.$p.log 2>&1; rc=$?
  echo "$1 $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/wtc/$1.$p.log | cut -c1-160) $(grep -c UNDECIDED /tmp/wtc/$1.$p.log) undecided"
done
find $wt /tmp/wtc/ev.$$ -delete 2>/dev/null
