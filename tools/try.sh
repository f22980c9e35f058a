#!/bin/bash
# try.sh SEED [PROP]: apply a planted bug to /repo, run its check, undo (development tool)
s=$1; d=/verif/seeded/$s; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
VERIF_SEED=${SEED:-1} VERIF_TIER=quick /verif/check $p > /tmp/try.$s.$p.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$s $p rc=$rc $(grep -c ^VIOLATION /tmp/try.$s.$p.out) $(grep -o 'no-failing-input-found' /tmp/try.$s.$p.out | head -1) :: $(grep -v KNOWN /tmp/try.$s.$p.out | head -2 | cut -c1-300 | tr '\n' ' ')"
