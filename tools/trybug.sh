#!/bin/bash
# trybug.sh ID [-noproof]: applies a planted change to /repo, runs its property's check, undoes it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || exit 9
if [ "$2" = -noproof ]; then bash /verif/run.sh replay $P > /tmp/trybug.$1.log 2>&1; else bash /verif/run.sh check $P quick > /tmp/trybug.$1.log 2>&1; fi
rc=$?
git -C /repo apply -R $D/patch.diff
echo "$1 $P rc=$rc $(grep -c VIOLATION /tmp/trybug.$1.log) alarms: $(grep VIOLATION /tmp/trybug.$1.log | head -3)"
