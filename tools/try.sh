#!/bin/bash
# applies a planted change, runs its property's check, undoes it
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); git -C /repo apply /verif/seeded/$id/patch.diff || continue; out=$(timeout 900 python3 /verif/vpcheck.py check $p quick 2>&1); rc=$?; git -C /repo checkout -- .; echo "$id $p exit $rc $(echo "$out" | grep -v '^  unit\|^C[0-9]' | head -${N:-2})"; [ $rc = 1 ] || echo "$out" | tail -8; done
