cd /verif
for s in "$@"; do git -C /repo apply /verif/seeded/$s/patch.diff || continue; P=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])"); timeout 800 python3-vt check.py $P > /tmp/try_$s.log 2>&1; rc=$?; tail -3 /tmp/try_$s.log|cut -c1-300; grep VIOL /tmp/try_$s.log; echo "$s rc=$rc"; git -C /repo checkout -- .; done
