# catch.sh SEEDID : apply, run its property's check, undo
d=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 2
cd /verif; ( time timeout 900 python3 vc.py check $P 2>&1 ) > /tmp/catch.$1.log 2>&1
git -C /repo checkout -- .
echo "$1 $P: $(grep -c ^VIOLATION /tmp/catch.$1.log) $(grep ^VIOLATION /tmp/catch.$1.log|head -3) $(grep real /tmp/catch.$1.log)"
