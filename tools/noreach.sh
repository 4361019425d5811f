# noreach.sh ENTRY unwind extra : all properties but reach, stop on fail
cd /tmp/dbg; P=$(cbmc ${B:-b.gb} --function $1 --show-properties --json-ui 2>/dev/null | python3 -c "
import json,sys
d=json.load(sys.stdin)
for i in d:
  for p in i.get('properties',[]):
    if 'reach:' not in p['description']: print('--property',p['name'])" | tr '\n' ' ')
(time timeout ${T:-300} cbmc ${B:-b.gb} --function $1 --unwind $2 --no-malloc-may-fail --object-bits 8 --stop-on-fail --trace $P ${@:3}) > /tmp/stop.out 2>&1; grep -A4 "^Violated" /tmp/stop.out; grep "VERIF\|real\|variables" /tmp/stop.out
