# stop.sh ENTRY unwind extra: first failing property in /tmp/dbg/b.gb
cd /tmp/dbg; timeout ${T:-200} cbmc ${B:-b.gb} --function $1 --unwind $2 --no-malloc-may-fail --object-bits 8 --stop-on-fail --trace ${@:3} > /tmp/stop.out 2>&1; grep -A4 "^Violated" /tmp/stop.out; tail -1 /tmp/stop.out
