# fails.sh PID UNIT [unwind] [extra cbmc args]
B=$(python3 /tmp/dbg.py $1 $2 $VCB|tail -1); echo $B; U=${3:-12}; shift 3
(time timeout ${T:-250} cbmc $B --no-malloc-may-fail --unwind $U --object-bits ${OB:-8} $@) 2>&1| grep "FAIL\|^\*\*\|real" | cut -c1-220| head -${N:-30}
