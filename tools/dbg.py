import sys; sys.path[:0]=['/verif/lib','/verif/props']; sys.dont_write_bytecode=True
import importlib, vclib, os
pid,un=sys.argv[1:3]
u=[u for u in importlib.import_module(pid.lower()).UNITS if u.name==un][0]
os.makedirs('/tmp/dbg',exist_ok=True)
bounded='-b' in sys.argv
try:
    defs=list(u.bound.get("defs",[])) if bounded else (["VC_PROOF"] if u.kind=="proof" else [])
    print(vclib.compile_cbmc(u,'/tmp/dbg',defs,not bounded))
except Exception as e: print(e)
