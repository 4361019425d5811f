# try.sh PID [args]
cd /verif && VC_VERBOSE=1 timeout 1500 python3 vc.py check "$@" 2>&1 | cut -c1-900
