"""mut.py PID file <<< blocks: 'old ==> new' separated by lines '---'. Runs the check on a copy with each mutation."""
import sys, subprocess, shutil, os, concurrent.futures as cf
pid, f = sys.argv[1:3]; units = sys.argv[3:]
muts=[m.split('==>') for m in sys.stdin.read().split('\n---\n')]
def one(k):
    a,b=muts[k]; a=a.strip('\n'); b=b.strip('\n')
    if a.startswith(' ') and a.endswith(' ') : pass
    a=a.rstrip(' '); b=b.lstrip(' ')
    d='/tmp/mr%s%d'%(pid,k); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run("cp /repo/*.cpp /repo/*.h %s/"%d,shell=True)
    p=d+'/'+f; s=open(p,'rb').read().decode('latin-1')
    if '\r\n' in s: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
    if s.count(a)!=1: return k,'COUNT %d %r'%(s.count(a),a)
    open(p,'wb').write(s.replace(a,b).encode('latin-1'))
    # own copy of /verif so evidence does not clash
    v=d+'/v'; os.makedirs(v); subprocess.run("cp -r /verif/lib /verif/props /verif/harness /verif/vc.py /verif/known_findings.json %s/"%v,shell=True)
    r=subprocess.run(["timeout","700","python3","vc.py","check",pid]+sum((["--unit",u] for u in units),[]),cwd=v,env=dict(os.environ,VC_REPO=d,VC_JOBS="3"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT).stdout.decode()
    shutil.rmtree(d)
    lines=[l for l in r.split('\n') if 'VIOLATION' in l or 'violated ' in l or 'undecided' in l or 'failed:' in l]
    return k,'\n      '.join(l[:230] for l in lines[:5]) or '*** SURVIVED'
with cf.ThreadPoolExecutor(3) as ex:
    for k,o in ex.map(one,range(len(muts))):
        print(k, muts[k][0].strip()[:60].replace('\n',' '),'==>',muts[k][1].strip()[:60].replace('\n',' '),'\n     ',o)
