"""mkseed(id, prop, edits, demo, needs, breaks, extra={}): make, confirm and store a seeded bug."""
import os, subprocess, json, shutil
HEAD='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
S=$PWD/_build/spasm
T=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$T"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
asm() { (cd "$T" && timeout 20 "$S" -N "$@") > "$T/log" 2>&1; }
hex() { od -An -v -tx1 "$T/$1" 2>/dev/null | tr -d ' \\n'; }
want() { local h; h=$(hex "$1"); if [ "$h" != "$2" ]; then echo "$1: got $h, want $2"; exit 1; fi; }
'''
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def mkseed(id, prop, edits, demo, needs, breaks, extra={}):
    assert run("git -C /repo status --porcelain").stdout==b""
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p,'rb').read().decode('latin-1')
            if '\r\n' in s: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
            assert s.count(a)==1,(f,a,s.count(a))
            open(p,'wb').write(s.replace(a,b).encode('latin-1'))
        diff=run("git -C /repo diff --binary").stdout
        open(d+'/patch.diff','wb').write(diff)
        open(d+'/demo.sh','w').write(HEAD+demo+'\nexit 0\n'); os.chmod(d+'/demo.sh',0o755)
        for k,v in extra.items(): open(d+'/'+k,'w').write(v)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        o=run("bash /opt/vp/test.sh /tmp/o.json").stdout.decode()
        n=o.count("\nPASS")+o.startswith("PASS")
        r=run("bash %s/demo.sh"%d,cwd='/repo'); 
        print(id,"tests",n,"fail" if "FAIL" in o else "", "demo-with",r.returncode,r.stdout.decode()[-200:].strip())
        bad = n!=15 or r.returncode==0
    finally:
        run("git -C /repo checkout -- .")
    run("bash /opt/vp/build.sh")
    r=run("bash %s/demo.sh"%d,cwd='/repo')
    print("   demo-without",r.returncode,r.stdout.decode()[-200:].strip())
    if bad or r.returncode: print("   *** NOT KEPT"); shutil.rmtree(d)
