# usage: fix.sh "message"
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
n=$(bash /tmp/t.sh | head -1); echo "pass=$n"
[ "$n" = 15 ] && git commit -qam "$1" && git log --oneline | head -1; git status --short
