import sys
def ed(f, pairs):
    p='/repo/'+f; s=open(p,'rb').read().decode('latin-1'); crlf='\r\n' in s
    for a,b in pairs:
        if crlf: a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
        assert s.count(a)==1,(f,a,s.count(a))
        s=s.replace(a,b)
    open(p,'wb').write(s.encode('latin-1'))
