import sys
def sub(path, a, b, n=1):
    s=open(path,newline='').read()
    crlf='\r\n' in s
    if crlf:
        mixed = s.count('\n')!=s.count('\r\n')
        if mixed: print('mixed', path)
        a=a.replace('\n','\r\n'); b=b.replace('\n','\r\n')
    assert s.count(a)==n, (path, s.count(a), a)
    s=s.replace(a,b); open(path,'w',newline='').write(s)
