import re,sys
p='/verif/tools/properties_src.py'
def rep(pid,new):
    s=open(p).read()
    i=s.index('prop("%s",'%pid); j=s.index('\n',i)
    k=s.index('"',j)+1; e=s.index('",\n',k)
    s=s[:k]+new+s[e:]
    open(p,'w').write(s)
def title(pid,new):
    s=open(p).read()
    i=s.index('prop("%s",'%pid); k=s.index('"',i+10)+1; e=s.index('"',k)
    s=s[:k]+new+s[e:]; open(p,'w').write(s)
def tech(pid,a,b):
    import json
    f='/verif/tools/techniques.json'; t=json.load(open(f)); t[pid]=[a,b]; json.dump(t,open(f,'w'),indent=0)
