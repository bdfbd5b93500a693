import sys,time
sys.path[:0]=['/verif/lib','/verif/rules']
sys.setrecursionlimit(20000)
import build
from facts import *
from report import Report
import importlib
mod,entry=sys.argv[1],sys.argv[2]
kind='all'
m=importlib.import_module(mod); kind=getattr(m,'KIND','all')
d,_,_=build.facts(kind)
F=Facts(d)
r=Report('x')
t=time.time()
getattr(m,entry)(F,r)
print(len(r.obligations),'ok',sum(1 for o in r.obligations if o[1]=='discharged'), time.time()-t)
for k,v in list(r.violations.items())[:int(sys.argv[3]) if len(sys.argv)>3 else 15]: print('V',k,v)
for u in r.undecided_[:15]: print('U',u)
print({k:v for k,v in r.counts.items()})
