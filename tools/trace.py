import sys,re,os,glob
sys.path[:0]=['/verif/lib','/verif/rules']
from facts import *
from common import *
from report import Report
F=Facts(sorted([x for x in glob.glob('/verif/.cache/facts/*[0-9a-f][0-9a-f]-'+(__import__('os').environ.get('KIND','all'))+'')],key=os.path.getmtime)[-1])
r=Report('x')
def show(v):
    s=repr(v)
    s=s.replace("('init', (('L', 0, 1), ()))","SELF").replace("('D', SELF)","*SELF")
    s=re.sub(r"\('L', 0, (\d)\)",r"A\1",s)
    s=re.sub(r"\('f', '(\w+)'\)",r".\1",s)
    s=re.sub(r"\('@', (\d+), (\d+), ''\)",r"@\1.\2",s)
    return s
import argparse
ap=argparse.ArgumentParser(); ap.add_argument('re'); ap.add_argument('-o',default=''); ap.add_argument('-w',type=int,default=300); ap.add_argument('-s',action='store_true'); ap.add_argument('-t',action='store_true'); ap.add_argument('-k',default=None); ap.add_argument('-m',action='store_true')
a=ap.parse_args()
op=tuple(x for x in a.o.split(',') if x)
for f in F.fns.values():
    if re.search(a.re,f.name):
        print('##',f.name,f.loc)
        try: m=calls(F,r,f,keys=a.k.split(',') if a.k else None,opaque=op,stores=a.s,merge=a.m,seconds=20)
        except Exception as e: print('EXC',e); continue
        for v,st,e in m.rets:
            print('  RET',show({k:x for k,x in v.items()})[:a.w])
            print('  FACTS',show(e.facts)[:a.w])
            for c in st: print('     ',c.key,show(c.trees if a.t else c.args)[:a.w])
