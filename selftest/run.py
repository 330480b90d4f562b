import sys,os,ast,shutil,time,traceback
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/selftest')
import refac
from refac import *
from sa.compare import *
from sa import world as W
from sa.rules import RULES
import sa.world
SPEC=World('/verif/spec')
kinds=sys.argv[1].split(',') if len(sys.argv)>1 and sys.argv[1]!='all' else list(RW)
only=sys.argv[2:] 
P0=Pair('/repo','/verif/spec')
def funcs():
    for q,f in sorted(SPEC.fns.items()):
        if only and not any(o in q for o in only): continue
        yield q,f
bad={};tot=0;t0=time.time()
class RepoWorld(World): pass
import builtins
_open=builtins.open
def compare_src(path,src,quals):
    # world with one replaced file
    def op(p,*a,**k):
        if os.path.abspath(str(p))==path:
            import io; return io.StringIO(src)
        return _open(p,*a,**k)
    builtins.open=op
    try: w=World('/repo')
    finally: builtins.open=_open
    P=Pair.__new__(Pair); P.spec=P0.spec; P.repo=w; w.follow(P.spec); w.other=P.spec; P.inv=P0.inv; P.spent=0
    P.memo={k:v for k,v in P0.memo.items() if k[0]=='spec'}
    out=[]
    for q in quals:
        obs={(o.exact,tuple(o.facets)):o for os_ in RULES.values() for o in os_ if o.qual==q}
        r=P.compare(q)
        if r[0]=='equal':
            for o in obs.values():
                r=P.obligation(o)
                if r[0]!='equal': break
        out.append((q,)+tuple(r))
    P0.memo.update({k:v for k,v in P.memo.items() if k[0]=='spec'})
    return out
# callers: functions that inline private

def rjob(q):
    f=SPEC.fns[q]; res=[]; tot=0
    m=f.module; rel=os.path.relpath(m.path,'/verif/spec'); qual=q[len(m.name)+1:]
    for kd in kinds:
        k=0
        while True:
            try: src=apply('/repo',None,rel,qual,kd,k)
            except Exception as e:
                res.append((kd,q,k,'REFACFAIL '+repr(e),'')); break
            if src is None: break
            tot+=1
            try:
                compile(src,'x','exec')
                for r in compare_src('/repo/'+rel,src,[q]):
                    if r[1]!='equal':
                        t=''
                        if os.environ.get('V'):
                            t='\n'.join(f'   {fct}\n      R {str(x)[:2500]}\n      S {str(y)[:2500]}' for fct,x,y in r[2][:3])
                        res.append((kd,q,k,r[1],t))
            except Exception as e:
                tb=traceback.extract_tb(e.__traceback__)[-1]
                res.append((kd,q,k,'CRASH %s %s %s %s'%(type(e).__name__,str(e)[:100],tb.name,tb.lineno),''))
            k+=1
    return tot,res
if __name__=='__main__':
  import multiprocessing as mp
  with mp.Pool(8,maxtasksperchild=1) as p:
    for n,res in p.imap_unordered(rjob,[q for q,_ in funcs()],1):
      tot+=n
      for kd,q,k,st,t in res:
        bad.setdefault(kd,[]).append((q,k,st))
        if t: print(kd,k,q,st); print(t)
  print(tot,'rewrites','%.0fs'%(time.time()-t0))
  for kd,l in bad.items():
    print(kd,len(l)); 
    for x in l[:40]: print('    ',x)
