import sys,os,ast,copy,traceback,time
sys.path.insert(0,'/verif/selftest')
from run import *
def muts(fn):
    for n in ast.walk(fn):
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            M={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.In:ast.NotIn,ast.NotIn:ast.In,ast.Is:ast.IsNot,ast.IsNot:ast.Is}
            t=type(n.ops[0])
            if t in M:
                def go(n=n,t=t,M=M): n.ops=[M[t]()]
                yield 'cmp '+ast.unparse(n),go
        if isinstance(n,ast.BoolOp):
            def go(n=n): n.op=ast.Or() if isinstance(n.op,ast.And) else ast.And()
            yield 'bool '+ast.unparse(n),go
            for i in range(len(n.values)):
                def go(n=n,i=i):
                    n.values=[v for j,v in enumerate(n.values) if j!=i]
                    if len(n.values)==1: n.values=n.values*2
                yield f'dropclause{i} '+ast.unparse(n),go
        if isinstance(n,ast.BinOp):
            M={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Add,ast.Div:ast.Mult,ast.FloorDiv:ast.Div,ast.Mod:ast.FloorDiv}
            if type(n.op) in M:
                def go(n=n,M=M): n.op=M[type(n.op)]()
                yield 'bin '+ast.unparse(n),go
        if isinstance(n,ast.Constant) and isinstance(n.value,bool):
            def go(n=n): n.value=not n.value
            yield f'const {n.value}@{n.lineno}',go
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)):
            def go(n=n): n.value=n.value+1
            yield f'const {n.value}@{n.lineno}',go
        elif isinstance(n,ast.Constant) and isinstance(n.value,str) and not getattr(n,'doc',0):
            def go(n=n): n.value=n.value+'X'
            yield f'str {n.value!r:.30}@{n.lineno}',go
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            def go(n=n):
                n.op=ast.Not(); n.operand=ast.UnaryOp(ast.Not(),n.operand)
            yield 'not '+ast.unparse(n),go
        if isinstance(n,ast.Call) and n.keywords:
            for i,k in enumerate(n.keywords):
                def go(n=n,i=i): del n.keywords[i]
                yield f'dropkw {k.arg} '+ast.unparse(n)[:60],go
        if isinstance(n,ast.If):
            def go(n=n): n.test=ast.Constant(True)
            yield 'iftrue '+ast.unparse(n.test)[:60],go
            def go(n=n): n.test=ast.Constant(False)
            yield 'iffalse '+ast.unparse(n.test)[:60],go
        if isinstance(n,ast.comprehension) and n.ifs:
            def go(n=n): n.ifs=[]
            yield 'dropif '+ast.unparse(n),go
        if isinstance(n,ast.AugAssign):
            def go(n=n): n.op=ast.Sub() if isinstance(n.op,ast.Add) else ast.Add()
            yield 'aug '+ast.unparse(n),go
        for f in ('body','orelse','finalbody'):
            b=getattr(n,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt):
                for i,s in enumerate(b):
                    if isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant): continue
                    def go(b=b,i=i): b[i]=ast.Pass()
                    yield f'del@{s.lineno} '+ast.unparse(s).split('\n')[0][:70],go
def relevant(d):
    return not any(x in d for x in ('log.','tqdm','resource','assert','help','description','set_postfix'))

def job(q):
    f=SPEC.fns[q]; out=[]; tot=0
    m=f.module; rel=os.path.relpath(m.path,'/verif/spec'); qual=q[len(m.name)+1:]
    src0=open('/repo/'+rel).read()
    i=0
    while True:
        tree=ast.parse(src0); fn=find(tree,qual)
        if fn.body and isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant): fn.body[0].value.doc=1
        ms=list(muts(fn))
        if i>=len(ms): break
        d,go=ms[i]; i+=1
        go(); ast.fix_missing_locations(tree)
        try:
            src=ast.unparse(tree); compile(src,'x','exec')
        except Exception: continue
        if not relevant(d): continue
        tot+=1
        try:
            r=compare_src('/repo/'+rel,src,[q])[0]
            if r[1]=='equal': out.append(('MISS',q,d))
            elif r[1]=='undecided': out.append(('UNDEC',q,d,str(r[2])[:200]))
        except Exception as e:
            tb=traceback.extract_tb(e.__traceback__)[-1]
            out.append(('CRASH',q,d,type(e).__name__,str(e)[:100],tb.name,tb.lineno))
    return tot,out
if __name__=='__main__':
  import multiprocessing as mp
  t0=time.time(); tot=0; from collections import Counter; c=Counter()
  qs=[q for q in sorted(SPEC.fns) if not sys.argv[2:] or any(o in q for o in sys.argv[2:])]
  with mp.Pool(8,maxtasksperchild=1) as p:
    for n,out in p.imap_unordered(job,qs,1):
      tot+=n
      for o in out: print(*o); c[o[0]]+=1
  print(tot,'mutants',dict(c),'%.0fs'%(time.time()-t0))
