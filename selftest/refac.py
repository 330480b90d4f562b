"""behaviour preserving AST rewrites, each applied at every place in turn"""
import ast, copy, sys, os, shutil
class Fresh:
    n=0
def fresh(p='zz'):
    Fresh.n+=1; return f'{p}{Fresh.n}'
def N(id,ctx=None): return ast.Name(id=id,ctx=ctx or ast.Load())
def S(id): return ast.Name(id=id,ctx=ast.Store())

def bodies(fn):
    """all statement lists in fn"""
    for n in ast.walk(fn):
        for f in ('body','orelse','finalbody'):
            b=getattr(n,f,None)
            if isinstance(b,list) and b and isinstance(b[0],ast.stmt): yield b
        
def rw_if_invert(fn):
    for n in ast.walk(fn):
        if isinstance(n,ast.If) and n.orelse:
            def go(n=n):
                n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
            yield go
def rw_ternary_invert(fn):
    for n in ast.walk(fn):
        if isinstance(n,ast.IfExp):
            def go(n=n):
                n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
            yield go
def rw_cmp_flip(fn):
    M={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
    for n in ast.walk(fn):
        if isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in M:
            def go(n=n):
                n.left,n.comparators=n.comparators[0],[n.left]; n.ops=[M[type(n.ops[0])]()]
            yield go
def rw_augassign(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.AugAssign) and isinstance(s.target,ast.Name):
                def go(b=b,i=i,s=s):
                    b[i]=ast.Assign([s.target],ast.BinOp(N(s.target.id),s.op,s.value),lineno=1)
                # lists would be rebound, only for numbers / strings
                if not isinstance(s.value,(ast.List,ast.Call,ast.ListComp)): yield go
            elif isinstance(s,ast.AugAssign):
                def go(b=b,i=i,s=s):
                    t=copy.deepcopy(s.target)
                    t.ctx=ast.Load()
                    b[i]=ast.Assign([s.target],ast.BinOp(t,s.op,s.value),lineno=1)
                yield go
def rw_comp_to_loop(fn):
    """x = [e for t in it if c]  ->  loop with append (only as a whole assignment or return)"""
    for b in bodies(fn):
        for i,s in enumerate(b):
            v=getattr(s,'value',None) if isinstance(s,(ast.Assign,ast.Return)) else None
            if isinstance(v,ast.Call) and isinstance(v.func,ast.Name) and v.func.id in('list',) and len(v.args)==1 and isinstance(v.args[0],ast.GeneratorExp): v=v.args[0]
            if isinstance(v,(ast.ListComp,)) or (isinstance(v,ast.GeneratorExp) and v is not s.value):
                def go(b=b,i=i,s=s,v=v):
                    r=fresh('acc')
                    ins=ast.Expr(ast.Call(ast.Attribute(N(r),'append',ast.Load()),[v.elt],[]))
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs): ins=ast.If(c,[ins],[])
                        ins=ast.For(g.target,g.iter,[ins],[],lineno=1)
                    s2=copy.copy(s); s2.value=N(r)
                    b[i:i+1]=[ast.Assign([S(r)],ast.List([],ast.Load()),lineno=1),ins,s2]
                yield go
            if isinstance(v,ast.DictComp):
                def go(b=b,i=i,s=s,v=v):
                    r=fresh('acc')
                    ins=ast.Assign([ast.Subscript(N(r),v.key,ast.Store())],v.value,lineno=1)
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs): ins=ast.If(c,[ins],[])
                        ins=ast.For(g.target,g.iter,[ins],[],lineno=1)
                    s2=copy.copy(s); s2.value=N(r)
                    b[i:i+1]=[ast.Assign([S(r)],ast.Dict([],[]),lineno=1),ins,s2]
                yield go
def rw_loop_to_comp(fn):
    for b in bodies(fn):
        for i,s in enumerate(b[:-1]):
            f=b[i+1]
            if isinstance(s,ast.Assign) and isinstance(s.value,ast.List) and not s.value.elts and isinstance(f,ast.For) and not f.orelse:
                ins=f.body; conds=[]
                while len(ins)==1 and isinstance(ins[0],ast.If) and not ins[0].orelse: conds.append(ins[0].test); ins=ins[0].body
                if len(ins)==1 and isinstance(ins[0],ast.Expr) and isinstance(ins[0].value,ast.Call) and isinstance(ins[0].value.func,ast.Attribute) and ins[0].value.func.attr=='append' and ast.unparse(ins[0].value.func.value)==ast.unparse(s.targets[0]):
                    def go(b=b,i=i,s=s,f=f,e=ins[0].value.args[0],conds=conds):
                        b[i:i+2]=[ast.Assign(s.targets,ast.ListComp(e,[ast.comprehension(f.target,f.iter,conds,0)]),lineno=1)]
                    yield go
def rw_ret_var(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,(ast.Name,ast.Constant)):
                def go(b=b,i=i,s=s):
                    r=fresh('res'); b[i:i+1]=[ast.Assign([S(r)],s.value,lineno=1),ast.Return(N(r))]
                yield go
def rw_else_after_return(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Continue,ast.Break)):
                def go(b=b,i=i,s=s):
                    rest=s.orelse; s.orelse=[]; b[i+1:i+1]=rest
                yield go
            if isinstance(s,ast.If) and not s.orelse and isinstance(s.body[-1],(ast.Return,ast.Raise,ast.Continue,ast.Break)) and b[i+1:]:
                def go(b=b,i=i,s=s):
                    s.orelse=b[i+1:]; del b[i+1:]
                yield go
def rw_cond_var(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If):
                def go(b=b,i=i,s=s):
                    r=fresh('ok'); t=s.test; s.test=N(r); b[i:i]=[ast.Assign([S(r)],t,lineno=1)]
                yield go
def rw_arg_var(fn):
    """extract a call argument of a simple statement"""
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,(ast.Assign,ast.Expr,ast.Return,ast.AugAssign)) and s.value is not None:
                v=s.value
                if isinstance(v,ast.Call) and isinstance(v.func,(ast.Name,ast.Attribute)):
                    for j,a in enumerate(v.args):
                        if not isinstance(a,(ast.Name,ast.Constant,ast.Starred)) and j==0 and not any(isinstance(x,(ast.Yield,ast.Await,ast.NamedExpr)) for x in ast.walk(a)):
                            def go(b=b,i=i,v=v,j=j,a=a):
                                r=fresh('arg'); v.args[j]=N(r); b[i:i]=[ast.Assign([S(r)],a,lineno=1)]
                            yield go
def rw_enumerate(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.For) and isinstance(s.iter,ast.Call) and isinstance(s.iter.func,ast.Name) and s.iter.func.id=='enumerate' and len(s.iter.args)==1 and isinstance(s.target,ast.Tuple) and not any(isinstance(x,ast.Continue) for y in s.body for x in ast.walk(y)):
                def go(b=b,i=i,s=s):
                    t=s.target.elts[0]; k=fresh('cnt')
                    s.iter=s.iter.args[0]; s.target=s.target.elts[1]
                    s.body=[ast.Assign([t],N(k),lineno=1)]+s.body+[ast.AugAssign(S(k),ast.Add(),ast.Constant(1))]
                    b[i:i]=[ast.Assign([S(k)],ast.Constant(0),lineno=1)]
                yield go
def rw_for_index(fn):
    """for x in xs (a Name, list) -> for i in range(len(xs)): x = xs[i]"""
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.For) and isinstance(s.iter,(ast.Name,ast.Attribute)) and (isinstance(s.iter,ast.Attribute) or s.iter.id in LISTS.get(fn.name,())):
                def go(s=s):
                    k=fresh('ix'); it=s.iter
                    s.body=[ast.Assign([s.target],ast.Subscript(it,N(k),ast.Load()),lineno=1)]+s.body
                    s.target=S(k); s.iter=ast.Call(N('range'),[ast.Call(N('len'),[it],[])],[])
                if isinstance(s.iter,ast.Name): yield go
LISTS={}
def rw_fstring(fn):
    for n in ast.walk(fn):
        for f,v in ast.iter_fields(n):
            if isinstance(v,ast.JoinedStr) and not any(isinstance(x,ast.FormattedValue) and (x.format_spec or x.conversion!=-1) for x in v.values) and not isinstance(n,(ast.Assert,ast.FormattedValue)):
                def go(n=n,f=f,v=v):
                    fmt=''; args=[]
                    for x in v.values:
                        if isinstance(x,ast.Constant): fmt+=x.value.replace('{','{{').replace('}','}}')
                        else: fmt+='{}'; args.append(x.value)
                    setattr(n,f,ast.Call(ast.Attribute(ast.Constant(fmt),'format',ast.Load()),args,[]))
                yield go
            if isinstance(v,list):
                for j,x in enumerate(v):
                    if isinstance(x,ast.JoinedStr) and isinstance(n,ast.Call):
                        if any(isinstance(y,ast.FormattedValue) and (y.format_spec or y.conversion!=-1) for y in x.values): continue
                        def go(v=v,j=j,x=x):
                            r=None
                            for y in x.values:
                                t=y if isinstance(y,ast.Constant) else ast.Call(N('str'),[y.value],[])
                                r=t if r is None else ast.BinOp(r,ast.Add(),t)
                            v[j]=r
                        yield go
def rw_extract_method(fn):
    """the whole body moves to a new helper (method or function)"""
    def go():
        fn._extract=True
    yield go
def rw_demorgan(fn):
    for n in ast.walk(fn):
        if isinstance(n,(ast.If,ast.While,ast.IfExp)) and isinstance(n.test,ast.BoolOp):
            def go(n=n):
                t=n.test
                n.test=ast.UnaryOp(ast.Not(),ast.BoolOp(ast.Or() if isinstance(t.op,ast.And) else ast.And(),[ast.UnaryOp(ast.Not(),v) for v in t.values]))
            yield go
def rw_nest_and(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.If) and isinstance(s.test,ast.BoolOp) and isinstance(s.test.op,ast.And) and not s.orelse:
                def go(s=s):
                    vs=s.test.values; s.body=[ast.If(vs[-1] if len(vs)==2 else ast.BoolOp(ast.And(),vs[1:]),s.body,[])]; s.test=vs[0]
                yield go
def rw_swap_assign(fn):
    """swap adjacent independent simple assignments of names"""
    def pure(e): return not any(isinstance(x,(ast.Call,ast.Yield,ast.Await,ast.NamedExpr)) for x in ast.walk(e))
    def names(e): return {x.id for x in ast.walk(e) if isinstance(x,ast.Name)}
    for b in bodies(fn):
        for i in range(len(b)-1):
            s,t=b[i],b[i+1]
            if all(isinstance(x,ast.Assign) and len(x.targets)==1 and isinstance(x.targets[0],(ast.Name,ast.Attribute)) for x in (s,t)) and (pure(s.value) or pure(t.value)):
                a,c=ast.unparse(s.targets[0]),ast.unparse(t.targets[0])
                sa,ta=ast.unparse(s.value),ast.unparse(t.value)
                if a!=c and a not in ta and c not in sa and a not in c and c not in a:
                    def go(b=b,i=i): b[i],b[i+1]=b[i+1],b[i]
                    yield go
def rw_unpack(fn):
    """a, b = x -> a = x[0]; b = x[1]   (x a name)"""
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.Assign) and isinstance(s.targets[0],ast.Tuple) and isinstance(s.value,ast.Tuple) and len(s.value.elts)==len(s.targets[0].elts):
                ns={ast.unparse(t) for t in s.targets[0].elts}
                if any(n in ast.unparse(s.value) for n in ns): continue
                def go(b=b,i=i,s=s):
                    b[i:i+1]=[ast.Assign([t],v,lineno=1) for t,v in zip(s.targets[0].elts,s.value.elts)]
                yield go
def rw_tern_to_if(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.Assign) and isinstance(s.value,ast.IfExp):
                def go(b=b,i=i,s=s):
                    e=s.value
                    b[i]=ast.If(e.test,[ast.Assign(s.targets,e.body,lineno=1)],[ast.Assign(copy.deepcopy(s.targets),e.orelse,lineno=1)])
                yield go
            if isinstance(s,ast.Return) and isinstance(s.value,ast.IfExp):
                def go(b=b,i=i,s=s):
                    e=s.value
                    b[i:i+1]=[ast.If(e.test,[ast.Return(e.body)],[]),ast.Return(e.orelse)]
                yield go
def rw_while_true(fn):
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.While) and not (isinstance(s.test,ast.Constant)):
                def go(s=s):
                    s.body=[ast.If(ast.UnaryOp(ast.Not(),s.test),[ast.Break()],[])]+s.body; s.test=ast.Constant(True)
                yield go
def rw_early_continue(fn):
    for n in ast.walk(fn):
        if isinstance(n,(ast.For,)) and len(n.body)>=1 and isinstance(n.body[-1],ast.If) and not n.body[-1].orelse:
            def go(n=n):
                s=n.body[-1]
                n.body[-1:]=[ast.If(ast.UnaryOp(ast.Not(),s.test),[ast.Continue()],[])]+s.body
            yield go
def rw_local_alias(fn):
    """self.attr read only inside loops: cache in a local when never assigned in fn"""
    writes={ast.unparse(t) for n in ast.walk(fn) if isinstance(n,(ast.Assign,ast.AugAssign,ast.AnnAssign)) for t in (n.targets if isinstance(n,ast.Assign) else [n.target])}
    seen=set()
    for n in ast.walk(fn):
        if isinstance(n,ast.Attribute) and isinstance(n.value,ast.Name) and n.value.id=='self' and isinstance(n.ctx,ast.Load):
            u=ast.unparse(n)
            if u in writes or u in seen: continue
            seen.add(u)
            calls=[c for c in ast.walk(fn) if isinstance(c,ast.Call) and isinstance(c.func,ast.Attribute) and ast.unparse(c.func.value)=='self']
            if calls or fn.name=='__init__': continue
            def go(u=u):
                r=fresh('loc')
                class V(ast.NodeTransformer):
                    def visit_Attribute(self,m):
                        if ast.unparse(m)==u and isinstance(m.ctx,ast.Load): return N(r)
                        return self.generic_visit(m)
                for k,s in enumerate(fn.body): fn.body[k]=V().visit(s)
                d=1 if isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant) else 0
                fn.body[d:d]=[ast.Assign([S(r)],ast.parse(u,mode='eval').body,lineno=1)]
            yield go
def rw_extract_block(fn):
    """the body of a for loop moves into a nested closure-free helper when it has no exits and assigns nothing used outside"""
    return
    yield
def rw_extract_expr(fn):
    """an expression moves to a module level helper taking its free names"""
    seen=0
    for n in ast.walk(fn):
        if isinstance(n,(ast.If,)) and isinstance(n.test,(ast.Compare,ast.BoolOp)):
            if any(isinstance(x,(ast.Lambda,ast.Yield,ast.GeneratorExp,ast.ListComp,ast.NamedExpr)) for x in ast.walk(n.test)): continue
            def go(n=n):
                fn._helper=('test',n)
            yield go
        if isinstance(n,(ast.Assign,ast.Return)) and n.value is not None and isinstance(n.value,(ast.Call,ast.BinOp,ast.IfExp,ast.ListComp)) and not any(isinstance(x,(ast.Lambda,ast.Yield,ast.NamedExpr)) or (isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id=='super') for x in ast.walk(n.value)):
            def go(n=n):
                fn._helper=('value',n)
            yield go
def rw_call_kw(fn):
    return
    yield
def rw_list_ctor(fn):
    for n in ast.walk(fn):
        for f,v in ast.iter_fields(n):
            if isinstance(v,ast.List) and not v.elts and isinstance(v.ctx,ast.Load):
                def go(n=n,f=f): setattr(n,f,ast.Call(N('list'),[],[]))
                yield go
            if isinstance(v,ast.Dict) and not v.keys:
                def go(n=n,f=f): setattr(n,f,ast.Call(N('dict'),[],[]))
                yield go
            if isinstance(v,ast.Call) and isinstance(v.func,ast.Name) and v.func.id=='list' and len(v.args)==1 and not isinstance(v.args[0],ast.GeneratorExp):
                def go(n=n,f=f,v=v):
                    x=fresh('e'); setattr(n,f,ast.ListComp(N(x),[ast.comprehension(S(x),v.args[0],[],0)]))
                yield go
def rw_with_open(fn):
    """with open(..) as f: body  ->  f = open(..); try: body finally: f.close()"""
    for b in bodies(fn):
        for i,s in enumerate(b):
            if isinstance(s,ast.With) and len(s.items)==1 and isinstance(s.items[0].context_expr,ast.Call) and isinstance(s.items[0].optional_vars,ast.Name):
                t=ast.unparse(s.items[0].context_expr)
                if t.startswith('open(') or '.open(' in t or t.startswith('IO.'):
                    def go(b=b,i=i,s=s):
                        it=s.items[0]
                        b[i:i+1]=[ast.Assign([it.optional_vars],it.context_expr,lineno=1),ast.Try(s.body,[],[],[ast.Expr(ast.Call(ast.Attribute(N(it.optional_vars.id),'close',ast.Load()),[],[]))])]
                    yield go
def rw_noop(fn):
    for b in list(bodies(fn)):
        def go(b=b): b.insert(0 if not (isinstance(b[0],ast.Expr) and isinstance(b[0].value,ast.Constant)) else 1, ast.Pass())
        yield go
        def go2(b=b): b.insert(0 if not (isinstance(b[0],ast.Expr) and isinstance(b[0].value,ast.Constant)) else 1, ast.Assign([S(fresh('unused'))],ast.Constant(0),lineno=1))
        yield go2
        break
def rw_bool_len(fn):
    """if x: -> if len(x) > 0 (x a known container name)"""
    return
    yield
def rw_guard_empty(fn):
    return
    yield
RW={k[3:]:v for k,v in list(globals().items()) if k.startswith('rw_')}

def parents_cls(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n): c._p=n

def apply(root, outdir, mod, qual, kind, k):
    """write the k-th rewrite of `kind` in function qual of module file; returns False when there is none"""
    p=os.path.join(root,mod)
    tree=ast.parse(open(p).read()); parents_cls(tree)
    fn=find(tree,qual)
    gos=list(RW[kind](fn))
    if k>=len(gos): return None
    gos[k]()
    if getattr(fn,'_extract',False): extract(tree,fn)
    if getattr(fn,'_helper',None): helper(tree,fn)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)
def find(tree,qual):
    cur=tree
    for part in qual.split('.'):
        for n in cur.body:
            for m in ([n] if not isinstance(n,(ast.If,ast.Try)) else n.body):
                if isinstance(m,(ast.FunctionDef,ast.ClassDef)) and m.name==part: cur=m; break
            else: continue
            break
        else: raise KeyError(qual)
    return cur
def extract(tree,fn):
    h=copy.copy(fn); h.name='_'+fn.name.strip('_')+'_impl'; h.body=fn.body; h.args=copy.deepcopy(fn.args); 
    if any(isinstance(d,ast.Attribute) for d in fn.decorator_list): return
    a=fn.args
    pos=[x.arg for x in a.posonlyargs+a.args]
    ismeth=isinstance(fn._p,ast.ClassDef)
    deco=[d.id for d in fn.decorator_list if isinstance(d,ast.Name)]
    args=[N(x) for x in pos]
    kws=[ast.keyword(x.arg,N(x.arg)) for x in a.kwonlyargs]
    if a.vararg: args.append(ast.Starred(N(a.vararg.arg),ast.Load()))
    if a.kwarg: kws.append(ast.keyword(None,N(a.kwarg.arg)))
    if ismeth and 'staticmethod' not in deco:
        f=ast.Attribute(args[0],h.name,ast.Load()); args=args[1:]
    elif ismeth: 
        f=ast.Attribute(N(fn._p.name),h.name,ast.Load())
    else: f=N(h.name)
    h.decorator_list=[N(d) for d in deco if d in('classmethod','staticmethod')]
    isgen=any(isinstance(x,(ast.Yield,ast.YieldFrom)) for x in ast.walk(ast.Module(fn.body,[])))
    call=ast.Call(f,args,kws)
    fn.body=[ast.Expr(ast.YieldFrom(call))] if isgen else [ast.Return(call)]
    b=fn._p.body
    for q in (fn._p.body,):
        if fn in q: q.insert(q.index(fn)+1,h)
def helper(tree,fn):
    f,n=fn._helper
    e=getattr(n,f)
    import builtins
    modn={x.name for x in tree.body if isinstance(x,(ast.FunctionDef,ast.ClassDef))}|{a.asname or a.name.split('.')[0] for x in ast.walk(tree) if isinstance(x,(ast.Import,ast.ImportFrom)) for a in x.names}|{t.id for x in tree.body if isinstance(x,ast.Assign) for t in x.targets if isinstance(t,ast.Name)}
    bound={x.id for c in ast.walk(e) if isinstance(c,ast.comprehension) for x in ast.walk(c.target) if isinstance(x,ast.Name)}
    loc={x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{a.arg for a in fn.args.args+fn.args.kwonlyargs}
    if fn.args.vararg: loc.add(fn.args.vararg.arg)
    if fn.args.kwarg: loc.add(fn.args.kwarg.arg)
    free=[]
    for x in ast.walk(e):
        if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Load) and x.id not in bound and (x.id in loc) and x.id not in free: free.append(x.id)
    name=fresh('_hlp')
    h=ast.FunctionDef(name,ast.arguments([],[ast.arg(a) for a in free],None,[],[],None,[]),[ast.Return(e)],[],lineno=1)
    # private names inside a class would be mangled only with double underscore
    setattr(n,f,ast.Call(N(name),[N(a) for a in free],[]))
    top=fn
    while not isinstance(top._p,ast.Module): top=top._p
    tree.body.insert(tree.body.index(top),h)
