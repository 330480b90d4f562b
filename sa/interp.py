"""Gated value numbering of functions.

One pass over the syntax tree of a function computes, for every variable, container and output stream, a term that says how its
value is computed.  Branches are joined with decision diagrams, loops are closed into binder terms (no path is enumerated and
nothing is executed), helpers are inlined.  Logging, timing and progress bars number to nothing.
"""
from __future__ import annotations
import ast
from .terms import *
from .world import *
from . import libsigs

RAISE = object()      # a block that ends by raising on every way through
DEPTH = 9
OPERATORS = {'add': 'lambda a, b: a + b', 'sub': 'lambda a, b: a - b', 'mul': 'lambda a, b: a * b', 'truediv': 'lambda a, b: a / b',
             'eq': 'lambda a, b: a == b', 'ne': 'lambda a, b: a != b', 'lt': 'lambda a, b: a < b', 'le': 'lambda a, b: a <= b',
             'gt': 'lambda a, b: a > b', 'ge': 'lambda a, b: a >= b', 'getitem': 'lambda a, b: a[b]', 'concat': 'lambda a, b: a + b',
             'contains': 'lambda a, b: b in a', 'not_': 'lambda a: not a', 'truth': 'lambda a: bool(a)', 'neg': 'lambda a: -a', 'iadd': 'lambda a, b: a + b'}
REDUCE = ast.parse('''
for x in it:
    acc = f(acc, x)
''').body
STR_FUNCS = {'json.dumps', 'os.path.join', 'os.path.basename', 'os.path.dirname'}
UNROLL = 16

PURE_EXT = ('math.', 'numpy.', 'builtins.', 'json.', 'itertools.', 'collections.', 're.', 'os.path', 'time.', 'datetime.', 'functools.',
            'operator.', 'pathlib.', 'typing.', 'sys.', 'io.', 'copy.', 'gzip.', 'multiprocessing.', 'random.random', 'argparse.',
            'os.environ', 'os.listdir', 'contextlib.', 'dataclasses.', 'string.', 'resource.', 'pyspark.', 'string.')
IGNORED = ('logging.', 'nlcodec.log', 'warnings.', 'nlcodec.utils.max_RSS', 'time.', 'nlcodec.utils.log_resources')
IGNORED_METHODS = {'set_postfix_str', 'set_postfix', 'set_description', 'set_description_str'}
IDENTITY = ('tqdm.tqdm', 'tqdm.auto.tqdm', 'builtins.iter')
SEQ_ARG = {'builtins.sorted', 'builtins.sum', 'builtins.max', 'builtins.min', 'builtins.any', 'builtins.all', 'builtins.bytes',
           'builtins.set', 'builtins.frozenset', 'collections.Counter', 'numpy.array', 'builtins.dict', 'builtins.enumerate',
           'numpy.asarray', 'builtins.reversed', 'collections.OrderedDict', 'itertools.chain', 'numpy.concatenate'}
MUT_FUNCS = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'random.shuffle', 'numpy.random.shuffle', 'builtins.next',
             'heapq.heappushpop', 'heapq.heapreplace', 'bisect.insort'}
EFFECT_EXT = ('shutil.', 'os.makedirs', 'os.remove', 'os.rename', 'os.replace', 'os.unlink', 'os.mkdir', 'os.rmdir', 'pickle.dump', 'json.dump',
              'builtins.print', 'os._exit', 'sys.exit', 'builtins.setattr', 'os.fsync', 'os.rmdir')
CONTAINERS = {'list', 'dict', 'set', 'gen', 'tuple'}


MUTATORS = ('append', 'extend', 'add', 'update', 'setdefault', 'pop', 'insert', 'remove', 'discard', 'clear', 'popitem')


class Narrowed(tuple):
    """the content of a container in one case of it (.whole)"""


class State:
    __slots__ = ('env', 'heap', 'attrs', 'trace', 'pc')

    def __init__(self, env=None, heap=None, attrs=None, trace=(), pc=TRUE):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap
        self.attrs = {} if attrs is None else attrs
        self.trace, self.pc = trace, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.attrs), self.trace, self.pc)

    def take(self, o):
        self.env, self.heap, self.attrs, self.trace, self.pc = o.env, o.heap, o.attrs, o.trace, o.pc


class Frame:
    def __init__(self, fn, module, cls, recv, exact, parent=None):
        self.fn, self.module, self.cls, self.recv, self.exact, self.parent = fn, module, cls, recv, exact, parent
        self.exits = []
        self.loops = []
        self.tries = 0
        self.depth = parent.depth + 1 if parent else 0
        self.raised = FALSE
        self.start = 0


class LoopCtx:
    def __init__(self):
        self.conts, self.breaks, self.rets = [], [], []


class Interp:
    def __init__(self, world, opaque, entry=None, exact=None):
        """opaque: qualname -> bool (known functions that stay calls)"""
        self.w, self.opaque = world, opaque
        self.clos = {}
        self.loc = {}
        self.frames = []
        self.kinds = {}
        self.types = {}
        self.newinfo = {}
        self.notes = []
        self.stack = []
        self.lists = set()
        self.counters = set()
        self.options = {}
        self.mappings = set()
        self.constmemo = {}
        self.strs = set()
        self.steps = 0

    # ============================================================ objects
    def alloc(self, st, kind, segs=()):
        o = mk('obj', kind, uid())
        st.heap[o] = tuple(segs)
        return o

    def content(self, st, v):
        """the segments of a container value, None when unknown"""
        if v.op == 'obj' and v.a[0] in CONTAINERS:
            return st.heap.get(v, ())
        if v.op in CONTAINERS:
            return v.a
        if v.op == 'tup':
            return tuple(mk('item', x) for x in v.a)
        if v in st.heap and v.op != 'obj':
            return st.heap[v]
        return None

    def freeze(self, v, st, depth=0):
        if depth > 40:
            raise Undecided('cyclic structure')
        if v.op == 'obj':
            kind = v.a[0]
            if kind in CONTAINERS:
                segs = st.heap.get(v, ())
                if len(segs) == 1 and segs[0].op == 'old':
                    return segs[0].a[0]
                if len(segs) > 1 and all(s.op == 'g' and s.a[1].op == 'old' for s in segs):
                    rest, r = segs[-1].a[0], segs[-1].a[1].a[0]
                    for s in segs[-2::-1]:
                        if b_and(s.a[0], rest) is not FALSE:
                            break
                        rest, r = b_or(s.a[0], rest), ite(s.a[0], s.a[1].a[0], r)
                    else:
                        if rest is TRUE:
                            # one of these, by case
                            return r
                out = []
                for s in segs:
                    out.append(self.freeze(s, st, depth + 1))
                if kind == 'list':
                    return mk('list', *clean(out))
                if kind == 'gen':
                    return mk('gen', *clean(out))
                return mk(kind, *clean(sort_inc(out)))
            segs = st.heap.get(v, ())
            if kind.startswith('new:'):
                if len(segs) == 1:
                    return self.freeze(segs[0], st, depth + 1)
                return mk('state', *[self.freeze(s, st, depth + 1) for s in segs])
            if kind.startswith('inst:'):
                fs = tuple(sorted(((n, self.freeze(x, st, depth + 1)) for (b, n), x in st.attrs.items() if b is v), key=lambda p: p[0]))
                return mk('new', kind[5:], fs)
            return v
        if v.op == 'closure':
            return self.lam(v, st)
        if v.op in ('bound', 'partial'):
            return self.eta(v, st)
        if v in st.heap and v.op != 'obj':
            segs = st.heap[v]
            if not (len(segs) == 1 and segs[0].op == 'old' and segs[0].a[0] is v):
                segs = [self.freeze_inner(s, st, depth + 1, v) for s in segs]
                return mk('list' if v in self.lists else 'dict', *clean(sort_inc(segs)))
            return v
        return self.freeze_inner(v, st, depth)

    def freeze_inner(self, v, st, depth, skip=None):
        todo = [x for x in walk(v) if (x.op in ('obj', 'closure', 'bound', 'partial') or (x in st.heap and x is not v)) and x is not skip and x is not v]
        if not todo:
            return v
        m = {}
        for x in todo:
            if x.op not in ('obj', 'closure', 'bound', 'partial'):
                segs = st.heap[x]
                if len(segs) == 1 and segs[0].op == 'old' and segs[0].a[0] is x:
                    continue
                continue   # external containers keep their name inside other terms
            m[x] = self.freeze(x, st, depth + 1)
        return subst(v, m) if m else v

    def eta(self, v, st):
        """a function value given by name or by partial application, as the function of its remaining parameters"""
        n, skip, kws = None, 0, ()
        f = v
        while f.op == 'partial':
            skip += len(f.a[1])
            kws += tuple(k for k, _ in f.a[2])
            f = f.a[0]
        fn = None
        if f.op == 'ref' and f.a[0] in self.w.fns:
            fn = self.w.fns[f.a[0]]
            first = 0
        elif f.op == 'bound' and f.a[0].op not in ('super',):
            c = self.cls_of_ref(f.a[0]) if f.a[0].op == 'ref' else self.class_of(f.a[0])[0]
            fn = self.w.find_method(c, f.a[1]) if c is not None else None
            first = 1 if fn is not None and fn.kind in ('method', 'classmethod') else 0
        elif f.op == 'closure':
            node = self.clos[f][0]
            fn, first = self.clos[f][3], 0
        if fn is None or fn.node.args.vararg or fn.node.args.kwarg or fn.node.args.kwonlyargs:
            return v
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        ps = ps[first + skip:len(ps) - len(a.defaults)]
        ps = [p for p in ps if p not in kws]
        if self.eta_depth > 3:
            return v
        self.eta_depth += 1
        try:
            u = uid()
            bs = [mk('bv', u, i) for i in range(len(ps))]
            s2 = State(dict(st.env), dict(st.heap), dict(st.attrs), (), TRUE)
            if kws:
                r = self.call(v, [], dict(zip(ps, bs)), s2)
            else:
                r = self.call(v, list(bs), {}, s2)
            body = self.freeze(r, s2)
            tr = tuple(self.freeze(x, s2) for x in s2.trace if x.op != 'raise' and not (x.op == 'g' and x.a[1].op == 'raise'))
        finally:
            self.eta_depth -= 1
        return lam_raw(u, len(ps), mk('tup', body, mk('list', *tr)) if tr else body)

    eta_depth = 0

    def lam(self, v, st):
        if v.op != 'closure':
            return v
        node, env, frame, fn = self.clos[v]
        key = ('lam', v)
        u = uid()
        if fn is not None:
            args = fn.node.args
        else:
            args = node.args
        names = [a.arg for a in args.posonlyargs + args.args]
        if fn is not None and fn.kind in ('method', 'classmethod'):
            names = names[1:]
        ps = [mk('bv', u, i) for i in range(len(names))]
        for i, a in enumerate((args.posonlyargs + args.args)[-len(names):] if names else []):
            if a.annotation is not None:
                self.types[ps[i]] = self.ann_type(a.annotation, frame.module, frame.cls)
        s2 = State(dict(st.env), dict(st.heap), dict(st.attrs), (), TRUE)
        try:
            r = self.call_closure(v, [(None, p) for p in ps], {}, s2)
            body = self.freeze(r, s2)
            tr = tuple(self.freeze(x, s2) for x in s2.trace if x.op != 'raise' and not (x.op == 'g' and x.a[1].op == 'raise'))
        except RecursionError:
            raise Undecided('recursive closure')
        return lam_raw(u, len(ps), mk('tup', body, mk('list', *tr)) if tr else body)

    def event(self, st, name, args=(), kws=()):
        st.trace = st.trace + (mk('ev', name, tuple(self.freeze(a, st) for a in args),
                                  tuple((k, self.freeze(x, st)) for k, x in kws)),)

    def mutate(self, st, base, seg, depth=0):
        """container / object `base` receives the segment"""
        if base.op == 'ite':
            s1, s2 = st.copy(), st.copy()
            c = atom(base.a[0])
            self.mutate(s1, base.a[1], seg, depth)
            self.mutate(s2, base.a[2], seg, depth)
            st.take(self.merge(c, s1, s2))
            return
        if base.op == 'obj':
            st.heap[base] = self.push_seg(st.heap.get(base, ()), seg)
            return
        if base in self.loc and depth < 4:
            c, k = self.loc[base]
            self.mutate(st, c, mk('sub', self.freeze(k, st), seg), depth + 1)
            return
        if self.local_path(base):
            st.heap[base] = self.push_seg(st.heap.get(base, (mk('old', base),)), seg)
            return
        st.trace = st.trace + (mk('ev', 'mutate', (self.freeze(base, st), self.freeze(seg, st)), ()),)

    def push_seg(self, segs, seg):
        if seg.op == 'clear':
            return ()
        if seg.op == 'ev' and segs and segs[-1].op == 'ev' and seg.a[0] == 'write' and segs[-1].a[0] == 'write':
            return segs[:-1] + (mk('ev', 'write', (cat(segs[-1].a[1][0], seg.a[1][0]),), ()),)
        return segs + (seg,)

    def local_path(self, t):
        while t.op == 'attr':
            t = t.a[0]
        return t.op in ('param', 'ref', 'sym', 'obj', 'lc')

    # ============================================================ joins
    def merge(self, c, a, b):
        """the state  a if c else b"""
        env = {}
        if a.env is b.env or a.env == b.env:
            env = a.env
        else:
            for k in a.env.keys() | b.env.keys():
                x, y = a.env.get(k), b.env.get(k)
                if x is y:
                    env[k] = x
                elif x is None or y is None:
                    env[k] = ite(c, x or UNDEF, y or UNDEF)
                else:
                    env[k] = self.join(c, x, y, a, b)
        heap = dict(b.heap)
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                continue
            if x is None:
                if k.op != 'obj':
                    x = (mk('old', k),)
                else:
                    heap[k] = y
                    continue
            if y is None:
                if k.op != 'obj':
                    y = (mk('old', k),)
                else:
                    heap[k] = x
                    continue
            x0, y0 = getattr(x, 'whole', x), getattr(y, 'whole', y)
            if x0 == y0:
                heap[k] = x0
                continue
            x, y = self.same_update(k, x, y)
            if len(x) == len(y) + 1 and x[:-1] == y and x[-1].op == 'del' and self.contains(x[-1].a[0], k, b) is c:
                y = x   # taking out what is there
            elif len(y) == len(x) + 1 and y[:-1] == x and y[-1].op == 'del' and self.contains(y[-1].a[0], k, a) is b_not(c):
                x = y
            heap[k] = merge_segs(c, x, y)
        attrs = dict(b.attrs)
        for k in a.attrs.keys() | b.attrs.keys():
            x, y = a.attrs.get(k), b.attrs.get(k)
            if x is y:
                continue
            if x is None:
                x = attr(*k) if k[0].op != 'obj' else UNDEF
            if y is None:
                y = attr(*k) if k[0].op != 'obj' else UNDEF
            attrs[k] = self.join(c, x, y, a, b)
        r = State(env, heap, attrs, merge_segs(c, a.trace, b.trace), b_or(a.pc, b.pc))
        for o, segs in getattr(self, '_pending', {}).items():
            r.heap[o] = segs
        self._pending = {}
        return r

    def same_update(self, o, x, y):
        """an entry that is increased on one branch and set on the other is set on both"""
        n = 0
        while n < len(x) and n < len(y) and x[n] is y[n]:
            n += 1
        if len(x) != n + 1 or len(y) != n + 1 or {x[n].op, y[n].op} not in ({'inc', 'put'}, {'inc', 'kv'}) or x[n].a[0] is not y[n].a[0]:
            return x, y
        base = mk(o.a[0] if o.op == 'obj' and o.a[0] in ('list', 'dict') else 'dict', *x[:n])
        key = x[n].a[0]

        def put(segs, op):
            s = segs[n]
            return segs if s.op != 'inc' else segs[:n] + (mk(op, key, add(self.read(base, key, None), s.a[1])),)
        return put(x, y[n].op), put(y, x[n].op)

    def join(self, c, x, y, a, b):
        # two fresh containers of the same kind: one container with joined content
        if x.op == 'obj' and y.op == 'obj' and x.a[0] == y.a[0] and x.a[0] in CONTAINERS:
            in_both = (x in b.heap) or (y in a.heap)
            if not in_both:
                o = mk('obj', x.a[0], uid())
                if not hasattr(self, '_pending'):
                    self._pending = {}
                self._pending[o] = merge_segs(c, a.heap.get(x, ()), b.heap.get(y, ()))
                return o
        return ite(c, x, y)

    # ============================================================ names
    def fr(self):
        return self.frames[-1]

    def resolve(self, r):
        """world resolution -> term"""
        if r is None:
            return None
        k = r[0]
        if k == 'fn':
            return mk('ref', r[1].qual)
        if k == 'cls':
            return mk('ref', r[1].qual)
        if k == 'mod':
            return mk('ref', r[1].name)
        if k == 'ext':
            return mk('ref', canon_ext(r[1]))
        if k == 'expr':
            return self.mod_const(r[2], r[3], r[1])

    def mod_const(self, m, name, node):
        key = (m.name, name)
        if key in self.constmemo:
            return self.constmemo[key]
        q = f'{m.name}.{name}'
        self.constmemo[key] = mk('ref', q)
        if name == 'log' or q == 'nlcodec.log':
            self.constmemo[key] = mk('ref', 'nlcodec.log')
            return self.constmemo[key]
        v = self.eval_static(node, m, None)
        if v is None or has_op(v, 'call', 'mcall', 'ite', 'obj', 'closure', 'attr', 'idx', 'post', 'star', 'new', 'unk'):
            # a constant the reference does not have is a name for its value
            p = self.w.peer
            if v is None or p is None or m.name not in p.mods or name in p.mods[m.name].names or has_op(v, 'obj', 'closure', 'unk'):
                v = mk('ref', q)
        self.constmemo[key] = v
        return v

    def eval_static(self, node, m, cls, env=None):
        fr = Frame(None, m, cls, None, None)
        self.frames.append(fr)
        try:
            st = State(dict(env or {}))
            v = self.ev(node, st)
            return self.freeze(v, st)
        except Undecided:
            return None
        finally:
            self.frames.pop()

    def class_attr(self, c, name):
        """a class level constant / function of class c"""
        key = ('cls', c.qual, name)
        if key in self.constmemo:
            return self.constmemo[key]
        for k in self.w.mro(c):
            if name in k.fns:
                return mk('ref', k.fns[name].qual)
            if name in k.inner:
                return mk('ref', k.inner[name].qual)
            if name in k.consts:
                self.constmemo[key] = mk('ref', f'{k.qual}.{name}')
                v = self.eval_static(k.consts[name], k.module, k, self.class_env(k, name))
                if v is None or has_op(v, 'call', 'mcall', 'obj', 'closure'):
                    p = self.w.peer
                    if v is None or p is None or k.qual not in p.classes or name in p.classes[k.qual].consts or has_op(v, 'obj', 'closure', 'unk'):
                        v = mk('ref', f'{k.qual}.{name}')
                self.constmemo[key] = v
                return v
        return None

    def class_env(self, k, name):
        return {n: self.class_attr(k, n) for n in names_in(k.consts[name]) if n in k.consts and n != name}

    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        fr = self.fr()
        f = fr
        env = getattr(fr, 'closure_env', None)
        if env is not None and n in env:
            return env[n]
        if fr.cls is not None and fr.fn is None and n in fr.cls.consts:
            return self.class_attr(fr.cls, n)
        r = self.w.in_module(fr.module, n)
        if r is not None:
            return self.resolve(r)
        if n == '__file__':
            return mk('ref', 'builtins.__file__')
        return mk('ref', 'builtins.' + n)

    def cls_of_ref(self, t):
        if t.op == 'ref':
            return self.w.classes.get(t.a[0])
        return None

    # ============================================================ types
    def ann_type(self, node, module, cls=None):
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            b = dotted_name(node.value)
            sl = node.slice
            last = (b or '').split('.')[-1]
            if last in ('List', 'Iterator', 'Iterable', 'Sequence', 'list', 'Set', 'set'):
                return ('list', self.ann_type(sl, module, cls))
            if last == 'Optional':
                r = self.ann_type(sl, module, cls)
                return None if r in (('int',), ('str',)) else r
            if last in ('Tuple', 'tuple'):
                if isinstance(sl, ast.Tuple):
                    if len(sl.elts) == 2 and isinstance(sl.elts[1], ast.Constant) and sl.elts[1].value is ...:
                        return ('list', self.ann_type(sl.elts[0], module, cls))
                    return ('tuple', tuple(self.ann_type(e, module, cls) for e in sl.elts))
                return ('list', self.ann_type(sl, module, cls))
            if last in ('Dict', 'dict') and isinstance(sl, ast.Tuple):
                return ('dict', self.ann_type(sl.elts[1], module, cls), self.ann_type(sl.elts[0], module, cls))
            if last in self._short():
                return self.ann_type(node.value, module, cls)
            return None
        d = dotted_name(node)
        if d:
            r = self.w.resolve_name(module, d, cls)
            if r and r[0] == 'cls':
                return ('cls', r[1].qual)
            if r and r[0] == 'expr':
                if isinstance(r[1], (ast.Subscript, ast.Name, ast.Attribute)):
                    return self.ann_type(r[1], r[2], None)
            if cls is not None and d == cls.name:
                return ('cls', cls.qual)
            if d in ('int', 'str'):
                return (d,)
            if d in ('Path', 'pathlib.Path'):
                return ('path',)
            if d in ('dict', 'Dict', 'Counter'):
                return ('dict', None, None)
        return None

    def param_type(self, args, p, module, cls):
        ty = self.ann_type(p.annotation, module, cls)
        if ty in (('str',), ('path',), ('int',)):
            pos = args.posonlyargs + args.args
            ds = dict(zip([x.arg for x in pos[len(pos) - len(args.defaults):]], args.defaults))
            ds.update({x.arg: d for x, d in zip(args.kwonlyargs, args.kw_defaults)})
            d = ds.get(p.arg)
            if isinstance(d, ast.Constant) and d.value is None:
                return None
        return ty

    def _short(self):
        return {c.name for c in self.w.classes.values()}

    def typeof(self, t, depth=0):
        if t in self.types:
            return self.types[t]
        if depth > 6:
            return None
        if t.op == 'inst':
            return ('cls', t.a[0])
        if t.op == 'new':
            return ('cls', t.a[0])
        if t.op == 'obj' and ':' in t.a[0]:
            return ('cls', t.a[0].split(':', 1)[1])
        if t.op == 'mcall' and t.a[1] in ('with_suffix', 'with_name', 'absolute', 'resolve') or t.op == 'attr' and t.a[1] == 'parent':
            if self.typeof(t.a[0], depth + 1) == ('path',):
                return ('path',)
        if t.op == 'attr' and t.a[1] in ('name', 'suffix', 'stem') and self.typeof(t.a[0], depth + 1) == ('path',):
            return ('str',)
        if t.op == 'attr':
            b = self.typeof(t.a[0], depth + 1)
            if b and b[0] == 'cls' and b[1] in self.w.classes:
                for w in (self.w, self.w.other):
                    if w is None or b[1] not in w.classes:
                        continue
                    for k in w.mro(w.classes[b[1]]):
                        ty = self.ann_type(k.anns[t.a[1]], k.module, k) if t.a[1] in k.anns else self.init_attr_type(k, t.a[1])
                        if ty:
                            return ty
            return None
        if t.op == 'call' and t.a[0].op == 'idx':
            c = self.made_by_class(t.a[0])
            if c is not None:
                return ('cls', c.qual)
        if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in STR_FUNCS:
            return ('str',)
        if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] == 'pathlib.Path':
            return ('path',)
        if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] == 'builtins.sorted' and t.a[1]:
            x = t.a[1][0]
            e = self.elem_type(x, depth + 1)
            return ('list', e) if e else None
        if t.op == 'mcall' and t.a[1] == 'split' and (t.a[2] and is_const(t.a[2][0], str) or self.typeof(t.a[0], depth + 1) == ('str',)):
            return ('list', ('str',))
        if t.op == 'mcall' and t.a[1] in ('strip', 'lstrip', 'rstrip') and self.typeof(t.a[0], depth + 1) == ('str',):
            return ('str',)
        if t.op == 'idx':
            b = self.typeof(t.a[0], depth + 1)
            if b == ('str',):
                return b
            if b and b[0] in ('list', 'dict'):
                return b[1]
            if b and b[0] == 'tuple':
                k = pconst(t.a[1])
                if isinstance(k, int) and -len(b[1]) <= k < len(b[1]):
                    return b[1][k]
            return None
        if t.op == 'slc':
            return self.typeof(t.a[0], depth + 1)
        if t.op == 'keyat':
            b = self.typeof(t.a[0], depth + 1)
            return b[2] if b and b[0] == 'dict' else None
        if t.op == 'tup' and depth <= 4:
            es = tuple(self.typeof(x, depth + 1) for x in t.a)
            return ('tuple', es) if any(es) else None
        if t.op in CONTAINERS and t.a and t.a[0].op == 'old':
            return self.typeof(t.a[0].a[0], depth + 1)
        if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in self.w.fns:
            return self.ret_type(self.w.fns[t.a[0].a[0]])
        if t.op == 'ite':
            a = self.typeof(t.a[1], depth + 1)
            return a or self.typeof(t.a[2], depth + 1)
        return None

    def elem_type(self, x, depth):
        if x.op in ('list', 'gen') and len(x.a) == 1 and x.a[0].op == 'star' and plain_star(x.a[0]):
            return self.typeof(x.a[0].a[4][0].a[0], depth + 1)
        ty = self.typeof(x, depth + 1)
        return ty[1] if ty and ty[0] == 'list' else ty[2] if ty and ty[0] == 'dict' else None

    def init_attr_type(self, c, name):
        f = c.fns.get('__init__')
        if f is None:
            return None
        anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None}
        for n in own_nodes(f.node):
            if isinstance(n, ast.AnnAssign) and is_self_attr(n.target, name):
                return self.ann_type(n.annotation, c.module, c)
            if isinstance(n, ast.Assign) and any(is_self_attr(t, name) for t in n.targets):
                if isinstance(n.value, ast.Name) and n.value.id in anns:
                    return self.ann_type(anns[n.value.id], c.module, c)
                for v in ([n.value.body, n.value.orelse] if isinstance(n.value, ast.IfExp) else n.value.values if isinstance(n.value, ast.BoolOp) else [n.value]):
                    if isinstance(v, ast.Name) and v.id in anns:
                        return self.ann_type(anns[v.id], c.module, c)
                    if isinstance(v, ast.Call):
                        d = dotted_name(v.func)
                        if d and d.startswith('self.') and d.count('.') == 1:
                            f2 = self.w.find_method(c, d[5:])
                            if f2 is not None:
                                return self.ret_type(f2)
                        if d:
                            r = self.w.resolve_name(c.module, d, c)
                            if r and r[0] == 'cls':
                                return ('cls', r[1].qual)
                            if r and r[0] == 'fn':
                                return self.ret_type(r[1])
        return None

    def ret_type(self, f):
        """declared, or the class of the local object that is returned"""
        ty = self.ret_type1(f)
        if ty is None and self.w.other is not None and f.qual in self.w.other.fns:
            ty = self.ret_type1(self.w.other.fns[f.qual])
        return ty

    def ret_type1(self, f):
        if f.node.returns is not None:
            return self.ann_type(f.node.returns, f.module, f.cls)
        rets = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Return)]
        if not f.is_gen and list_valued(f):
            return ('list', None)
        if len(rets) != 1 or not isinstance(rets[0], ast.Name) or f.is_gen:
            return None
        vals = []
        tys = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == rets[0].id for t in n.targets):
                vals.append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == rets[0].id:
                return self.ann_type(n.annotation, f.module, f.cls)
        for v in vals:
            v2 = v.func if isinstance(v, ast.Call) else None
            d = dotted_name(v2.value if isinstance(v2, ast.Subscript) else v2) if isinstance(v, ast.Call) else None
            r = self.w.resolve_name(f.module, d, f.cls) if d else None
            tys.add(('cls', r[1].qual) if r and r[0] == 'cls' else None)
        return tys.pop() if len(tys) == 1 else None

    def lists_out(self, x):
        """a call of a function that is seen to return a list"""
        q = x.a[0].a[0] if x.op == 'call' and x.a[0].op == 'ref' else None
        return any(w is not None and q in w.fns and list_valued(w.fns[q]) for w in (self.w, self.w.other))

    def choice_of_classes(self, h):
        if h.op != 'idx' or h.a[0].op not in ('dict', 'list', 'tup') or not h.a[0].a:
            return None
        cs = []
        for s in h.a[0].a:
            v = s if h.a[0].op == 'tup' else s.a[1] if s.op in ('kv', 'put') else s.a[0] if s.op == 'item' else s
            if v.op != 'ref' or v.a[0] not in self.w.classes:
                return None
            cs.append(self.w.classes[v.a[0]])
        return cs

    def init_names(self, c):
        """what the positional arguments of a class are called"""
        for k in self.w.mro(c):
            g = k.fns.get('__init__')
            if g is None:
                continue
            a = g.node.args
            if a.posonlyargs:
                return None
            if len(a.args) == 1 and a.vararg is not None and a.kwarg is not None:
                # handed on as they are
                if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and n.args and isinstance(n.args[0], ast.Starred)
                       and getattr(n.args[0].value, 'id', None) == a.vararg.arg and any(x.arg is None and getattr(x.value, 'id', None) == a.kwarg.arg for x in n.keywords)
                       for n in ast.walk(g.node)):
                    continue
                return None
            return tuple(p.arg for p in a.args[1:])
        return None

    def made_by_class(self, h):
        """the common class of what one of several classes makes"""
        cs = self.choice_of_classes(h)
        if not cs:
            return None
        for c in self.w.mro(cs[0]):
            if all(c in self.w.mro(k) for k in cs):
                return c
        return None

    def class_of(self, t):
        """(class, exact) of a value"""
        fr = self.fr()
        f = fr
        while f is not None:
            if f.recv is t and f.exact is not None:
                return f.exact, True
            f = f.parent
        ty = self.typeof(t)
        if ty and ty[0] == 'cls' and ty[1] in self.w.classes:
            return self.w.classes[ty[1]], t.op in ('inst', 'new') or t.op == 'obj'
        f = fr
        while f is not None:
            if f.recv is t and f.cls is not None:
                return f.cls, False
            f = f.parent
        return None, False

    # ============================================================ expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 400_000:
            raise Undecided('too large')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return mk('unk', ast.dump(n))
        return m(n, st)

    def e_Constant(self, n, st):
        if isinstance(n.value, (str, int, float, bool, type(None))):
            return const(n.value)
        if isinstance(n.value, bytes):
            return const(n.value)
        return mk('const', 'other', repr(n.value))

    def e_Name(self, n, st):
        return self.operator(self.name(n.id, st), st)

    def e_Attribute(self, n, st):
        return self.operator(self.getattr(self.ev(n.value, st), n.attr, st), st)

    def operator(self, v, st):
        if v.op == 'ref' and v.a[0].startswith('operator.') and v.a[0][9:] in OPERATORS:
            return self.closure(ast.parse(OPERATORS[v.a[0][9:]], mode='eval').body, st, None)
        return v

    def getattr(self, b, name, st):
        if b.op == 'ite':
            def f(x):
                return self.getattr(x, name, st)
            return lift(f, b)
        if b.op == 'super':
            return mk('bound', b, name)
        if b.op == 'ref':
            r = self.w.dotted(b.a[0])
            if r[0] == 'cls':
                if name in ('__name__',):
                    return const(r[1].name)
                v = self.class_attr(r[1], name)
                if v is not None:
                    if v.op == 'ref' and v.a[0] in self.w.fns and self.w.fns[v.a[0]].kind in ('classmethod',):
                        return mk('bound', b, name)
                    return v
            x = self.w.dotted(b.a[0] + '.' + name)
            if x[0] != 'ext':
                return self.resolve(x)
            return mk('ref', canon_ext(b.a[0] + '.' + name))
        v = st.attrs.get((b, name))
        if v is not None:
            return v
        if b.op == 'inst':
            v = attr(b, name)
            if v.op != 'attr':
                return v
        if name == '__dict__':
            return mk('attr', b, name)
        c, exact = self.class_of(b)
        if c is None and b.op in ('attr', 'idx', 'sym', 'lc', 'param', 'iterk', 'bv', 'call', 'mcall', 'post', 'entered', 'keyat'):
            # unique property name in the program
            cs = [k for k in self.w.by_method.get(name, ()) if k.fns[name].kind == 'property']
            if len(cs) == 1 and len(self.w.by_method[name]) == 1:
                return self.call_fn(cs[0].fns[name], b, [], {}, st, cs[0], False)
        if c is not None:
            f = self.w.find_method(c, name)
            if f is not None:
                if f.kind == 'property':
                    return self.call_fn(f, b, [], {}, st, c, exact)
                return mk('bound', b, name)
            for k in self.w.mro(c):
                if name in k.inner:
                    return mk('ref', k.inner[name].qual)
            if (exact or not any(name in s.consts for s in self.w._subs.get(c.qual, ()))) and not self.w.writes_attr(c, name):
                if c.dataclass and name in c.order:
                    return attr(b, name)
                v = self.class_attr(c, name)
                if v is not None:
                    return v
        return attr(b, name)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, st) if n.slice.lower else NONE
            hi = self.ev(n.slice.upper, st) if n.slice.upper else NONE
            step = self.ev(n.slice.step, st) if n.slice.step else NONE
            return self.slice(b, lo, hi, step, st)
        k = self.key(n.slice, st)
        return self.index(b, k, st)

    def slice(self, b, lo, hi, step, st):
        fz = self.freeze(b, st)
        if fz.op == 'ref':
            return mk('idx', fz, mk('slice', lo, hi, step))
        if step is NONE and lo is NONE and hi is NONE:
            return self.copy_of(b, st)
        if is_const(step, int) and step.a[1] == -1 and lo is NONE and hi is NONE:
            return mk('call', mk('ref', 'builtins.reversed'), (fz,), ())
        lo, hi = self.freeze(lo, st), self.freeze(hi, st)
        r = slc(fz, lo, hi, step)
        if r.op == 'list':
            return self.alloc(st, 'list', r.a)
        ty = self.typeof(b)
        if ty and r.op == 'slc':
            self.types[r] = ty
        return r

    def copy_of(self, b, st):
        segs = self.seq(b, st)
        return self.alloc(st, 'list', segs)

    def key(self, n, st):
        if isinstance(n, ast.Slice):
            return mk('slice', *[self.ev(x, st) if x else NONE for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return mk('tup', *[self.key(x, st) for x in n.elts])
        return self.ev(n, st)

    def index(self, b, k, st):
        if b.op == 'ite':
            return lift(lambda x: self.index(x, k, st), b)
        if b.op == 'ref':
            return mk('idx', b, self.freeze(k, st))
        if has_op(k, 'obj', 'closure'):
            k = self.freeze(k, st)
        if b.op == 'obj' and b.a[0] in CONTAINERS:
            segs = st.heap.get(b, ())
            if len(segs) == 1 and segs[0].op == 'old':
                base = segs[0].a[0]
            else:
                base = mk(b.a[0], *segs)
            r = self.read(base, k, st)
            if r.op == 'ite' and (has_op(r.a[0], 'obj') or not any(x.op == 'obj' for x in leaves(r))):
                r = self.read(self.freeze(b, st), k, st)
            elif r.op == 'ite':
                r = self.read_branches(r, b, k, st)
            elif r.op == 'idx':
                r = self.read(self.freeze(b, st), k, st)
            self.loc[r] = (b, k)
            return r
        if b in st.heap or b.op == 'obj':
            r = self.read(mk('dict', *st.heap[b]), k, st) if b in st.heap and st.heap[b] and st.heap[b][-1].op == 'g' else None
            if r is not None and r.op == 'ite' and not has_op(r.a[0], 'obj') and any(x.op == 'obj' for x in leaves(r)):
                return self.read_branches(r, b, k, st)
            base = self.freeze(b, st)
            r = self.read(base, k, st)
        else:
            r = self.read(b, k, st)
        if r.op == 'idx':
            self.loc.setdefault(r, (b, k))
            ty = self.typeof(b)
            if ty and ty[0] in ('list', 'dict', 'tuple') and r not in self.types:
                e = ty[1] if ty[0] != 'tuple' else None
                if e:
                    self.types[r] = e
        return r

    def read_branches(self, r, b, k, st):
        """the entry is what was just put there, or else what there was"""
        def one(x):
            if x.op == 'obj':
                return x
            x = self.freeze(x, st)
            if x.op == 'idx':
                self.loc[x] = (b, k)
            return x
        r = lift(one, r)
        return r

    def read(self, base, k, st):
        """element k of a frozen container, looking through its log of updates"""
        if base.op in ('list', 'dict') and base.a and base.a[-1].op in ('put', 'inc', 'kv', 'sub', 'g', 'del') and base.a:
            segs = list(base.a)
            acc = ZERO
            n_inc = 0
            while segs:
                s = segs[-1]
                if s.op == 'inc':
                    if s.a[0] is k:
                        acc = padd(acc, s.a[1])
                        n_inc += 1
                        segs.pop()
                        continue
                    if distinct(s.a[0], k):
                        segs.pop()
                        continue
                if s.op in ('put', 'kv'):
                    if s.a[0] is k:
                        return padd(s.a[1], acc) if n_inc else s.a[1]
                    if distinct(s.a[0], k):
                        segs.pop()
                        continue
                if s.op == 'del' and distinct(s.a[0], k):
                    segs.pop()
                    continue
                if s.op == 'g' and s.a[1].op in ('kv', 'put'):
                    if distinct(s.a[1].a[0], k):
                        segs.pop()
                        continue
                    if s.a[1].a[0] is k:
                        below = self.read(mk(base.op, *segs[:-1]), k, st)
                        return ite(s.a[0], s.a[1].a[1], below)
                break
            if len(segs) == 1 and segs[0].op == 'old':
                r = mk('idx', segs[0].a[0], k)
            elif segs and base.op == 'list' and not any(x.op in ('put', 'inc', 'sub', 'g') for x in segs):
                r = idx(mk('list', *segs), k)
            else:
                r = mk('idx', mk(base.op, *segs), k)
            return padd(r, acc) if n_inc else r
        return idx(base, k)

    def e_Tuple(self, n, st):
        return self.tuple_of(n.elts, st)

    def tuple_of(self, elts, st):
        vals = []
        plain = True
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                if v.op == 'tup':
                    vals.extend(mk('item', x) for x in v.a)
                else:
                    vals.extend(self.seq(v, st))
            else:
                vals.append(mk('item', self.ev(e, st)))
        if all(v.op == 'item' for v in vals):
            return mk('tup', *[v.a[0] for v in vals])
        return mk('tuple', *[self.freeze(v, st) for v in vals])

    def e_List(self, n, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.seq(self.ev(e.value, st), st))
            else:
                segs.append(mk('item', self.ev(e, st)))
        return self.alloc(st, 'list', segs)

    def e_Set(self, n, st):
        segs = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.seq(self.ev(e.value, st), st))
            else:
                segs.append(mk('item', self.ev(e, st)))
        return self.alloc(st, 'set', segs)

    def e_Dict(self, n, st):
        segs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                segs.extend(self.dict_segs(self.ev(v, st), st))
            else:
                kk = self.freeze(self.ev(k, st), st)
                segs.append(mk('kv', kk, self.ev(v, st)))
        return self.alloc(st, 'dict', segs)

    def dict_segs(self, v, st):
        segs = self.content(st, v)
        if segs is not None and v.op in ('obj', 'dict') and (v.op == 'dict' or v.a[0] == 'dict'):
            return [s for s in segs if s.op != 'fac']
        fz = self.freeze(v, st)
        u = uid()
        k = mk('iterk', u)
        kk = mk('keyat', fz, k)
        return [star_raw(u, length(fz), FALSE, (), (mk('kv', kk, idx(fz, kk)),))]

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    parts.append(self.fmt(self.freeze(x, st), sp))
                else:
                    parts.append(self.to_str(self.freeze(x, st)))
        return cat(*parts)

    def to_str(self, x):
        return lift(lambda y: y if self.typeof(y) == ('str',) or y in self.strs else to_str(y), x)

    def fmt(self, x, sp):
        def f(x, sp):
            if x.op == 'const' and sp.op == 'const':
                try:
                    return const(format(x.a[1], sp.a[1]))
                except (ValueError, TypeError):
                    pass
            if sp.op == 'const' and sp.a[1] == '':
                return self.to_str(x)
            return mk('fmt', x, sp)
        return lift(f, x, sp)

    def e_BinOp(self, n, st):
        return self.binop(type(n.op).__name__, self.ev(n.left, st), self.ev(n.right, st), st)

    def binop(self, op, a, b, st):
        if op == 'Add':
            if (a.op == 'obj' and a.a[0] == 'list') or (b.op == 'obj' and b.a[0] == 'list'):
                return self.alloc(st, 'list', tuple(self.seq(a, st)) + tuple(self.seq(b, st)))
            a, b = self.freeze(a, st), self.freeze(b, st)
            if a.op == 'list' or b.op == 'list':
                return self.alloc(st, 'list', tuple(self.seq(a, st)) + tuple(self.seq(b, st)))
            if self.typeof(a) == ('str',) or self.typeof(b) == ('str',):
                return cat(a, b)
            if any(x.op in ('call', 'mcall') and (self.typeof(x) or ('',))[0] == 'list' and self.lists_out(x) for x in (a, b)):
                return self.alloc(st, 'list', tuple(self.seq(a, st)) + tuple(self.seq(b, st)))
            return add(a, b)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if x.op == 'obj' and x.a[0] == 'list':
                    segs = st.heap[x]
                    k = pconst(y)
                    if isinstance(k, int) and k <= UNROLL:
                        return self.alloc(st, 'list', segs * k)
                    if all(s.op == 'item' for s in segs) and len(segs) == 1:
                        u = uid()
                        return self.alloc(st, 'list', (star_raw(u, y, FALSE, (), segs),))
        if op == 'BitOr' and all(x.op == 'obj' and x.a[0] == 'set' for x in (a, b)):
            return self.alloc(st, 'set', st.heap[a] + st.heap[b])
        a, b = self.freeze(a, st), self.freeze(b, st)
        if op == 'Sub':
            if not (self.is_setlike(a) or self.is_setlike(b)):
                return psub(a, b)
            return mk('bin', 'Sub', a, b)
        if op == 'Mult':
            if is_const(a, str) or is_const(b, str):
                return mk('bin', op, a, b)
            return pmul(a, b)
        if op == 'Mod' and is_const(a, str):
            return self.percent(a.a[1], b)

        def f(x, y):
            p, q = pconst(x), pconst(y)
            if p is not None and q is not None:
                try:
                    v = {'Div': lambda: p / q, 'FloorDiv': lambda: p // q, 'Mod': lambda: p % q, 'Pow': lambda: p ** q,
                         'LShift': lambda: p << q, 'RShift': lambda: p >> q, 'BitAnd': lambda: p & q, 'BitOr': lambda: p | q,
                         'BitXor': lambda: p ^ q}[op]()
                    return const(v)
                except (KeyError, ZeroDivisionError, TypeError, OverflowError):
                    pass
            if op == 'Div':
                if q not in (None, 0):
                    return pmul(x, const(1 / q))
                return pmul(x, mk('num', 'inv', y)) if p != 1 else mk('num', 'inv', y)
            if op in ('BitAnd', 'BitOr', 'BitXor') and y.n < x.n and not (self.is_setlike(x) or self.is_setlike(y)):
                x, y = y, x
            return mk('bin', op, x, y)
        return lift(f, a, b)

    def is_setlike(self, t):
        return t.op == 'set' or (t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in ('builtins.set', 'builtins.frozenset')) \
            or (t.op == 'mcall' and t.a[1] == 'keys')

    def percent(self, f, b):
        args = list(b.a) if b.op == 'tup' else [b]
        out, i, j = [], 0, 0
        while i < len(f):
            if f[i] == '%' and i + 1 < len(f):
                if f[i + 1] == '%':
                    out.append(const('%'))
                    i += 2
                    continue
                j2 = i + 1
                while j2 < len(f) and f[j2] not in 'sdrxXfgoec':
                    j2 += 1
                if j2 >= len(f) or j >= len(args):
                    return mk('bin', 'Mod', const(f), b)
                sp = f[i + 1:j2 + 1]
                out.append(self.to_str(args[j]) if sp in ('s', 'd') else self.fmt(args[j], const(sp)))
                j += 1
                i = j2 + 1
            else:
                out.append(const(f[i]))
                i += 1
        return cat(*out)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return b_not(self.cond(n.operand, st))
        v = self.freeze(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.USub):
            return pneg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return lift(lambda x: mk('bin', type(n.op).__name__, x, NONE), v)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], st)
        for e in n.values[1:]:
            c = self.truth(v, st)
            if c.op == 'const':
                if bool(c.a[1]) == isand:
                    v = self.ev(e, st)
                continue
            s2 = st.copy()
            w = self.ev(e, s2)
            if isand:
                v = self.branch_value(c, w, v, s2, st)
            else:
                v = self.branch_value(c, v, w, st, s2)
        return v

    def branch_value(self, c, a, b, sa, sb):
        """value a from state sa when c, else b from sb; the joined state replaces the one that was not a copy"""
        base = sa
        if sa.heap == sb.heap and sa.attrs == sb.attrs and sa.trace is sb.trace and sa.env == sb.env:
            r = self.join(c, a, b, sa, sb)
            tgt = sa
            for o, segs in getattr(self, '_pending', {}).items():
                sa.heap[o] = segs
                sb.heap[o] = segs
            self._pending = {}
            return r
        sa.env['#v'], sb.env['#v'] = a, b
        m = self.merge(c, sa, sb)
        m.pc = sa.pc
        r = m.env.pop('#v')
        sa.take(m)
        sb.take(m.copy())
        return r

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c.op == 'const':
            return self.ev(n.body if c.a[1] else n.orelse, st)
        s2 = st.copy()
        self.narrow(st, c)
        self.narrow(s2, b_not(c))
        a = self.ev(n.body, st)
        b = self.ev(n.orelse, s2)
        return self.branch_value(c, a, b, st, s2)

    def narrow(self, st, c):
        """what the variables can be where the condition holds"""
        env = None
        for k, v in st.env.items():
            if v.__class__ is T and v.op == 'ite':
                w = simplify(v, c)
                if w is not v:
                    env = env or dict(st.env)
                    env[k] = w
        if env:
            st.env = env
        for o, segs in list(st.heap.items()):
            if o.op == 'obj' and any(x.op in ('g', 'star') for x in segs):
                new = tuple(y for y in (under(x, c) for x in segs) if y is not None)
                if new != segs:
                    st.heap[o] = new = Narrowed(new)
                    new.whole = getattr(segs, 'whole', segs)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_Lambda(self, n, st):
        return self.closure(n, st, None)

    def closure(self, node, st, fn):
        v = mk('closure', uid())
        env = dict(getattr(self.fr(), 'closure_env', None) or {})
        env.update(st.env)
        self.clos[v] = (node, env, self.fr(), fn)
        return v

    def cond(self, n, st):
        """a condition as a boolean diagram"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            c = self.cond(n.values[0], st)
            for e in n.values[1:]:
                if c.op == 'const':
                    if bool(c.a[1]) == isand:
                        c = self.cond(e, st)
                    continue
                s2 = st.copy()
                d = self.cond(e, s2)
                if not (s2.heap == st.heap and s2.attrs == st.attrs and s2.trace == st.trace and s2.env == st.env):
                    m = self.merge(c, s2, st) if isand else self.merge(c, st, s2)
                    m.pc = st.pc
                    st.take(m)
                c = b_and(c, d) if isand else b_or(c, d)
            return c
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return b_not(self.cond(n.operand, st))
        return self.truth(self.ev(n, st), st)

    def truth(self, v, st):
        if v.op == 'ite':
            return lift(lambda x: self.truth(x, st), v)
        if v.op == 'obj':
            if v.a[0] in CONTAINERS and v.a[0] != 'gen':
                return truthy(self.freeze(v, st))
            if v.a[0].startswith('new:'):
                c = self.w.classes.get(v.a[0][4:])
                if c is not None and (self.w.find_method(c, '__len__') or self.w.find_method(c, '__bool__')):
                    return truthy(self.freeze(v, st))
            return TRUE
        if v in st.heap:
            v = self.freeze(v, st)
        if v.op in ('attr', 'idx', 'lc', 'post', 'call', 'mcall', 'param', 'bv', 'keyat'):
            ty = self.typeof(v)
            c = self.w.classes.get(ty[1]) if ty and ty[0] == 'cls' else None
            if c is not None and self.plain_object(c):
                return b_not(isnone(v))     # instances are true
        return truthy(v)

    def plain_object(self, c):
        for k in [c] + list(self.w._subs.get(c.qual, ())):
            if self.w.find_method(k, '__len__') or self.w.find_method(k, '__bool__'):
                return False
            for m in self.w.mro(k):
                for b in m.node.bases:
                    d = dotted_name(b.value if isinstance(b, ast.Subscript) else b)
                    r = self.w.resolve_name(m.module, d) if d else None
                    if not (r and r[0] == 'cls') and d not in ('object', 'ABC', 'abc.ABC', 'Generic'):
                        return False
        return True

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        r = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st)
            r = b_and(r, self.compare(type(op).__name__, left, right, st))
            left = right
        return r

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            if a.op == 'obj' and b.op == 'obj':
                r = const(a is b)
            elif b is NONE:
                r = lift(lambda x: FALSE if self.never_none(x) else isnone(x), self.freeze(a, st))
            else:
                r = eq(self.freeze(a, st), self.freeze(b, st)) if not (a is b) else TRUE
            return r if op == 'Is' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            return r if op == 'In' else b_not(r)
        a, b = self.freeze(a, st), self.freeze(b, st)
        if op == 'Eq':
            return self.eq_np(a, b)
        if op == 'NotEq':
            return b_not(self.eq_np(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'LtE':
            return b_not(lt(b, a))
        return b_not(lt(a, b))

    def never_none(self, x, depth=0):
        if x.op == 'const':
            return x is not NONE
        if x.op == 'ite':
            return self.never_none(x.a[1], depth) and self.never_none(x.a[2], depth)
        if x.op in NOT_NONE or is_num(x) or is_str(x):
            return True
        if x.op in ('idx', 'attr') and self.typeof(x) == ('int',):
            return True
        if x.op == 'idx' and x.a[0].op == 'dict' and depth < 3:
            # one of the values put in
            def val(s):
                if s.op == 'g':
                    return val(s.a[1])
                if s.op == 'star':
                    return all(val(y) for y in s.a[4])
                if s.op in ('kv', 'put', 'inc'):
                    return self.never_none(s.a[1], depth + 1)
                return False
            return bool(x.a[0].a) and all(val(s) for s in x.a[0].a)
        return False

    def eq_np(self, a, b):
        return eq(a, b)

    def contains(self, k, c, st):
        k = self.freeze(k, st)
        if c.op == 'ite':
            return lift(lambda x: self.contains(k, x, st), c)
        if k.op == 'ite':
            return lift(lambda x: self.contains(x, c, st), k)
        if c.op == 'mcall' and c.a[1] == 'keys':
            c = c.a[0]
        if c.op == 'call' and c.a[0].op == 'ref' and c.a[0].a[0] in ('builtins.set', 'builtins.frozenset', 'builtins.list', 'builtins.tuple') and len(c.a[1]) == 1:
            c = c.a[1][0]
        segs = self.content(st, c)
        if segs is not None and not (len(segs) == 1 and segs[0].op == 'old'):
            if c.op == 'obj' and c.a[0] == 'dict' or c.op == 'dict' or c in st.heap and c.op != 'obj':
                r = FALSE
                for i, s in enumerate(segs):
                    g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
                    if e.op == 'fac':
                        continue
                    if e.op in ('kv', 'put'):
                        q = self.same_key(e.a[0], k)
                        if q is None:
                            return self.in_atom(k, self.freeze(c, st))
                        r = b_or(r, b_and(g, q))
                    elif e.op == 'del':
                        q = self.same_key(e.a[0], k)
                        if q is None:
                            return self.in_atom(k, self.freeze(c, st))
                        r = b_and(r, b_not(b_and(g, q)))
                    elif e.op == 'old':
                        r = b_or(r, self.in_atom(k, e.a[0]))
                    else:
                        return self.in_atom(k, self.freeze(c, st))
                return r
            if len(segs) <= 12 and all(s.op == 'item' or s.op == 'g' and s.a[1].op == 'item' for s in segs):
                r = FALSE
                for s in segs:
                    g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
                    r = b_or(r, b_and(g, eq(k, self.freeze(e.a[0], st))))
                return r
            if len(segs) == 1 and segs[0].op == 'star':
                h, dom, brk, car, body = segs[0].a
                if brk is FALSE and not car and len(body) == 1 and body[0].op == 'item' and dom.op == 'len' \
                        and body[0].a[0] is idx(dom.a[0], mk('iterk', h)):
                    return self.in_atom(k, dom.a[0])
            return self.in_atom(k, self.freeze(c, st))
        return self.in_atom(k, self.freeze(c, st))

    def in_atom(self, k, c):
        if is_const(k, str) and is_const(c, str):
            return const(k.a[1] in c.a[1])
        if c.op in ('list', 'gen', 'tuple', 'set'):
            c = mk('list', *c.a)
        return atom(mk('in', k, c))

    def same_key(self, a, b):
        if a is b:
            return TRUE
        if distinct(a, b):
            return FALSE
        if a.op == 'const' or b.op == 'const':
            return eq(a, b)
        return eq(a, b)

    # ------------------------------------------------------------ sequences
    def seq(self, v, st):
        """the elements of an iterable as segments"""
        if v.op == 'ite':
            a, b = self.seq(v.a[1], st), self.seq(v.a[2], st)
            return list(merge_segs(atom(v.a[0]), tuple(a), tuple(b)))
        if v.op == 'obj' and v.a[0] == 'dict' or v.op == 'dict':
            segs = self.content(st, v)
            if all(is_kv_seg(s) for s in segs):
                return map_segs(segs, lambda e: mk('item', e.a[0]) if e.op == 'kv' else None)
        segs = self.content(st, v)
        if (v.op == 'obj' and v.a[0] == 'set' or v.op == 'set') and segs and not (len(segs) == 1 and segs[0].op == 'item'):
            return self.seq_unknown(self.freeze(v, st), st)  # neither the order nor the multiplicity of what was put in
        if segs is not None and all(ok_iter(s) for s in segs):
            out = []
            for s in segs:
                if s.op == 'old':
                    out.extend(self.seq_unknown(s.a[0], st))
                else:
                    out.append(s)
            return out
        return self.seq_unknown(self.freeze(v, st), st)

    def seq_unknown(self, fz, st):
        if fz.op == 'call' and fz.a[0].op == 'ref' and len(fz.a[1]) == 1 and not fz.a[2]:
            q = fz.a[0].a[0]
            if q in ('builtins.list', 'builtins.tuple', 'builtins.iter'):
                return self.seq_unknown(fz.a[1][0], st)
        if fz.op in ('list', 'gen', 'tuple', 'tup') and all(ok_iter(s) and s.op != 'old' for s in fz.a if fz.op != 'tup'):
            return list(fz.a) if fz.op != 'tup' else [mk('item', x) for x in fz.a]
        if is_const(fz, str) and len(fz.a[1]) <= UNROLL:
            return [mk('item', const(ch)) for ch in fz.a[1]]
        u = uid()
        k = mk('iterk', u)
        dom, e = self.domain(fz, k)
        return [star_raw(u, dom, FALSE, (), (mk('item', e),))]

    def domain(self, fz, k):
        """(number of elements, k-th element) of an unknown iterable"""
        if fz.op == 'call' and fz.a[0].op == 'ref':
            q = fz.a[0].a[0]
            if q == 'builtins.range':
                a = fz.a[1]
                lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
                s = pconst(step)
                if s == 1:
                    return nn(psub(hi, lo)), padd(lo, k)
                if s == -1:
                    # hi+1 .. lo downwards
                    n = psub(lo, hi)
                    return nn(n), psub(lo, k)
            if q == 'builtins.reversed' and len(fz.a[1]) == 1:
                x = fz.a[1][0]
                d, _ = self.domain(x, k)
                _, e = self.domain(x, psub(psub(d, ONE), k))
                return d, e
            if q == 'builtins.enumerate':
                x = fz.a[1][0]
                start = fz.a[1][1] if len(fz.a[1]) > 1 else dict(fz.a[2]).get('start', ZERO)
                d, e = self.domain(x, k)
                return d, mk('tup', padd(start, k), e)
            if q == 'builtins.zip':
                ds, es = [], []
                for x in fz.a[1]:
                    d, e = self.domain(x, k)
                    if d not in ds:
                        ds.append(d)
                    es.append(e)
                ds = [d for d in ds if d is not INF] or [INF]
                return nn(minmax('min', *ds)) if len(ds) > 1 else nn(ds[0]), mk('tup', *es)
            if q == 'itertools.count':
                a = fz.a[1]
                return INF, padd(a[0] if a else ZERO, k)
        if fz.op == 'mcall' and not fz.a[2] and not fz.a[3]:
            b = plain_dict(fz.a[0])
            kk = mk('keyat', b, k)
            if fz.a[1] == 'items':
                return length(b), mk('tup', kk, idx(b, kk))
            if fz.a[1] == 'keys':
                return length(b), kk
            if fz.a[1] == 'values':
                return length(b), idx(b, kk)
        if fz.op == 'tup' and len(fz.a) == 1:
            return ONE, fz.a[0]
        if fz.op == 'slc' and fz.a[3] is NONE and fz.a[2] is NONE:
            lo = pconst(fz.a[1])
            if isinstance(lo, int) and lo >= 0:     # x[c:]
                d, _ = self.domain(fz.a[0], k)
                _, e = self.domain(fz.a[0], padd(k, const(lo)))
                return nn(psub(d, const(lo))), e
        if fz.op in ('list', 'gen') and len(fz.a) == 1 and fz.a[0].op == 'star' and plain_star(fz.a[0]):
            h, d, _, _, bd = fz.a[0].a
            return d, subst(bd[0].a[0], {mk('iterk', h): k})
        if fz.op == 'dict':
            fz = plain_dict(fz)
            return length(fz), mk('keyat', fz, k)
        e = idx(fz, k)
        ty = self.typeof(fz)
        if ty and ty[0] == 'list' and ty[1] and e.op == 'idx':
            self.types[e] = ty[1]
        if ty and ty[0] == 'dict' or ty is None and fz in self.mappings:
            e = mk('keyat', fz, k)
        return length(fz), e

    def for_each(self, v, st, body, has_exit, enum=None):
        """run body(st, element) for the elements of v; returns the state after"""
        if v.op == 'ite':
            return self.per_case(v.a[0], st, lambda q, pol: self.for_each(v.a[1] if pol else v.a[2], q, body, has_exit, enum))
        fz = v
        if v.op == 'call' and v.a[0].op == 'ref' and v.a[0].a[0] == 'builtins.enumerate':
            inner = v.a[1][0]
            start = v.a[1][1] if len(v.a[1]) > 1 else dict(v.a[2]).get('start', ZERO)
            if inner.op == 'ite':
                return self.for_each(ite(atom(inner.a[0]), mk('call', v.a[0], (inner.a[1], start), ()), mk('call', v.a[0], (inner.a[2], start), ())), st, body, has_exit)
            s = self.seq(inner, st)
            a = common_case(s)
            if a is not None:
                def under(q, pol):
                    x = self.alloc(q, 'gen', guards_under(s, a, pol))
                    return self.for_each(mk('call', v.a[0], (x, start), ()), q, body, has_exit)
                return self.per_case(a, st, under)
            if len(s) == 1 and s[0].op == 'star' and plain_star(s[0]):
                return self.star_loop(s[0], st, body, has_exit, start)
            if concrete(s):
                return self.unroll(s, st, body, enum=start)
            name = f'#enum{uid()}'
            st.env[name] = start

            def body2(st, e):
                c = st.env[name]
                st.env[name] = padd(c, ONE)
                return body(st, mk('tup', c, e))
            r = self.run_segs(s, st, body2, has_exit)
            return r
        if v.op == 'call' and v.a[0].op == 'ref' and v.a[0].a[0] == 'builtins.zip' and v.a[1]:
            ss = [self.seq(x, st) for x in v.a[1]]
            if any(concrete(s) for s in ss):
                n = min(len(s) for s in ss if concrete(s))
                if n <= UNROLL and not any(s2.op == 'g' for s in ss for s2 in s if concrete(s)):
                    items = []
                    for i in range(n):
                        row = []
                        for x, s in zip(v.a[1], ss):
                            row.append(s[i].a[0] if concrete(s) else self.index(x, const(i), st))
                        items.append(mk('item', mk('tup', *row)))
                    return self.unroll(items, st, body)
            ls = [length(mk('list', *[self.freeze(y, st) for y in s])) for s in ss]
            doms = []
            for d in ls:
                if d not in doms:
                    doms.append(d)
            dom = nn(minmax('min', *doms) if len(doms) > 1 else doms[0])
            fz = [mk('list', *[self.freeze(y, st) for y in s]) for s in ss]

            def elem(k):
                row = []
                for s, f in zip(ss, fz):
                    e = None
                    if len(s) == 1 and s[0].op == 'star' and plain_star(s[0]):
                        h, d0, _, _, bd = s[0].a
                        e = subst(bd[0].a[0], {mk('iterk', h): k})
                    else:
                        e = idx(f, k)
                    row.append(e)
                return mk('tup', *row)
            return self.loop(st, dom, lambda s, k: body(s, elem(k)), has_exit)
        s = self.seq(v, st)
        a = common_case(s)
        if a is not None:
            return self.per_case(a, st, lambda q, pol: self.for_each(self.alloc(q, 'gen', guards_under(s, a, pol)), q, body, has_exit))
        return self.run_segs(s, st, body, has_exit)

    def per_case(self, a, st, f):
        """f(state, whether a) for both cases"""
        c = atom(a)
        s1, s2 = st.copy(), st
        pc0 = st.pc
        s1.pc, s2.pc = b_and(pc0, c), b_and(pc0, b_not(c))
        if s1.pc is FALSE:
            return f(s2, False)
        if s2.pc is FALSE:
            return f(s1, True)
        self.narrow(s1, c)
        self.narrow(s2, b_not(c))
        return self.after_if(c, f(s1, True), f(s2, False), pc0)

    def run_segs(self, segs, st, body, has_exit):
        if concrete(segs) and len(segs) <= UNROLL:
            return self.unroll(segs, st, body)
        if len(segs) == 1:
            return self.one_seg(segs[0], st, body, has_exit)
        if has_exit or len(segs) > 8:
            fz = mk('list', *[self.freeze(s, st) for s in segs])
            return self.loop(st, length(fz), lambda s, k: body(s, idx(fz, k)), has_exit)
        for s in segs:
            st = self.one_seg(s, st, body, has_exit)
            if st is None or st is RAISE:
                return st
        return st

    def one_seg(self, s, st, body, has_exit):
        if s.op == 'item':
            return body(st, s.a[0])
        if s.op == 'g':
            s1, s2 = st.copy(), st.copy()
            s1.pc = b_and(st.pc, s.a[0])
            self.narrow(s1, s.a[0])
            r = self.one_seg(s.a[1], s1, body, has_exit)
            if not isinstance(r, State):
                return s2
            m = self.merge(s.a[0], r, s2)
            m.pc = st.pc
            return m
        if s.op == 'star':
            return self.star_loop(s, st, body, has_exit)
        raise Undecided('iteration over ' + s.op)

    def star_loop(self, s, st, body, has_exit, enum=None):
        h, dom, brk, car, segs = s.a
        if brk is FALSE and car and not (has_exit and len(segs) != 1) and all(x[0].op != 'undef' for x in car):
            # the producer's own variables go round with the consumer
            names = [f'#gen{uid()}' for _ in car]
            for nm, x in zip(names, car):
                st.env[nm] = x[0]

            def b3(q, k):
                m = {mk('iterk', h): k}
                for i, nm in enumerate(names):
                    m[mk('lc', h, i)] = self.freeze(q.env[nm], q)
                sub = subst(segs, m)
                nxt = [subst(x[1], m) for x in car]
                for x in sub:
                    bd = body if enum is None else (lambda q2, e: body(q2, mk('tup', padd(enum, k), e)))
                    q = self.one_seg(x, q, lambda q2, e: self.iter_body(q2, bd, e), has_exit)
                    if not isinstance(q, State):
                        return q
                for nm, v in zip(names, nxt):
                    q.env[nm] = v
                return q
            if enum is None or len(segs) == 1 and segs[0].op == 'item':
                r = self.loop(st, dom, b3, has_exit)
                if isinstance(r, State):
                    for nm in names:
                        r.env.pop(nm, None)
                return r
        if (brk is not FALSE or car) or (has_exit and len(segs) != 1):
            fz = mk('list', self.freeze(s, st))
            return self.loop(st, length(fz), lambda q, k: body(q, idx(fz, k) if enum is None else mk('tup', padd(enum, k), idx(fz, k))), has_exit)

        def b2(q, k):
            sub = subst(segs, {mk('iterk', h): k})
            for x in sub:
                if enum is not None:
                    bd = lambda q2, e: body(q2, mk('tup', padd(enum, k), e))
                else:
                    bd = body
                q = self.one_seg(x, q, bd if len(sub) == 1 else lambda q2, e: self.iter_body(q2, bd, e), has_exit)
                if not isinstance(q, State):
                    return q
            return q
        return self.loop(st, dom, b2, has_exit)

    def unroll(self, segs, st, body, enum=None):
        fr = self.fr()
        ctx = fr.loops[-1] if fr.loops else None
        n = enum
        alive = st
        pc0 = st.pc
        for s in segs:
            g, e = (s.a[0], s.a[1].a[0]) if s.op == 'g' else (TRUE, s.a[0])
            if enum is not None:
                e = mk('tup', n, e)
                n = lift(lambda a: a, ite(g, padd(n, ONE), n))
            if g is TRUE:
                alive = self.iter_body(alive, body, e)
            else:
                s1, s2 = alive.copy(), alive.copy()
                s1.pc = b_and(alive.pc, g)
                s2.pc = b_and(alive.pc, b_not(g))
                r = self.iter_body(s1, body, e)
                alive = self.after_if(g, r, s2, alive.pc)
            if not isinstance(alive, State):
                return alive
        return alive

    def iter_body(self, st, body, e):
        """one unrolled iteration: continue-exits rejoin"""
        fr = self.fr()
        if not fr.loops:
            return body(st, e)
        ctx = fr.loops[-1]
        saved, ctx.conts = ctx.conts, []
        r = body(st, e)
        conts, ctx.conts = ctx.conts, saved
        return self.rejoin(conts, r)

    def rejoin(self, exits, last):
        """merge states that left a region early (disjoint conditions) with the one that fell through"""
        sts = list(exits)
        if isinstance(last, State):
            sts.append(last)
        if not sts:
            return last
        acc = sts[-1]
        for s in reversed(sts[:-1]):
            pc = b_or(s.pc, acc.pc)
            acc = self.merge(simplify(s.pc, pc), s, acc)
            acc.pc = pc
        return acc

    def after_if(self, c, r1, r2, pc0, t1=None, t2=None):
        """t1, t2: what was done before refusing, where a case refuses"""
        s1, s2 = isinstance(r1, State), isinstance(r2, State)
        if s1 and s2:
            pc = b_or(r1.pc, r2.pc)
            m = self.merge(c, r1, r2)
            m.pc = pc
            return m
        if s1:
            if r2 is RAISE:
                self.refuses(r1, b_not(c), t2)
                r1.pc = b_or(r1.pc, b_and(pc0, b_not(c)))
            return r1
        if s2:
            if r1 is RAISE:
                self.refuses(r2, c, t1)
                r2.pc = b_or(r2.pc, b_and(pc0, c))
            return r2
        if r1 is RAISE and r2 is RAISE:
            if t1 is not None and t2 is not None:
                k = shared_prefix(t1, t2)
                self.raise_tr = t1[:k] + tuple(guard(c, x) for x in t1[k:]) + tuple(guard(b_not(c), x) for x in t2[k:])
            return RAISE
        return None

    # ------------------------------------------------------------ loops
    def loop(self, st, dom, body, has_exit, while_test=None):
        """close a loop: body(state, k) -> state;  returns the state after the loop"""
        if dom is ZERO:
            return st
        fr = self.fr()
        pre = st
        mods_env, mods_heap, mods_attr = set(), set(), set()
        objvars, vtypes = {}, {}
        u = uid()
        k = mk('iterk', u)
        for rnd in range(8):
            s0 = State(dict(pre.env), dict(pre.heap), dict(pre.attrs), (), TRUE)
            syms = {}
            for n in sorted(mods_env):
                v = pre.env.get(n)
                c = mk('lc', u, 'e:' + n)
                if n in objvars:
                    o = mk('obj', objvars[n], uid())
                    s0.heap[o] = (mk('old', c),)
                    s0.env[n] = o
                else:
                    s0.env[n] = c
                    ty = self.typeof(v) if v is not None else None
                    ty = ty or vtypes.get(n)
                    if ty:
                        self.types[c] = ty
                syms[('e', n)] = c
            for o in mods_heap:
                c = mk('lc', u, f'h:{o.n}')
                s0.heap[o] = (mk('old', c),)
                ty = self.typeof(o)
                if ty:
                    self.types[c] = ty
                syms[('h', o)] = c
            for a in mods_attr:
                c = mk('lc', u, f'a:{a[0].n}:{a[1]}')
                v = pre.attrs.get(a)
                if ('a', a) in objvars:
                    o = mk('obj', objvars[('a', a)], uid())
                    s0.heap[o] = (mk('old', c),)
                    s0.attrs[a] = o
                else:
                    s0.attrs[a] = c
                    ty = self.typeof(mk('attr', *a)) if a[0].op != 'obj' else None
                    if ty:
                        self.types[c] = ty
                syms[('a', a)] = c
            start = s0.copy()
            ctx = LoopCtx()
            fr.loops.append(ctx)
            n_ex = len(fr.exits)
            r = None
            brk_test = FALSE
            s1 = s0
            if while_test is not None:
                t = while_test(s1)
                if t is not TRUE:
                    b = s1.copy()
                    b.pc = b_not(t)
                    if t is not FALSE:
                        ctx.breaks.append(b)
                        s1.pc = t
                        r = body(s1, k)
                    else:
                        ctx.breaks.append(b)
                        r = None
                else:
                    r = body(s1, k)
            else:
                r = body(s1, k)
            fr.loops.pop()
            rets = fr.exits[n_ex:]
            del fr.exits[n_ex:]
            normal = self.rejoin(ctx.conts, r)
            outs = ([normal] if isinstance(normal, State) else []) + ctx.breaks + [s for s, _ in rets]
            # what the body modifies
            ne, nh, na = set(mods_env), set(mods_heap), set(mods_attr)
            nobj = dict(objvars)
            for s in outs:
                for n, v in s.env.items():
                    if start.env.get(n) is not v:
                        ne.add(n)
                for o, v in s.heap.items():
                    if o in start.heap:
                        if start.heap[o] != v and o in pre.heap:
                            nh.add(o)
                    elif o.op != 'obj' and not varies(o, u):
                        nh.add(o)
                for a, v in s.attrs.items():
                    if a in start.attrs:
                        if start.attrs[a] is not v:
                            na.add(a)
                    elif not varies(a[0], u) and not (a[0].op == 'obj' and a[0] not in pre.heap):
                        na.add(a)
            for n in ne:
                v0 = pre.env.get(n)
                kinds = self.carried_kinds(v0, [s.env.get(n) for s in outs], pre)
                if kinds and n not in nobj:
                    nobj[n] = kinds
            for a in na:
                kinds = self.carried_kinds(pre.attrs.get(a), [s.attrs.get(a) for s in outs], pre, alt=True)
                if kinds and ('a', a) not in nobj:
                    nobj[('a', a)] = kinds
            nty = {}
            for n in ne:
                tys = set()
                for v in [pre.env.get(n)] + [s.env.get(n) for s in outs]:
                    for x in (leaves(v) if v is not None else ()):
                        if x.op in ('const', 'undef') or x.op == 'lc' and x.a == (u, 'e:' + n):
                            if x.op == 'const' and x is not NONE:
                                tys.add(None)
                            continue
                        ty = self.typeof(x)
                        tys.add(ty if ty and ty[0] == 'cls' else None)
                if len(tys) == 1 and None not in tys:
                    nty[n] = tys.pop()
            # containers that are only reachable through a carried variable are carried by that variable
            for n, kd in nobj.items():
                v0 = pre.env.get(n) if isinstance(n, str) else pre.attrs.get(n[1])
                if v0 is not None and v0.op == 'obj' and v0 in nh and n not in objvars:
                    nh.discard(v0)
            if ne == mods_env and nh == mods_heap and na == mods_attr and nobj == objvars and (rnd > 4 or not set(nty) - set(vtypes)):
                break
            mods_env, mods_heap, mods_attr, objvars, vtypes = ne, nh, na, nobj, nty
        else:
            raise Undecided('loop did not stabilise')
        return self.close_loop(pre, dom, u, k, syms, normal, ctx, rets, objvars, while_test is not None)

    def carried_kinds(self, v0, outs, pre, alt=False):
        """the container kind when a carried variable always holds a local container"""
        vs = [v0] + [x for v in outs if v is not None for x in leaves(v)]
        fresh = [v for v in vs[1:] if v is not UNDEF and v.op == 'obj' and v not in pre.heap]
        if not fresh:
            return None
        kind = None
        for v in vs:
            if v is None or v is UNDEF:
                continue
            if v.op == 'obj' and v.a[0] in CONTAINERS:
                kind = kind or v.a[0]
                if kind != v.a[0]:
                    return None
            elif v.op == 'ite':
                continue
            elif v.op in ('lc', 'param', 'attr', 'idx', 'slc', 'add', 'mcall', 'call', 'post', 'list', 'tup', 'cat'):
                continue
            else:
                return None
        return kind

    def fz_at(self, v, s):
        if v is None:
            return UNDEF
        if v.op == 'ite':
            return ite(atom(v.a[0]), self.fz_at(v.a[1], s), self.fz_at(v.a[2], s))
        return self.freeze(v, s)

    def close_loop(self, pre, dom, u, k, syms, normal, ctx, rets, objvars, is_while):
        fr = self.fr()
        alive = isinstance(normal, State)
        breaks = ctx.breaks
        settled = {}
        if dom is INF and alive and breaks and (len(breaks) > 1 or rets):
            nd = self.first_test(pre, breaks[0], normal, syms, k, u)
            if nd is not None:
                # the first way out is the end of a count
                dom = nd
                a = breaks[0].pc
                settled = {a.a[0]: FALSE if a.a[1] is TRUE else TRUE}
                breaks = breaks[1:]
        # condition of leaving in this iteration
        brk = FALSE
        for s in breaks:
            brk = b_or(brk, s.pc)
        ret = FALSE
        for s, v in rets:
            ret = b_or(ret, s.pc)
        out = b_or(brk, ret)
        if not alive and not breaks and not rets:
            self.raise_tr = None
            return RAISE
        if not alive:
            out = TRUE
        car = {}
        exit_states = breaks + [s for s, _ in rets]

        def whole(v, key):
            # a carried container: one container with conditional content
            kd = objvars.get(key[1] if key[0] == 'e' else key)
            if kd and v.op == 'ite' and all(x.op == kd or x.op == 'lc' and x.a[0] == u for x in leaves(v)):
                def segs(x):
                    if x.op == 'ite':
                        return merge_segs(atom(x.a[0]), segs(x.a[1]), segs(x.a[2]))
                    return x.a if x.op == kd else (mk('old', x),)
                return mk(kd, *clean(sort_inc(segs(v))))
            return v

        def val(s, key):
            if key[0] == 'e':
                return whole(self.fz_at(s.env.get(key[1]), s), key)
            if key[0] == 'a':
                v = s.attrs.get(key[1])
                return whole(self.fz_at(v, s), key) if v is not None else attr(*key[1])
            segs = s.heap.get(key[1], (mk('old', key[1]),))
            if len(segs) == 1 and segs[0].op == 'old':
                return segs[0].a[0]
            return mk(self.kind_of(key[1]), *clean(sort_inc([self.freeze(x, s) for x in segs])))

        def joined(key_fn, states):
            acc = None
            for s in reversed(states):
                v = key_fn(s)
                if acc is None:
                    acc, pc = v, s.pc
                else:
                    tot = b_or(s.pc, pc)
                    acc = jn(simplify(s.pc, tot), v, acc)
                    pc = tot
            return acc
        for key, c in syms.items():
            init = val(pre, key) if key[0] != 'e' or key[1] in pre.env else UNDEF
            nxt = val(normal, key) if alive else c
            ex = joined(lambda s: val(s, key), exit_states) if exit_states else nxt
            if init.op == 'dict' and nxt.op == 'dict':
                (nxt, f), (ex, f2) = with_default(c, nxt), with_default(c, ex)
                if f is not None and f2 in (None, f) and not any(x.op == 'fac' for x in init.a):
                    init = mk('dict', mk('fac', f), *init.a)
            car[c] = [init, nxt, ex, key]
        # trace of one iteration
        tn = tuple(self.freeze(x, normal) for x in normal.trace) if alive else ()
        if exit_states:
            te, pcs = None, None
            for s in reversed(exit_states):
                t = tuple(self.freeze(x, s) for x in s.trace)
                if te is None:
                    te, pcs = t, s.pc
                else:
                    tot = b_or(s.pc, pcs)
                    te, pcs = merge_segs(simplify(s.pc, tot), t, te), tot
            trace = merge_segs(out, te, tn) if alive else te
        else:
            trace = tn
        # writes to attributes of the nodes of this iteration
        logs = {}
        for s, pc in ([(normal, b_not(out))] if alive else []) + [(s, s.pc) for s in exit_states]:
            for (b, n), v in s.attrs.items():
                if varies(b, u) and (b, n) not in pre.attrs:
                    logs.setdefault((b, n), []).append((pc, self.fz_at(v, s)))
            for o, segs in s.heap.items():
                if o.op != 'obj' and varies(o, u) and o not in pre.heap:
                    new = [x for x in segs if not (x.op == 'old' and x.a[0] is o)]
                    logs.setdefault((o, None), []).append((pc, tuple(self.freeze(x, s) for x in new)))
        fieldlog = []
        for (b, n), vs in logs.items():
            if n is None:
                for pc, segs in vs:
                    fieldlog += [guard(pc if len(vs) > 1 else TRUE, mk('ev', 'mutate', (b, x), ())) for x in segs]
            else:
                v = None
                for pc, x in reversed(vs):
                    v = x if v is None else ite(pc, x, v)
                if v is not mk('attr', b, n):
                    fieldlog.append(mk('ev', 'setfield:' + n, (b, v), ()))
        fieldlog.sort(key=lambda t: tuple(str(show(t))))
        rv = None
        if rets:
            pcs = None
            for s, v in reversed(rets):
                x = self.fz_at(v, s)
                if rv is None:
                    rv, pcs = x, s.pc
                else:
                    tot = b_or(s.pc, pcs)
                    rv, pcs = ite(simplify(s.pc, tot), x, rv), tot
        trace = trace + tuple(fieldlog)
        # ------------------------------------------------ reductions
        done = {}

        def sub_all(m):
            nonlocal out, brk, ret, rv, trace
            out, brk, ret = subst(out, m), subst(brk, m), subst(ret, m)
            rv = subst(rv, m) if rv is not None else None
            trace = subst(trace, m)
            for c in car:
                i, n, e, key = car[c]
                car[c] = [i, subst(n, m), subst(e, m), key]
            for c in done:
                kind, x = done[c]
                done[c] = (kind, subst(x, m))
        if settled:
            sub_all(settled)
        changed = True
        shifted = {}
        while changed:
            changed = False
            for c in list(car):
                i, n, e, key = car[c]
                if n is i and not varies(i, u) or (n is c):
                    # keeps its initial value (until the exit)
                    del car[c]
                    if e is c or e is i or not exit_states:
                        done[c] = ('val', i)
                    else:
                        done[c] = ('exit', (i, e))
                    sub_all({c: i})
                    changed = True
                    break
                if i.op != 'undef' and (is_num(n) or n.op in ('add', 'poly')) and n.op != 'ite':
                    d = psub(n, c)
                    if not varies(d, u):
                        del car[c]
                        v = padd(i, pmul(d, k))
                        if out is FALSE:
                            done[c] = ('val', padd(i, pmul(d, dom)) if dom is not INF else UNDEF)
                        else:
                            done[c] = ('gen', (v, subst(n, {c: v}), subst(e, {c: v})))
                        sub_all({c: v})
                        changed = True
                        break
                if i.op != 'undef' and n.op != 'ite' and dom is not INF and has_op(n, 'iterk') and not any(t.op == 'lc' and t.a[0] == u for t in walk(n)) \
                        and subst(n, {k: const(-1)}) is i:
                    # the next value follows from the position
                    del car[c]
                    v = subst(n, {k: psub(k, ONE)})
                    if out is FALSE:
                        done[c] = ('val', subst(n, {k: psub(dom, ONE)}))
                    else:
                        done[c] = ('gen', (v, n, subst(e, {c: v})))
                    sub_all({c: v})
                    changed = True
                    break
                if i.op != 'undef' and i is not ZERO and c not in shifted and (is_num(i) or is_num(n)) and not varies(i, u) and key[0] != 'shift' \
                        and all(is_num(x) or x is c for x in leaves(n)) and not any(contains_any((psub(x, c),), c) for x in leaves(n)) \
                        and contains_any((out, trace, rv or NONE) + tuple((x[1], x[2]) for cc, x in car.items() if cc is not c) + (n.a[0],) if n.op == 'ite' else (NONE,), c):
                    # counts from somewhere: the count itself
                    c2 = mk('lc', u, ('from', c.a[1]))
                    m = {c: padd(c2, i)}
                    del car[c]
                    sub_all(m)
                    car[c2] = [ZERO, psub(subst(n, m), i), psub(subst(e, m), i) if e is not c else c2, ('shift',)]
                    shifted[c] = (c2, i)
                    changed = True
                    break
                # a container whose length is all that the loop reads of it
                app = self.appended(c, n, e, exit_states)
                if app is not None:
                    ln = mk('len', c)
                    if out is FALSE or True:
                        tot = ZERO
                        for s in app[0]:
                            q = count(s)
                            tot = None if q is None or tot is None else padd(tot, q)
                        if tot is not None and pconst(tot) is not None and (contains_any((out, trace, rv or NONE) + tuple((x[1], x[2]) for cc, x in car.items()), ln)):
                            m = {ln: padd(length(i), pmul(tot, k))}
                            sub_all(m)
                            changed = True
                            break
                        if tot is not None and pconst(tot) is None and i.op != 'undef' and not varies(i, u) and not contains_any((tot,), c) \
                                and contains_any((out, trace, rv or NONE) + tuple((x[1], x[2]) for cc, x in car.items()), ln):
                            # a number that grows with it
                            tx = ZERO
                            for s in app[1] if exit_states else ():
                                q = count(s)
                                tx = None if q is None or tx is None else padd(tx, q)
                            if tx is not None:
                                c2 = mk('lc', u, ('len', c.a[1]))
                                sub_all({ln: padd(length(i), c2)})
                                grow = lambda d: lift(lambda y: padd(c2, y), subst(d, {ln: padd(length(i), c2)}))
                                car[c2] = [ZERO, grow(tot), grow(tx) if exit_states else grow(tot), ('shift',)]
                                changed = True
                                break
                # the same number twice
                twin = next((x for x, (i2, n2, e2, _) in car.items() if x is not c and i2 is i and is_num(i) and n.op == 'ite' and n2.op == 'ite'
                             and subst(n, {c: x}) is n2 and subst(e, {c: x}) is e2), None) if i.op != 'undef' and key[0] != 'shift' else None
                if twin is not None:
                    del car[c]
                    sub_all({c: twin})
                    shifted[c] = (twin, ZERO)
                    changed = True
                    break
        # while loops that count
        if out is not FALSE and dom is INF and not rets:
            nd = self.counted(out, k, u)
            if nd is not None and alive:
                ok = True
                m = {out.a[0]: FALSE if out.a[1] is TRUE else TRUE}
                for c, (i, n, e, key) in car.items():
                    if e is not c:
                        ok = False
                for c in done:
                    kind, x = done[c]
                    if kind == 'gen' and x[2] is not x[0]:
                        ok = False
                if ok:
                    dom = nd
                    out = brk = FALSE
                    exit_states = []
                    sub_all(m)
                    for c in done:
                        kind, x = done[c]
                        if kind == 'gen':
                            v = x[0]
                            done[c] = ('val', subst(v, {k: dom}))
        st = pre.copy()
        # ------------------------------------------------ values after the loop
        exited = TRUE
        if out is not FALSE and dom is not INF:
            exited = self.some(u, dom, out) if not any(t.op == 'lc' and t in car for t in walk(out)) else truthy(self.post(u, dom, out, car, (FALSE, FALSE, TRUE)))
        elif out is FALSE:
            exited = FALSE
        res = {}
        for c, (kind, x) in list(done.items()):
            if kind == 'val':
                res[c] = x
            elif kind == 'exit':
                i, e = x
                xv = self.post(u, dom, out, car, (UNDEF, UNDEF, e)) if varies(e, u) else e
                res[c] = ite(exited, xv, i)
            else:
                v, n, e = x
                res[c] = self.post(u, dom, out, car, (subst(v, {k: ZERO}), n, e))
        for c, (i, n, e, key) in car.items():
            app = self.appended(c, n, e, exit_states)
            if app is not None:
                sn, se = app
                segs = merge_segs(out, se, sn) if exit_states and alive else (sn if alive else se)
                if not contains_any(segs, c):
                    star = self.star(u, dom, out, car, segs)
                    isegs = i.a if i.op in CONTAINERS else (mk('old', i),)
                    if star is None:
                        star = ()
                    kd = self.kind_of_key(key, objvars)
                    res[c] = mk(kd, *clean(tuple(isegs) + star))
                    continue
            if i.op != 'undef' and is_str(i):
                sn, se = str_tail(n, c), str_tail(e, c) if exit_states else ()
                if sn is not None and se is not None and (sn or se):
                    segs = merge_segs(out, se, sn) if exit_states and alive else (sn if alive else se)
                    if not contains_any(segs, c):
                        res[c] = cat(i, join_parts(const(''), self.star(u, dom, out, car, segs) or ()))
                        continue
            if out is FALSE and dom is not INF and i.op != 'undef' and (any(is_num(x) for x in leaves(i)) or is_num(n)):
                d = num_tail(n, c)
                d = psub(n, c) if d is None else d
                if not contains_any((d,), c):
                    s = self.star(u, dom, out, car, (mk('item', d),))
                    res[c] = padd(i, mk_sum(s[0])) if s else i
                    continue
            if out is FALSE and not varies(n, u) and i.op != 'undef' and False:
                res[c] = n
                continue
            res[c] = self.post(u, dom, out, car, (i, n, e), c)
        for c, (c2, i) in shifted.items():
            if res.get(c2) is not None:
                res[c] = padd(res[c2], i)
        for c, (init0, key) in [(c, (None, key)) for key, c in syms.items()]:
            v = res.get(c)
            if v is None:
                continue
            self.write_back(st, key, v, objvars)
        tr = self.star(u, dom, out, car, clean(tuple(x for x in trace)))
        if tr:
            st.trace = st.trace + tr
        # exits of the function from inside the loop
        if rets:
            r_exit = ret
            if ret is TRUE and dom is INF:
                flag = TRUE
            elif out is ret and not any(t.op == 'lc' and t in car for t in walk(out)):
                flag = self.some(u, dom, out)
            else:
                flag = truthy(self.post(u, dom, out, car, (FALSE, FALSE, ret)))
            if out is ret and dom is INF:
                flag = TRUE
            val_ = self.post(u, dom, out, car, (UNDEF, UNDEF, rv)) if varies(rv, u) else rv
            s2 = st.copy()
            s2.pc = b_and(pre.pc, flag)
            fr.exits.append((s2, val_))
            st.pc = b_and(pre.pc, b_not(flag))
            if flag is TRUE:
                return None
        st.env['#exited'] = exited
        if dom is INF and out is FALSE:
            # only an exception ends this loop: what it computes on the way is what the handler depends on
            live = set()
            for t in walk(tuple(x[1] for x in car.values()) + (trace,)):
                if t.op == 'lc' and t in car:
                    live.add(t)
            st.env['#endless'] = mk('log', *sorted({res[c] for c in live if c in res}, key=lambda t: t.n))
            self.endless = st
            self.raise_tr = None
            return RAISE if not rets else None
        return st

    def first_test(self, pre, b, normal, syms, k, u):
        """the trip count that a leading test of a counter gives"""
        p = b.pc
        if b.trace or p.op != 'ite' or p.a[0].op != 'lt0' or {p.a[1], p.a[2]} != {TRUE, FALSE}:
            return None
        m = {}
        for key, c in syms.items():
            if key[0] == 'e':
                v = b.env.get(key[1])
                if v is None or self.fz_at(v, b) is not c:
                    return None
            elif key[0] == 'a':
                if b.attrs.get(key[1]) is not c:
                    return None
            elif b.heap.get(key[1]) != (mk('old', c),):
                return None
            if contains(p, c):
                if key[0] != 'e' or key[1] not in pre.env:
                    return None
                i, n = self.fz_at(pre.env[key[1]], pre), self.fz_at(normal.env.get(key[1]), normal)
                if n.op == 'ite' or i.op in ('undef', 'ite'):
                    return None
                d = psub(n, c)
                if pconst(d) is None:
                    return None
                m[c] = padd(i, pmul(d, k))
        if not m:
            return None
        return self.counted(subst(p, m), k, u)

    def kind_of(self, o):
        if o.op == 'obj':
            return o.a[0] if o.a[0] in CONTAINERS else 'state'
        return 'list' if o in self.lists else 'dict'

    def kind_of_key(self, key, objvars):
        if key[0] == 'h':
            return self.kind_of(key[1])
        if key[0] == 'e':
            return objvars.get(key[1], 'list')
        return objvars.get(key, 'list')

    def write_back(self, st, key, v, objvars):
        if key[0] == 'h':
            st.heap[key[1]] = v.a if v.op in CONTAINERS or v.op == 'state' else (mk('old', v),)
            return
        kd = objvars.get(key[1] if key[0] == 'e' else key)
        if kd:
            o = mk('obj', kd, uid())
            st.heap[o] = v.a if v.op in CONTAINERS else (mk('old', v),)
            v = o
        elif v.op in CONTAINERS and key[0] != 'h':
            o = mk('obj', v.op, uid())
            st.heap[o] = v.a
            v = o
        if key[0] == 'e':
            st.env[key[1]] = v
        else:
            st.attrs[key[1]] = v

    def appended(self, c, n, e, exit_states):
        """(segments added on the way round, on the way out) when the container only grows"""
        def tail(x):
            if x is c:
                return ()
            if x.op in CONTAINERS and x.a and x.a[0].op == 'old' and x.a[0].a[0] is c:
                return x.a[1:]
            if x.op == 'ite':
                a, b = tail(x.a[1]), tail(x.a[2])
                if a is None or b is None:
                    return None
                return merge_segs(atom(x.a[0]), a, b)
            return None
        a = tail(n)
        if a is None:
            return None
        b = tail(e) if exit_states else ()
        if b is None:
            return None
        if not a and not b:
            return None
        return a, b

    def counted(self, out, k, u):
        """the trip count when leaving is decided by the loop counter alone"""
        if out.op != 'ite' or {out.a[1], out.a[2]} != {TRUE, FALSE} or out.a[0].op != 'lt0':
            return None
        p = to_poly(out.a[0].a[0])
        c = p.get((k,), 0)
        if c not in (1, -1):
            return None
        rest = from_poly({m: v for m, v in p.items() if m != (k,)})
        if varies(rest, u):
            return None
        # leave when  c*k + rest < 0  (or not)
        if out.a[1] is TRUE:
            if c == -1:    # rest - k < 0  <=> k > rest : trip = rest + 1
                return padd(rest, ONE)
            return None
        if c == 1:         # not (k + rest < 0) <=> k >= -rest
            return pneg(rest)
        return None

    # closed terms ------------------------------------------------
    def system(self, u, car, roots):
        """the carried variables the roots depend on, in canonical order"""
        need, st = [], [roots]
        seen = set()
        for t in walk(roots):
            if t.op == 'lc' and t.a[0] == u and t in car and t not in seen:
                seen.add(t)
                need.append(t)
        i = 0
        while i < len(need):
            ini, n, e, key = car[need[i]]
            for t in walk((n, e)):
                if t.op == 'lc' and t.a[0] == u and t in car and t not in seen:
                    seen.add(t)
                    need.append(t)
            i += 1
        return need

    def canon(self, u, car, need, out):
        col = {c: mk('sym', 'col', car[c][0]) for c in need}
        for _ in range(3):
            m = {c: col[c] for c in need}
            m[mk('iterk', u)] = mk('sym', 'round')
            new = {}
            for c in need:
                ini, n, e, key = car[c]
                new[c] = mk('sym', 'col', col[c], subst(n, m), subst(e, m) if out is not FALSE else NONE)
            col = new
        order = sorted(need, key=lambda c: col[c].n)
        return order

    def star(self, u, dom, out, car, segs):
        if not segs:
            return ()
        if dom is INF and out.op == 'ite' and out.a[0].op == 'truthy' and out.a[0].a[0].op == 'exc' and out.a[1] is TRUE and out.a[2] is FALSE:
            # it goes on until the exception: an unknown number of rounds, and part of one more
            a = out.a[0]
            n = mk('rounds', a.a[0])
            last = subst(segs, {a: TRUE})
            if not any(x.op == 'lc' and x in car for x in walk(last)):
                return self.star(u, n, FALSE, car, subst(segs, {a: FALSE})) + clean(subst(last, {mk('iterk', u): n}))
        need = self.system(u, car, (segs, out))
        order = self.canon(u, car, need, out)
        m = {c: mk('lc', u, i) for i, c in enumerate(order)}
        cc = tuple((car[c][0], subst(car[c][1], m), subst(car[c][2], m) if out is not FALSE else NONE) for c in order)
        t = star_raw(u, dom, subst(out, m), cc, subst(segs, m))
        if t.op == 'star' and not t.a[4]:
            return ()
        return (t,)

    def post(self, u, dom, out, car, triple, own=None):
        i, n, e = triple
        if out is not FALSE and dom is INF:
            # always leaves through the exit: only e matters at the end, n on the way
            pass
        tmp = own or mk('lc', u, 'own')
        car2 = dict(car)
        car2[tmp] = [i, n, e if out is not FALSE else n, None]
        need = self.system(u, car2, (tmp, out))
        order = self.canon(u, car2, need, out)
        m = {c: mk('lc', u, j) for j, c in enumerate(order)}
        cc = tuple((car2[c][0], subst(car2[c][1], m), subst(car2[c][2], m) if out is not FALSE else NONE) for c in order)
        return post_raw(u, dom, subst(out, m), cc, const(order.index(tmp)))

    # ============================================================ comprehensions
    def comp(self, n, st, kind):
        o = self.alloc(st, kind)
        saved = dict(st.env)
        fr = self.fr()

        def gen(i, st):
            if i == len(n.generators):
                if kind == 'dict':
                    kk = self.ev(n.key, st)
                    vv = self.ev(n.value, st)
                    seg = mk('kv', self.freeze(kk, st), vv)
                else:
                    seg = mk('item', self.ev(n.elt, st))
                st.heap[o] = st.heap[o] + (seg,)
                return st
            g = n.generators[i]
            it = self.ev(g.iter, st)

            def body(st, e):
                self.assign(g.target, e, st)
                c = TRUE
                for t in g.ifs:
                    c = b_and(c, self.cond(t, st))
                if c is FALSE:
                    return st
                if c is TRUE:
                    return gen(i + 1, st)
                s1, s2 = st.copy(), st.copy()
                r = gen(i + 1, s1)
                m = self.merge(c, r, s2)
                m.pc = st.pc
                return m
            fr.loops.append(LoopCtx())
            try:
                return self.for_each(it, st, body, False)
            finally:
                fr.loops.pop()
        r = gen(0, st)
        if not isinstance(r, State):
            raise Undecided('comprehension')
        env = {k: v for k, v in r.env.items() if k in saved}
        for k in saved:
            env[k] = r.env.get(k, saved[k])
        # loop variables of the comprehension do not leak
        tn = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for k in tn:
            if k in saved:
                env[k] = saved[k]
            else:
                env.pop(k, None)
        r.env = env
        st.take(r)
        return o

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'gen')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def e_Starred(self, n, st):
        return mk('starred', self.ev(n.value, st))

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value else NONE
        self.event(st, 'yield', (v,))
        return mk('sent')

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        segs = self.seq(v, st)
        out = tuple(map_seg(self.freeze(s, st), lambda e: mk('ev', 'yield', (e.a[0],), ()) if e.op == 'item' else e) for s in segs)
        st.trace = st.trace + out
        return NONE

    # ============================================================ calls
    def args(self, n, st):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.op == 'tup':
                    pos.extend(v.a)
                else:
                    s = self.seq(v, st)
                    if all(x.op == 'item' for x in s):
                        pos.extend(x.a[0] for x in s)
                    else:
                        pos.append(mk('starred', mk('list', *self.fseq(v, st))))
            else:
                pos.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                segs = self.content(st, v)
                if segs is not None and all(s.op == 'fac' or s.op in ('kv', 'put') and is_const(s.a[0], str) for s in segs):
                    for s in segs:
                        if s.op != 'fac':
                            kw[s.a[0].a[1]] = s.a[1]
                elif segs is not None and all(s.op == 'fac' or (s.op in ('kv', 'put') and is_const(s.a[0], str))
                                              or (s.op == 'g' and s.a[1].op in ('kv', 'put') and is_const(s.a[1].a[0], str)) for s in segs):
                    for s in segs:
                        if s.op == 'g':
                            key = s.a[1].a[0].a[1]
                            kw[key] = ite(s.a[0], s.a[1].a[1], kw.get(key, mk('absent')))
                        elif s.op != 'fac':
                            kw[s.a[0].a[1]] = s.a[1]
                else:
                    kw['**'] = self.freeze(v, st)
            else:
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, n, st):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            fr = self.fr()
            while fr.cls is None and fr.parent is not None:
                fr = fr.parent
            return mk('super', fr.recv if fr.recv is not None else NONE, fr.cls.qual, fr.exact.qual if fr.exact else fr.cls.qual)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            r = self.special_method(b, f.attr, n, st)
            if r is not None:
                return r
            if b.op not in ('ref', 'super'):
                pos, kw = self.args(n, st)
                return self.call_method(b, f.attr, pos, kw, st)
            fv = self.getattr(b, f.attr, st)
        else:
            fv = self.ev(f, st)
        pos, kw = self.args(n, st)
        return self.call(fv, pos, kw, st)

    def special_method(self, b, name, n, st):
        if name in IGNORED_METHODS:
            return NONE
        if b.op == 'ref' and (b.a[0] in ('nlcodec.log', 'logging', 'warnings') or b.a[0].startswith('logging.')):
            if name in ('getLogger', 'basicConfig'):
                return mk('ref', 'nlcodec.log')
            return NONE
        return None

    def call(self, f, pos, kw, st):
        if f.op == 'ite':
            c = atom(f.a[0])
            s2 = st.copy()
            a = self.call(f.a[1], pos, kw, st)
            b = self.call(f.a[2], pos, kw, s2)
            return self.branch_value(c, a, b, st, s2)
        if f.op == 'closure':
            return self.call_closure(f, [(None, p) for p in pos], kw, st)
        if f.op == 'bound':
            return self.call_method(f.a[0], f.a[1], pos, kw, st)
        if f.op == 'partial':
            return self.call(f.a[0], list(f.a[1]) + pos, {**dict(f.a[2]), **kw}, st)
        if f.op == 'ref':
            q = f.a[0]
            if q in self.w.fns:
                fn = self.w.fns[q]
                if fn.kind == 'method' and pos:
                    return self.call_method_fn(fn, pos[0], pos[1:], kw, st, None, False)
                return self.call_fn(fn, None, pos, kw, st, fn.cls, False)
            if q in self.w.classes:
                return self.construct(self.w.classes[q], pos, kw, st)
            return self.call_ext(q, pos, kw, st)
        if f.op == 'lam':
            if len(pos) == f.a[1] and not kw and f.a[2].op != 'tup':
                return subst(f.a[2], {mk('bv', f.a[0], i): self.freeze(p, st) for i, p in enumerate(pos)})
        return self.unknown_call(f, pos, kw, st)

    def unknown_call(self, f, pos, kw, st):
        if f.op == 'attr' and f.a[0].op != 'ref':
            if (f.a[0], f.a[1]) in st.attrs:
                # what was there before it was set
                return self.opaque_method(f.a[0], f.a[1], pos, kw, st)
            return self.call_method(f.a[0], f.a[1], pos, kw, st)
        f = self.freeze(f, st)
        c, _ = self.class_of(f) if f.op not in ('ref',) else (None, None)
        if c is not None and self.w.find_method(c, '__call__'):
            return self.call_method(f, '__call__', pos, kw, st)
        cs = self.choice_of_classes(f)
        if cs and pos and '**' not in kw:
            # the same parameters, whichever class it is
            ps = {(self.init_names(k) or ())[:len(pos)] for k in cs}
            names = ps.pop()
            if not ps and len(pos) == len(names) and not set(names[:len(pos)]) & set(kw):
                kw = dict(kw, **dict(zip(names, pos)))
                pos = []
        return mkcall('call', (f,), tuple(self.freeze(p, st) for p in pos), tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))

    def call_method(self, b, name, pos, kw, st):
        if b.op == 'ite':
            c = atom(b.a[0])
            s2 = st.copy()
            x = self.call_method(b.a[1], name, pos, kw, st)
            y = self.call_method(b.a[2], name, pos, kw, s2)
            return self.branch_value(c, x, y, st, s2)
        if b.op == 'super':
            recv, cq, ex = b.a
            exact = self.w.classes.get(ex)
            mro = self.w.mro(exact) if exact is not None else []
            cur = self.w.classes[cq]
            i = mro.index(cur) if cur in mro else -1
            chain = mro[i + 1:] if i >= 0 else self.w.mro(cur)[1:]
            for k in chain:
                if name in k.fns:
                    return self.call_method_fn(k.fns[name], recv, pos, kw, st, exact, True, sup=True)
            if name == '__init__':
                return NONE
            return mk('mcall', b, name, tuple(self.freeze(p, st) for p in pos), ())
        if b.op == 'ref':
            fv = self.getattr(b, name, st)
            if fv.op == 'bound' and fv.a[0] is b:
                c = self.w.classes.get(b.a[0])
                if c is not None:
                    f = self.w.find_method(c, name)
                    if f is not None:
                        return self.call_fn(f, b, pos, kw, st, c, True)
                return self.unknown_call(fv, pos, kw, st)
            return self.call(fv, pos, kw, st)
        r = self.builtin_method(b, name, pos, kw, st)
        if r is not None:
            return r
        c, exact = self.class_of(b)
        cha = False
        if c is None and b.op not in ('const', 'cat', 'str', 'tup', 'list', 'dict', 'fmt', 'join') and name not in COMMON_METHODS:
            cs = self.w.by_method.get(name, ())
            if len(cs) == 1:
                c, cha = cs[0], True
        if c is not None:
            f = self.w.find_method(c, name)
            if f is not None:
                return self.call_method_fn(f, b, pos, kw, st, c, exact)
            v = st.attrs.get((b, name))
            if v is not None:
                return self.call(v, pos, kw, st)
        v = st.attrs.get((b, name))
        if v is not None and v.op in ('closure', 'bound', 'ref', 'partial'):
            return self.call(v, pos, kw, st)
        return self.opaque_method(b, name, pos, kw, st)

    def common_params(self, name, n):
        """the first n parameter names, when shared by every repository method of that name"""
        if name in COMMON_METHODS:
            return None
        out = None
        for c in self.w.by_method.get(name, ()):
            fn = c.fns.get(name)
            if fn is None or fn.kind not in ('method', 'classmethod'):
                return None
            ps = [x.arg for x in fn.node.args.posonlyargs + fn.node.args.args][1:n + 1]
            if len(ps) < n:
                continue
            if out is not None and out != ps:
                return None
            out = ps
        return out

    def opaque_method(self, b, name, pos, kw, st):
        if name == 'join' and (len(pos) > 1 or 'on' in kw or 'how' in kw):
            pos, kw = libsigs.normal(libsigs.DF_JOIN, list(pos), dict(kw))
        elif name in libsigs.METHODS:
            pos, kw = libsigs.normal(libsigs.METHODS[name], list(pos), dict(kw))
        elif pos:
            ps = self.common_params(name, len(pos))
            if ps is not None and not set(ps[:len(pos)]) & set(kw):
                kw = dict(kw, **dict(zip(ps, pos)))
                pos = []
        fpos = tuple(self.freeze(p, st) for p in pos)
        fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items()))
        fb = self.freeze(b, st)
        if name == 'filter' and len(fpos) == 1 and fpos[0].op == 'lam' and fpos[0].a[1] == 1 and fpos[0].a[2].op != 'tup':
            # only the truth of what it answers counts
            u = uid()
            fpos = (lam_raw(u, 1, truthy(subst(fpos[0].a[2], {mk('bv', fpos[0].a[0], 0): mk('bv', u, 0)}))),)
        while name == 'split' and not fpos and not fkw and fb.op == 'mcall' and fb.a[1] in ('strip', 'lstrip', 'rstrip') and not fb.a[2] and not fb.a[3]:
            fb = fb.a[0]    # splitting at blanks drops them at the ends
        r = mkcall('mcall', (fb, name), fpos, fkw)
        if name in IO_EFFECTS and not (name == 'replace' and len(pos) != 1) or name in EXT_EFFECT_NAMES:
            self.io_event(st, name, fb, fpos, fkw)
        elif name in MUTATORS:
            self.mutate(st, b, mk('mut', name, fpos, fkw))
        return r

    def io_event(self, st, name, fb, fpos, fkw):
        if name == 'write' and len(fpos) == 1:
            tr = st.trace
            if tr and tr[-1].op == 'ev' and tr[-1].a[0] == 'write' and tr[-1].a[1][0] is fb:
                st.trace = tr[:-1] + (mk('ev', 'write', (fb, cat(tr[-1].a[1][1], fpos[0])), ()),)
                return
        if name == 'writelines' and len(fpos) == 1:
            segs = self.seq(fpos[0], st)
            st.trace = st.trace + tuple(map_seg(s, lambda e: mk('ev', 'write', (fb, e.a[0]), ()) if e.op == 'item' else e) for s in segs)
            return
        st.trace = st.trace + (mk('ev', name, (fb,) + fpos, fkw),)

    def builtin_method(self, b, name, pos, kw, st):
        """methods of lists, dicts, sets and strings; None when not one"""
        isobj = b.op == 'obj' and b.a[0] in CONTAINERS
        kind = b.a[0] if isobj else (b.op if b.op in CONTAINERS or b.op == 'tup' else None)
        cls = None if kind else self.class_of(b)[0]
        if cls is not None:
            return None
        F = lambda v: self.freeze(v, st)
        if name == 'append' and len(pos) == 1 and kind in (None, 'list'):
            self.lists.add(b)
            self.mutate(st, b, mk('item', pos[0]))
            return NONE
        if name == 'extend' and len(pos) == 1 and kind in (None, 'list'):
            self.lists.add(b)
            for s in self.seq(pos[0], st):
                self.mutate(st, b, s)
            return NONE
        if name in ('add',) and len(pos) == 1 and kind in (None, 'set'):
            self.mutate(st, b, mk('item', F(pos[0])))
            return NONE
        if name in ('remove', 'discard') and len(pos) == 1 and kind in (None, 'set', 'list'):
            self.mutate(st, b, mk('del', F(pos[0])))
            return NONE
        if name == 'clear' and not pos:
            self.mutate(st, b, mk('clear')) if isobj else self.mutate(st, b, mk('mut', 'clear', (), ()))
            return NONE
        if name == 'update' and kind == 'set' and isobj and not kw:
            for x in pos:
                for s in self.seq(x, st):
                    self.mutate(st, b, s)
            return NONE
        if name in ('union', 'difference', 'intersection') and kind == 'set' and isobj and pos and not kw:
            acc = b
            for x in pos:
                if not (x.op == 'obj' and x.a[0] == 'set'):
                    x = self.alloc(st, 'set', self.seq(x, st))
                acc = self.binop({'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd'}[name], acc, x, st)
            return acc
        if name == 'update' and kind in (None, 'dict', 'set'):
            fac = isobj and any(s.op == 'fac' for s in st.heap[b])
            if len(pos) == 1 and (isobj or b.op in ('attr', 'param', 'sym', 'call')) and not kw:
                counter = isobj and b in self.counters or isobj and any(s.op == 'fac' and s.a[0] is mk('ref', 'counter') for s in st.heap[b])
                if counter:
                    src = pos[0]
                    if src.op == 'obj' and src.a[0] == 'dict':
                        self.mutate(st, b, mk('mut', 'update', (F(src),), ()))
                    else:
                        for s in self.seq(src, st):
                            self.mutate(st, b, map_seg(self.freeze(s, st), lambda e: mk('inc', e.a[0], ONE) if e.op == 'item' else e))
                    return NONE
                if kind == 'dict':
                    for s in self.dict_segs(pos[0], st):
                        self.mutate(st, b, s)
                    return NONE
            if kind == 'dict' and kw and not pos and '**' not in kw:
                for k, v in kw.items():
                    self.mutate(st, b, mk('kv', const(k), v))
                return NONE
            self.mutate(st, b, mk('mut', 'update', tuple(F(p) for p in pos), tuple(sorted((k, F(v)) for k, v in kw.items()))))
            return NONE
        if name == 'setdefault' and len(pos) in (1, 2):
            d = pos[1] if len(pos) == 2 else NONE
            k = F(pos[0])
            has = self.contains(k, b, st)
            cur = self.index(b, k, st)
            seg = mk('kv' if kind == 'dict' else 'put', k, d)
            self.mutate(st, b, guard(b_not(has), seg))
            r = ite(has, cur, d)
            self.loc[r] = (b, k)
            return r
        if name == 'get' and len(pos) in (1, 2) and not kw and (kind in (None, 'dict')) and not is_str(b):
            d = pos[1] if len(pos) == 2 else NONE
            k = F(pos[0])
            if d is ZERO and (b in self.counters or b.op == 'dict' and b.a and b.a[0] is mk('fac', mk('ref', 'counter'))):
                return self.index(b, k, st)     # missing keys of a Counter count zero
            has = self.contains(k, b, st)
            r = ite(has, self.index(b, k, st), d)
            if r.op == 'ite' and d is NONE:
                self.loc[r] = (b, k)
            return r
        if name == 'pop' and kind in (None, 'dict', 'list', 'set') and not is_str(b):
            if kind == 'list' or (b in self.lists and kind is None) or not pos:
                cur = F(b)
                if kind == 'list' and st.heap[b] and st.heap[b][-1].op == 'item' and not pos:
                    v = st.heap[b][-1].a[0]
                    st.heap[b] = st.heap[b][:-1]
                    return v
                if kind == 'list' and pos and pos[0] is ZERO and st.heap[b] and st.heap[b][0].op == 'item':
                    v = st.heap[b][0].a[0]
                    st.heap[b] = st.heap[b][1:]
                    return v
                if kind == 'list' and isobj and pos and pos[0] is ZERO and len(pos) == 1:
                    r = self.index(b, ZERO, st)
                    rest = slc(cur, ONE, NONE)
                    if b.a[1] < self.fr().start and not any(contains(x, b) for o, segs in st.heap.items() if o is not b for x in segs) \
                            and not any(contains(x, b) for x in st.attrs.values()) and all(x is b or not contains(x, b) for x in st.env.values() if isinstance(x, T)):
                        # only the variables of this call know the list
                        st.env = {n: rest if x is b else x for n, x in st.env.items()}
                    else:
                        st.heap[b] = (mk('old', rest),)
                    return r
                r = mk('mcall', cur, 'pop', tuple(F(p) for p in pos), ())
                self.mutate(st, b, mk('mut', 'pop', tuple(F(p) for p in pos), ()))
                return r
            k = F(pos[0])
            cur = self.index(b, k, st)
            if len(pos) == 2:
                has = self.contains(k, b, st)
                cur = ite(has, cur, pos[1])
            self.mutate(st, b, mk('del', k))
            if isobj and kind == 'dict' and k.op == 'const':
                segs = st.heap[b][:-1]
                keep, ok = [], True
                for s in segs:
                    e = s.a[1] if s.op == 'g' else s
                    if e.op in ('kv', 'put'):
                        if e.a[0] is k:
                            continue
                        if not distinct(e.a[0], k):
                            ok = False
                    elif e.op != 'fac':
                        ok = False
                    keep.append(s)
                if ok:
                    st.heap[b] = tuple(keep)
            return cur
        if name in ('items', 'keys', 'values') and not pos:
            segs = self.content(st, b)
            if segs is not None and all(is_kv_seg(s) for s in segs):
                if name == 'items':
                    f = lambda e: mk('item', mk('tup', e.a[0], e.a[1])) if e.op in ('kv', 'put') else None if e.op == 'fac' else e
                elif name == 'keys':
                    f = lambda e: mk('item', e.a[0]) if e.op in ('kv', 'put') else None if e.op == 'fac' else e
                else:
                    f = lambda e: mk('item', e.a[1]) if e.op in ('kv', 'put') else None if e.op == 'fac' else e
                return self.alloc(st, 'gen', map_segs(segs, f))
            if not isobj and kind is None:
                self.mappings.add(F(b))
            return mk('mcall', F(b), name, (), ())
        if name == 'copy' and not pos and not isobj and kind is None and b.op == 'attr':
            t = self.typeof(b)
            if b.a[1] == '__dict__' or t and t[0] == 'dict':
                return self.x_dict([b], {}, st)
            if t and t[0] == 'list':
                return self.x_list([b], {}, st)
        if name == 'copy' and not pos and kind in ('list', 'dict', 'set'):
            return self.alloc(st, kind, st.heap[b] if isobj else b.a)
        if name == 'sort' and (kind == 'list' or kind is None):
            srt = mk('call', mk('ref', 'builtins.sorted'), (mk('list', *self.fseq(b, st)),), self.sort_kw(kw, st))
            if isobj:
                st.heap[b] = (mk('old', srt),)
            else:
                self.mutate(st, b, mk('mut', 'sort', (), self.sort_kw(kw, st)))
            return NONE
        if name == 'reverse' and isobj:
            r = mk('call', mk('ref', 'builtins.reversed'), (F(b),), ())
            st.heap[b] = (mk('old', r),)
            return NONE
        if name == 'insert' and isobj and len(pos) == 2 and pos[0] is ZERO:
            st.heap[b] = (mk('item', pos[1]),) + st.heap[b]
            return NONE
        if name == 'join' and len(pos) == 1 and (is_str(b) or is_const(b, str) or b.op in ('attr', 'param', 'ref')) \
                or (name == 'join' and len(pos) == 1 and b.op in ('const',)):
            segs = self.fseq(pos[0], st)
            return self.str_join(F(b), segs)
        if name == 'format' and is_const(b, str):
            return self.str_format(b.a[1], [F(p) for p in pos], {k: F(v) for k, v in kw.items()})
        if name == '__getitem__' and len(pos) == 1:
            return self.index(b, pos[0], st)
        if name == '__len__' and not pos:
            return length(F(b))
        if is_const(b, str) and not kw and all(is_const(p, str) for p in pos) and name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'split'):
            try:
                v = getattr(b.a[1], name)(*[p.a[1] for p in pos])
                if isinstance(v, list):
                    return self.alloc(st, 'list', [mk('item', const(x)) for x in v])
                return const(v)
            except (TypeError, ValueError):
                pass
        if name in ('startswith', 'endswith') and len(pos) == 1 and not kw and pos[0].op == 'tup' and pos[0].a:
            r = FALSE
            for p in pos[0].a:
                r = b_or(r, self.truth(self.call_method(b, name, [p], {}, st), st))
            return r
        if name == 'encode' and (is_const(b, str) or is_str(b)):
            pos, kw = libsigs.normal(libsigs.METHODS[name], list(pos), dict(kw))
            return mk('mcall', F(b), 'encode', tuple(F(p) for p in pos), tuple(sorted((k, F(v)) for k, v in kw.items())))
        if name in ('count', 'collect', 'foreach') and not pos and not kw and contains_rdd(F(b)):
            # evaluates a distributed pipeline: its functions run now
            v = mk('mcall', F(b), name, (), ())
            self.event(st, 'run', (v,))
            return v
        if name in ('add_argument', 'set_defaults'):
            self.mutate(st, b, mk('mut', name, tuple(F(p) for p in pos), tuple(sorted((k, F(v)) for k, v in kw.items()))))
            return NONE
        return None

    def str_join(self, d, segs):
        if all(s.op == 'item' for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i:
                    out.append(d)
                out.append(self.to_str(s.a[0]))
            return cat(*out) if out else const('')
        return join_parts(d, segs)

    def str_format(self, f, pos, kw):
        import string
        out, i = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = pos[i]
                    i += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise ValueError
                out.append(self.fmt(v, const(spec)) if spec else self.to_str(v))
            return cat(*out)
        except (ValueError, IndexError):
            return mk('mcall', const(f), 'format', tuple(pos), tuple(sorted(kw.items())))

    def fseq(self, v, st):
        return [self.freeze(s, st) for s in self.seq(v, st)]

    def sort_kw(self, kw, st):
        out = []
        for k, v in sorted(kw.items()):
            v = self.freeze(v, st)
            if k == 'reverse' and v is FALSE or k == 'key' and v is NONE:
                continue
            out.append((k, v))
        d = dict(out)
        key = d.get('key')
        if key is not None and key.op == 'lam' and key.a[1] == 1 and key.a[2].op == 'poly' and pneg(key.a[2]).op != 'poly' and d.get('reverse', TRUE) is TRUE:
            # by decreasing value (equal ones keep their order either way)
            d['key'] = mk('lam', key.a[0], 1, pneg(key.a[2]))
            if d.pop('reverse', None) is None:
                d['reverse'] = TRUE
            out = sorted(d.items())
        return tuple(out)

    # ------------------------------------------------------------ in-repo calls
    def bind(self, fn, recv, pos, kw, st, skip_first):
        """parameter name -> value; None when it does not fit"""
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if skip_first:
            out[params[0]] = recv
            params = params[1:]
        kw = dict(kw)
        pos = list(pos)
        for i, p in enumerate(params):
            if pos:
                out[p] = pos.pop(0)
                if out[p].op == 'starred':
                    return None
            elif p in kw:
                out[p] = kw.pop(p)
        if pos and any(p.op == 'starred' for p in pos) and not a.vararg:
            return None
        if a.vararg:
            out['*' + a.vararg.arg] = pos
        elif pos:
            return None
        for x in a.kwonlyargs:
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
        if a.kwarg:
            if '**' in kw and any(x.arg not in out for x in a.posonlyargs + a.args + a.kwonlyargs):
                out['**?'] = kw.pop('**')       # it may name any of the others: stays a call
            out['**' + a.kwarg.arg] = kw
        elif kw:
            if '**' in kw and len(kw) == 1:
                out['**?'] = kw['**']
            else:
                return None
        return out

    def defaults(self, fn, out, st):
        a = fn.node.args
        ps = a.posonlyargs + a.args
        for x, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if x.arg not in out:
                out[x.arg] = self.default(fn, d)
            elif out[x.arg].op == 'ite' and has_op(out[x.arg], 'absent'):
                out[x.arg] = lift(lambda v: self.default(fn, d) if v.op == 'absent' else v, out[x.arg])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.default(fn, d)
        return out

    def default(self, fn, d):
        v = self.eval_static(d, fn.module, fn.cls)
        if v is None:
            return mk('unk', ast.dump(d))
        return v

    def is_opaque(self, fn, sup=False):
        if fn.kind == 'property':
            return False
        if fn.name.startswith('_') and not (fn.name.startswith('__') and fn.name not in ('__init__', '__enter__', '__exit__')):
            if fn.name != '__init__' or sup:
                return False
        return self.opaque(fn.qual)

    def call_method_fn(self, fn, recv, pos, kw, st, c, exact, sup=False):
        if fn.kind == 'static':
            return self.call_fn(fn, None, pos, kw, st, c, exact)
        if fn.kind == 'classmethod' and recv is not None and recv.op != 'ref':
            cc = c if c is not None else fn.cls
            recv = mk('ref', cc.qual) if exact or not self.w.overridden(cc, fn.name) else mk('call', mk('ref', 'builtins.type'), (self.freeze(recv, st),), ())
        if not exact and not sup and c is not None and fn.kind == 'method' and self.w.overridden(c, fn.name):
            # virtual call
            fb = self.freeze(recv, st)
            mut, eff = self.w.effects(fn.qual)
            if mut:
                self.mutate(st, recv, mk('mut', fn.name, tuple(self.freeze(p, st) for p in pos), ()))
            r = self.bind(fn, recv, pos, kw, st, True)
            if r is not None:
                r.pop(fn.node.args.args[0].arg, None)
                items = []
                for k2, v2 in r.items():
                    if k2.startswith('*'):
                        continue
                    items.append((k2, self.freeze(v2, st)))
                return mk('mcall', fb, fn.name, (), tuple(items))
            return mk('mcall', fb, fn.name, tuple(self.freeze(p, st) for p in pos), tuple(sorted((k2, self.freeze(v2, st)) for k2, v2 in kw.items())))
        return self.call_fn(fn, recv, pos, kw, st, c, exact, sup)

    def call_fn(self, fn, recv, pos, kw, st, c, exact, sup=False):
        if any(fn.qual == i or fn.qual.startswith(i) for i in IGNORED):
            return mk('ref', fn.qual)
        skip = fn.kind in ('method', 'property', 'classmethod')
        if fn.kind == 'classmethod' and recv is None:
            recv = mk('ref', fn.cls.qual)
        b = self.bind(fn, recv, pos, kw, st, skip)
        if b is None:
            self.event(st, 'badcall:' + fn.qual, tuple(pos), tuple(sorted(kw.items())))
            return mk('call', mk('ref', fn.qual), tuple(self.freeze(p, st) for p in pos), tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
        missing = [x.arg for x in (fn.node.args.posonlyargs + fn.node.args.args)[:len(fn.node.args.posonlyargs + fn.node.args.args) - len(fn.node.args.defaults)]
                   if x.arg not in b]
        b = self.defaults(fn, b, st)
        if missing and '**?' not in b:
            self.event(st, 'badcall:' + fn.qual, tuple(pos), tuple(sorted(kw.items())))
        rec = fn.qual in self.stack
        if self.is_opaque(fn, sup) or rec or len(self.stack) > DEPTH or '**?' in b:
            return self.opaque_call(fn, recv, b, st, c, exact)
        return self.inline(fn, recv, b, st, c, exact)

    def opaque_call(self, fn, recv, b, st, c, exact):
        items = []
        for k, v in b.items():
            if k.startswith('**') and isinstance(v, dict):
                for k2, v2 in sorted(v.items()):
                    items.append((k2, self.freeze(v2, st)))
            elif k.startswith('*') and isinstance(v, list):
                items.append((k, mk('tup', *[self.freeze(x, st) for x in v])))
            else:
                items.append((k, self.freeze(v, st)))
        first = fn.node.args.args[0].arg if fn.kind in ('method', 'classmethod') and fn.node.args.args else None
        if fn.kind == 'classmethod' and first:
            # the class matters only when it is not the defining one
            items = [(k, v) if k != first else ('cls', v) for k, v in items]
        elif first:
            items = [(k, v) if k != first else ('self', v) for k, v in items]
        kws = tuple(sorted(items, key=lambda p: p[0]))
        r = mkcall('call', (mk('ref', fn.qual),), (), kws)
        mut, eff = self.w.effects(fn.qual)
        if mut and recv is not None and fn.kind == 'method':
            self.mutate(st, recv, mk('mut', fn.qual, (), tuple(sorted((k, v) for k, v in items if k != 'self'))))
        if eff:
            st.trace = st.trace + (mk('ev', 'call:' + fn.qual, (), kws),)
        ty = self.ret_type(fn)
        for x in leaves(r) if ty else ():
            if x not in self.types:
                self.types[x] = ty
        return r

    def inline(self, fn, recv, b, st, c, exact, closure_env=None):
        fr = Frame(fn, fn.module, fn.cls, recv, None, self.frames[-1] if self.frames else None)
        if fn.cls is not None and c is not None:
            fr.exact = c if exact else None
            if recv is not None and recv.op == 'ref':
                fr.exact = c
        if closure_env is not None:
            fr.closure_env = closure_env
        self.frames.append(fr)
        self.stack.append(fn.qual)
        try:
            return self.run_body(fn.node, b, st, fn.is_gen, fn)
        finally:
            self.stack.pop()
            self.frames.pop()

    def run_body(self, node, b, st, is_gen, fn=None):
        fr = self.fr()
        fr.start = uid()
        saved, saved_pc, saved_tr = st.env, st.pc, st.trace
        env = {}
        s = State(env, st.heap, st.attrs, (), TRUE)
        for k, v in b.items():
            if k.startswith('**'):
                if isinstance(v, dict):
                    env[k[2:]] = self.alloc(s, 'dict', [g for x, y in v.items() for g in (self.dict_segs(y, s) if x == '**' else [mk('kv', const(x), y)])])
                else:
                    env[k[2:]] = v
            elif k.startswith('*'):
                env[k[1:]] = mk('tup', *v) if isinstance(v, list) else v
            else:
                env[k] = v
                if fn is not None:
                    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
                        if a.arg == k and a.annotation is not None and v.op in ('attr', 'idx', 'lc', 'call', 'mcall', 'bv', 'param', 'keyat', 'post') and v not in self.types:
                            ty = self.param_type(node.args, a, fr.module, fr.cls)
                            if ty and self.typeof(v) is None:
                                self.types[v] = ty
        r = self.block(node.body, s)
        exits = list(fr.exits)
        if isinstance(r, State):
            exits.append((r, NONE))
        if not exits:
            # never returns
            st.env = saved
            st.trace = saved_tr + s.trace
            return mk('never')
        for s1, v in exits:
            s1.env = {'#ret': v}
        acc = exits[-1][0]
        for s1, v in reversed(exits[:-1]):
            tot = b_or(s1.pc, acc.pc)
            acc = self.merge(simplify(s1.pc, tot), s1, acc)
            acc.pc = tot
        ret = acc.env['#ret']
        if r is RAISE:
            self.refuses(acc, b_not(acc.pc), self.raise_tr)
        # what it does and returns when it does not refuse
        tr, care = unrefused(acc.trace)
        if care is not TRUE and care is not FALSE:
            if ret.op == 'ite':
                ret = simplify(ret, care)
            for k, v in list(acc.attrs.items()):
                if v.op == 'ite':
                    acc.attrs[k] = simplify(v, care)
            for k, v in list(acc.heap.items()):
                if any(x.op in ('g', 'star') for x in v):
                    acc.heap[k] = tuple(y for y in (under(x, care) for x in v) if y is not None)
        st.heap, st.attrs = acc.heap, acc.attrs
        st.env, st.pc = saved, saved_pc
        if is_gen:
            ys = split_yields(tr, True)
            others = split_yields(tr, False)
            st.trace = saved_tr + others
            ret = self.alloc(st, 'gen', [map_seg(y, lambda e: mk('item', e.a[1][0]) if e.op == 'ev' and e.a[0] == 'yield' else e) for y in ys])
        else:
            st.trace = saved_tr + tr
        return ret

    def call_closure(self, f, pos, kw, st):
        node, env, frame, fn = self.clos[f]
        pos = [p for _, p in pos]
        if isinstance(node, ast.Lambda):
            pseudo = Fn.__new__(Fn)
            class N:
                pass
            names = [a.arg for a in node.args.posonlyargs + node.args.args]
            e2 = dict(env)
            if frame is self.frames[-1]:
                e2.update(st.env)
            b = dict(zip(names, pos))
            known = set(names) | {a.arg for a in node.args.kwonlyargs}
            for k, v in kw.items():
                if k in known or not node.args.kwarg:
                    b[k] = v
            if node.args.kwarg:
                b[node.args.kwarg.arg] = self.alloc(st, 'dict', [mk('kv', const(k), v) for k, v in kw.items() if k not in known and k != '**'])
            for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
                if a.arg not in b and d is not None:
                    b[a.arg] = self.ev(d, State(dict(e2), st.heap, st.attrs))
            for x, d in zip(names[len(names) - len(node.args.defaults):], node.args.defaults):
                if x not in b:
                    b[x] = self.ev(d, State(dict(e2), st.heap, st.attrs))
            if node.args.vararg:
                b[node.args.vararg.arg] = mk('tup', *pos[len(names):])
            fr = Frame(None, frame.module, frame.cls, frame.recv, frame.exact, self.frames[-1])
            fr.closure_env = e2
            fr.fn = frame.fn
            self.frames.append(fr)
            saved = st.env
            st.env = b
            try:
                if len(self.frames) > 40:
                    raise Undecided('depth')
                return self.ev(node.body, st)
            finally:
                st.env = saved
                self.frames.pop()
        b = self.bind(fn, None, pos, kw, st, False)
        if b is None:
            return mk('call', mk('ref', 'badcall'), tuple(self.freeze(p, st) for p in pos), ())
        b = self.defaults(fn, b, st)
        if fn.qual in self.stack or len(self.stack) > DEPTH:
            return mk('call', mk('ref', fn.qual), (), tuple(sorted((k, self.freeze(v, st)) for k, v in b.items() if not isinstance(v, (list, dict)))))
        e2 = dict(env)
        if frame is self.frames[-1]:
            e2.update(st.env)
        fr = Frame(fn, frame.module, frame.cls, frame.recv, frame.exact, self.frames[-1])
        fr.closure_env = e2
        self.frames.append(fr)
        self.stack.append(fn.qual)
        try:
            return self.run_body(fn.node, b, st, fn.is_gen, fn)
        finally:
            self.stack.pop()
            self.frames.pop()

    def construct(self, c, pos, kw, st):
        if c.dataclass:
            names = []
            for k in reversed(self.w.mro(c)):
                for n in k.order:
                    if n not in names:
                        names.append(n)
            vals = dict(zip(names, pos))
            if len(pos) > len(names) or any(p.op == 'starred' for p in pos):
                return mk('call', mk('ref', c.qual), tuple(self.freeze(p, st) for p in pos), ())
            for k, v in kw.items():
                if k not in names:
                    return mk('call', mk('ref', c.qual), tuple(self.freeze(p, st) for p in pos), tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
                vals[k] = v
            for n in names:
                if n not in vals:
                    d = self.class_attr(c, n)
                    if d is None:
                        self.event(st, 'badcall:' + c.qual, tuple(pos), tuple(sorted(kw.items())))
                        d = UNDEF
                    vals[n] = d
            return mk('inst', c.qual, tuple((n, vals[n]) for n in names))
        f = self.w.find_method(c, '__init__')
        if f is None:
            bases = [dotted_name(b) for b in c.node.bases]
            if pos or kw:
                return mk('new', c.qual, tuple(('', self.freeze(p, st)) for p in pos) + tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
            o = mk('obj', 'inst:' + c.qual, uid())
            st.heap[o] = ()
            return o
        if self.opaque(f.qual) or f.qual in self.stack or len(self.stack) > DEPTH:
            b = self.bind(f, NONE, pos, kw, st, True)
            if b is None:
                self.event(st, 'badcall:' + c.qual, tuple(pos), tuple(sorted(kw.items())))
                return mk('new', c.qual, tuple((str(i), self.freeze(p, st)) for i, p in enumerate(pos)) + tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items())))
            b.pop(f.node.args.args[0].arg)
            b = self.defaults(f, b, st)
            items = []
            for k, v in b.items():
                if isinstance(v, dict):
                    items += [(k2, self.freeze(v2, st)) for k2, v2 in v.items()]
                elif isinstance(v, list):
                    items += [(f'{k}{i}', self.freeze(v2, st)) for i, v2 in enumerate(v)]
                else:
                    items.append((k, self.freeze(v, st)))
            items = sorted(items, key=lambda p: p[0])
            t = mkcall('new', (c.qual,), None, items)
            o = mk('obj', 'new:' + c.qual, uid())
            st.heap[o] = (t,)
            mut, eff = self.w.effects(f.qual)
            if eff:
                st.trace = st.trace + (mk('ev', 'call:' + f.qual, (), tuple(items)),)
            return o
        o = mk('obj', 'inst:' + c.qual, uid())
        st.heap[o] = ()
        self.types[o] = ('cls', c.qual)
        self.call_fn(f, o, pos, kw, st, c, True)
        return o

    # ------------------------------------------------------------ library
    def call_ext(self, q, pos, kw, st):
        if any(q == i or q.startswith(i) for i in IGNORED) and not q.startswith('time.'):
            return NONE
        name = q.split('.')[-1]
        h = getattr(self, 'x_' + q.replace('builtins.', '').replace('.', '_'), None)
        if h is not None:
            r = h(pos, kw, st)
            if r is not None:
                return r
        if q == 'builtins.iter' and len(pos) == 1 and pos[0].op in ('param', 'attr'):
            return mk('call', mk('ref', q), (pos[0],), ())
        if q in IDENTITY and pos:
            return pos[0]
        if q in MUT_FUNCS and pos:
            fp = tuple(self.freeze(p, st) for p in pos)
            r = mk('call', mk('ref', q), fp, ())
            self.lists.add(pos[0])
            self.mutate(st, pos[0], mk('mut', q, fp[1:], ()))
            return r
        if name in STR_UNBOUND and q == 'builtins.str.' + name and pos:
            return self.call_method(pos[0], name, pos[1:], kw, st)
        if libsigs.FUNCS.get(q):
            pos, kw = libsigs.normal(libsigs.FUNCS[q], list(pos), dict(kw))
        fpos = [self.freeze(p, st) for p in pos]
        if q in SEQ_ARG:
            fpos = [mk('list', *p.a) if p.op in ('gen', 'tuple', 'list') else mk('list', *[mk('item', y) for y in p.a]) if p.op == 'tup' and q in ('builtins.sorted', 'numpy.array', 'builtins.bytes', 'builtins.max', 'builtins.min') and len(pos) == 1 else p for p in fpos]
        fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kw.items()))
        if q == 'builtins.sorted':
            fkw = self.sort_kw(kw, st)
        r = mkcall('call', (mk('ref', q),), tuple(fpos), fkw)
        if any(q == e or (e.endswith('.') and q.startswith(e)) for e in EFFECT_EXT):
            st.trace = st.trace + (mk('ev', q, tuple(fpos), fkw),)
        return r

    def x_divmod(self, pos, kw, st):
        if len(pos) == 2 and not kw:
            return mk('tup', self.binop('FloorDiv', pos[0], pos[1], st), self.binop('Mod', pos[0], pos[1], st))

    def x_len(self, pos, kw, st):
        if len(pos) == 1:
            b = pos[0]
            c, ex = self.class_of(b)
            if c is not None and self.w.find_method(c, '__len__'):
                f = self.w.find_method(c, '__len__')
                if not self.w.overridden(c, '__len__') or ex:
                    return self.call_fn(f, b, [], {}, st, c, ex)
            return length(self.freeze(b, st))

    def x_isinstance(self, pos, kw, st):
        v, cs = pos
        v = self.freeze(v, st)
        cl = list(cs.a) if cs.op == 'tup' else [cs]
        r = FALSE
        for c in cl:
            r = b_or(r, self.isinst(v, c))
        return r

    def isinst(self, v, c):
        def f(x):
            if c.op == 'ref':
                q = c.a[0]
                if x.op == 'inst' or x.op == 'new':
                    k = self.w.classes.get(x.a[0])
                    if k is not None and q in self.w.classes:
                        return const(any(m.qual == q for m in self.w.mro(k)))
                    return FALSE
                py = {'builtins.str': str, 'builtins.int': int, 'builtins.float': float, 'builtins.bool': bool}.get(q)
                if x.op == 'const':
                    return const(isinstance(x.a[1], py)) if py else FALSE
                if x.op == 'list':
                    return const(q == 'builtins.list')
                if x.op == 'tup':
                    return const(q == 'builtins.tuple')
                if is_str(x):
                    return const(q == 'builtins.str')
            return atom(mk('isinst', x, c))
        return lift(f, v)

    def x_range(self, pos, kw, st):
        return mk('call', mk('ref', 'builtins.range'), tuple(self.freeze(p, st) for p in pos), ())

    def x_enumerate(self, pos, kw, st):
        start = pos[1] if len(pos) > 1 else kw.get('start', ZERO)
        return mk('call', mk('ref', 'builtins.enumerate'), (pos[0], start), ())

    def x_zip(self, pos, kw, st):
        return mk('call', mk('ref', 'builtins.zip'), tuple(pos), ())

    def x_list(self, pos, kw, st):
        if not pos:
            return self.alloc(st, 'list')
        if pos[0].op == 'starred':
            return None
        v = pos[0]
        if v.op == 'call' and v.a[0].op == 'ref' and v.a[0].a[0] in ('builtins.enumerate', 'builtins.zip', 'builtins.map'):
            o = self.alloc(st, 'list')
            self.fill(o, v, st)
            return o
        return self.alloc(st, 'list', self.seq(v, st))

    def fill(self, o, v, st):
        def body(s, e):
            s.heap[o] = s.heap[o] + (mk('item', e),)
            return s
        self.fr().loops.append(LoopCtx())
        try:
            r = self.for_each(v, st, body, False)
        finally:
            self.fr().loops.pop()
        st.take(r)

    def x_tuple(self, pos, kw, st):
        if not pos:
            return mk('tup')
        s = self.seq(pos[0], st)
        if all(x.op == 'item' for x in s):
            return mk('tup', *[x.a[0] for x in s])
        return mk('tuple', *[self.freeze(x, st) for x in s])

    def x_set(self, pos, kw, st):
        if not pos:
            return self.alloc(st, 'set')
        s = self.seq(pos[0], st)
        return self.alloc(st, 'set', s)

    def x_dict(self, pos, kw, st):
        segs = []
        if pos:
            v = pos[0]
            if v.op == 'obj' and v.a[0] in ('list', 'gen') or v.op in ('list', 'gen') or (v.op == 'call' and v.a[0].op == 'ref' and v.a[0].a[0] in ('builtins.zip', 'builtins.enumerate', 'builtins.sorted', 'builtins.map')) \
                    or v.op == 'mcall' and v.a[1] == 'items':
                tmp = self.x_list([v], {}, st)
                ok = True

                def conv(e):
                    if e.op == 'item' and e.a[0].op == 'tup' and len(e.a[0].a) == 2:
                        return mk('kv', e.a[0].a[0], e.a[0].a[1])
                    if e.op == 'item':
                        return mk('kv', idx(e.a[0], ZERO), idx(e.a[0], ONE))
                    return e
                segs = [map_seg(s, conv) for s in st.heap[tmp]]
            else:
                segs = list(self.dict_segs(v, st))
        for k, v in kw.items():
            if k == '**':
                segs.extend(self.dict_segs(v, st))
            else:
                segs.append(mk('kv', const(k), v))
        return self.alloc(st, 'dict', segs)

    def x_collections_defaultdict(self, pos, kw, st):
        return self.alloc(st, 'dict', [mk('fac', self.freeze(pos[0], st))] if pos else [])

    def x_collections_Counter(self, pos, kw, st):
        o = self.alloc(st, 'dict', [mk('fac', mk('ref', 'counter'))])
        self.counters.add(o)
        if pos:
            if pos[0].op == 'obj' and pos[0].a[0] == 'dict':
                return None
            self.builtin_method(o, 'update', [pos[0]], {}, st)
        return o

    def x_collections_OrderedDict(self, pos, kw, st):
        return self.x_dict(pos, kw, st)

    def x_map(self, pos, kw, st):
        if len(pos) == 2:
            o = self.alloc(st, 'gen')
            f = pos[0]

            def body(s, e):
                v = self.call(f, [e], {}, s)
                s.heap[o] = s.heap[o] + (mk('item', v),)
                return s
            self.fr().loops.append(LoopCtx())
            try:
                r = self.for_each(pos[1], st, body, False)
            finally:
                self.fr().loops.pop()
            st.take(r)
            return o

    def x_filter(self, pos, kw, st):
        o = self.alloc(st, 'gen')
        f = pos[0]

        def body(s, e):
            c = self.truth(self.call(f, [e], {}, s) if f is not NONE else e, s)
            s.heap[o] = s.heap[o] + guards(c, (mk('item', e),))
            return s
        self.fr().loops.append(LoopCtx())
        try:
            r = self.for_each(pos[1], st, body, False)
        finally:
            self.fr().loops.pop()
        st.take(r)
        return o

    def x_sum(self, pos, kw, st):
        start = pos[1] if len(pos) > 1 else kw.get('start', ZERO)
        segs = self.fseq(pos[0], st)
        r = start
        for s in segs:
            r = padd(r, self.sum_seg(s))
        return r

    def sum_seg(self, s):
        if s.op == 'item':
            return s.a[0]
        if s.op == 'g':
            return ite(s.a[0], self.sum_seg(s.a[1]), ZERO)
        if s.op == 'star':
            h, dom, brk, car, segs = s.a
            tot = ZERO
            for x in segs:
                tot = padd(tot, self.sum_seg(x))
            c = pconst(tot)
            if c is not None and brk is FALSE and dom is not INF:
                return pmul(const(c), dom)
            return mk_sum(star_raw(h, dom, brk, car, (mk('item', tot),)))
        raise Undecided('sum of ' + s.op)

    def x_any(self, pos, kw, st):
        return self.any_of(self.fseq(pos[0], st), st)

    def x_all(self, pos, kw, st):
        return b_not(self.any_of(self.fseq(pos[0], st), st, neg=True))

    def any_of(self, segs, st, neg=False):
        r = FALSE
        for s in segs:
            if s.op == 'item':
                c = truthy(s.a[0])
                r = b_or(r, b_not(c) if neg else c)
            elif s.op == 'g':
                r = b_or(r, b_and(s.a[0], self.any_of([s.a[1]], st, neg)))
            elif s.op == 'star' and s.a[2] is FALSE and not s.a[3]:
                h, dom, brk, car, body = s.a
                u = uid()
                b2 = subst(body, {mk('iterk', h): mk('iterk', u)})
                c = self.any_of(b2, st, neg)
                if c is FALSE:
                    continue
                r = b_or(r, self.some(u, dom, c))
            else:
                r = b_or(r, truthy(mk('call', mk('ref', 'builtins.all' if neg else 'builtins.any'), (mk('list', s),), ())))
        return r

    def some(self, u, dom, c):
        """the condition holds in some round"""
        if not varies(c, u):
            return b_and(b_not(le(dom, ZERO)), c) if c is not FALSE else FALSE
        inv = sorted({x.a[0] for x in walk(c) if x.op == 'ite' and not varies(x.a[0], u)} & decisions(c), key=lambda t: t.n)
        if inv:
            a = inv[0]
            return ite(atom(a), self.some(u, dom, subst(c, {a: TRUE})), self.some(u, dom, subst(c, {a: FALSE})))
        return b_and(b_not(le(dom, ZERO)) if dom is not INF else TRUE, truthy(self.post(u, dom, c, {}, (FALSE, FALSE, TRUE))))

    def x_max(self, pos, kw, st):
        return self.maxmin('max', pos, kw, st)

    def x_min(self, pos, kw, st):
        return self.maxmin('min', pos, kw, st)

    def maxmin(self, op, pos, kw, st):
        if set(kw) == {'default'} and len(pos) == 1:
            segs = self.fseq(pos[0], st)
            if not segs:
                return kw['default']
            if any(s.op == 'item' for s in segs):
                kw = {}     # there is one
            else:
                return mk('call', mk('ref', 'builtins.' + op), (mk('list', *segs),), (('default', self.freeze(kw['default'], st)),))
        if kw:
            return None
        if len(pos) > 1:
            return minmax(op, *[self.freeze(p, st) for p in pos])
        if len(pos) == 1:
            segs = self.fseq(pos[0], st)
            if segs and all(s.op == 'item' for s in segs):
                return minmax(op, *[s.a[0] for s in segs])
            return mk('call', mk('ref', 'builtins.' + op), (mk('list', *segs),), ())

    def x_sorted(self, pos, kw, st):
        segs, kws = self.fseq(pos[0], st), self.sort_kw(kw, st)
        d = sorted_items(segs, dict(kws).get('key'))
        if d is not None:
            # by key, which no two have in common: the keys, sorted, each with its value
            keys, entry, u = d
            srt = mk('call', mk('ref', 'builtins.sorted'), (mk('list', keys),), tuple((k, v) for k, v in kws if k != 'key'))
            return self.alloc(st, 'list', (star_raw(u, length(srt), FALSE, (), (mk('item', entry(idx(srt, mk('iterk', u)))),)),))
        return mk('call', mk('ref', 'builtins.sorted'), (mk('list', *segs),), kws)

    def x_reversed(self, pos, kw, st):
        v = pos[0]
        segs = self.content(st, v)
        if segs is not None and all(s.op == 'item' for s in segs):
            return self.alloc(st, 'gen', list(reversed(segs)))
        if v.op == 'call' and v.a[0].op == 'ref' and v.a[0].a[0] in ('builtins.zip', 'builtins.enumerate'):
            v = self.x_list([v], {}, st)
        return mk('call', mk('ref', 'builtins.reversed'), (self.freeze(v, st),), ())

    def x_str(self, pos, kw, st):
        if len(pos) == 1 and not kw:
            return self.to_str(self.freeze(pos[0], st))
        if 1 <= len(pos) <= 3 and set(kw) <= {'encoding', 'errors'}:
            return self.call_method(pos[0], 'decode', pos[1:], kw, st)

    def x_bytes(self, pos, kw, st):
        if len(pos) in (2, 3) or 'encoding' in kw:
            return self.call_method(pos[0], 'encode', pos[1:], kw, st)

    def x_format(self, pos, kw, st):
        return self.fmt(self.freeze(pos[0], st), self.freeze(pos[1], st) if len(pos) > 1 else const(''))

    def x_int(self, pos, kw, st):
        if len(pos) == 1:
            v = self.freeze(pos[0], st)
            if is_int(v):
                return v
            if v.op in ATOMS:
                return ite(atom(v), ONE, ZERO)
            if v.op == 'ite' and all(x.op == 'const' and isinstance(x.a[1], bool) for x in leaves(v)):
                return ite(v, ONE, ZERO)
            if v.op == 'str' and False:
                return v.a[0]
            return mk('call', mk('ref', 'builtins.int'), (v,), ())

    def x_bool(self, pos, kw, st):
        return self.truth(pos[0], st) if pos else FALSE

    def x_abs(self, pos, kw, st):
        return lift(lambda x: mk('abs', x), self.freeze(pos[0], st))

    def x_getattr(self, pos, kw, st):
        if len(pos) >= 2 and is_const(pos[1], str):
            return self.getattr(pos[0], pos[1].a[1], st)
        if len(pos) == 2 and pos[1] in self.options:
            o = self.options[pos[1]]
            r = self.getattr(pos[0], o[-1], st)
            for x in reversed(o[:-1]):
                r = ite(eq(pos[1], const(x)), self.getattr(pos[0], x, st), r)
            return r
        if len(pos) == 2:
            return lift(lambda n: self.getattr(pos[0], n.a[1], st) if is_const(n, str) else mk('dynattr', self.freeze(pos[0], st), n), self.freeze(pos[1], st))

    def x_setattr(self, pos, kw, st):
        if is_const(pos[1], str):
            self.set_attr(pos[0], pos[1].a[1], pos[2], st)
            return NONE
        if pos[1] in self.options:
            o = self.options[pos[1]]
            for i, x in enumerate(o):
                c = eq(pos[1], const(x))
                if i == len(o) - 1:     # one of them it is
                    c = TRUE
                    for y in o[:i]:
                        c = b_and(c, b_not(eq(pos[1], const(y))))
                self.set_attr(pos[0], x, ite(c, pos[2], self.getattr(pos[0], x, st)), st)
            return NONE
        self.event(st, 'setattr', pos)
        return NONE

    def x_callable(self, pos, kw, st):
        return None

    def x_next(self, pos, kw, st):
        v = pos[0]
        if v.op == 'obj' and v.a[0] == 'gen':
            segs = st.heap[v]
            if segs and segs[0].op == 'item':
                st.heap[v] = segs[1:]
                return segs[0].a[0]
            fsegs = [self.freeze(s, st) for s in segs]
            if len(pos) > 1 and len(fsegs) <= UNROLL and all(x.op == 'item' or x.op == 'g' and x.a[1].op == 'item' for x in fsegs):
                # the first of a few that passes
                r = pos[1]
                for x in reversed(fsegs):
                    r = x.a[0] if x.op == 'item' else ite(x.a[0], x.a[1].a[0], r)
                st.heap[v] = (mk('mutd', mk('list', *fsegs)),)
                return r
            if len(fsegs) == 1 and fsegs[0].op == 'star' and fsegs[0].a[2] is FALSE and not fsegs[0].a[3] and len(fsegs[0].a[4]) == 1:
                # first element that passes the filter
                h, dom, brk, car, body = fsegs[0].a
                u = uid()
                s = subst(body, {mk('iterk', h): mk('iterk', u)})[0]
                if s.op == 'g' and s.a[1].op == 'item':
                    st.heap[v] = (mk('mutd', mk('list', *fsegs)),)
                    val = self.post(u, dom, s.a[0], {}, (UNDEF, UNDEF, s.a[1].a[0])) if varies(s.a[1].a[0], u) else s.a[1].a[0]
                    if len(pos) > 1:
                        ex = self.some(u, dom, s.a[0])
                        return ite(ex, val, pos[1])
                    return val
        if len(pos) > 1:
            return None
        fp = self.freeze(v, st)
        r = mk('call', mk('ref', 'builtins.next'), (fp,), ())
        self.mutate(st, v, mk('mut', 'builtins.next', (), ()))
        return r

    def x_vars(self, pos, kw, st):
        if len(pos) == 1:
            return self.getattr(pos[0], '__dict__', st)
        return mk('call', mk('ref', 'builtins.vars'), (self.freeze(pos[0], st),), ())

    def x_print(self, pos, kw, st):
        f = kw.get('file')
        end = kw.get('end', const('\n'))
        sep = kw.get('sep', const(' '))
        parts = []
        for i, p in enumerate(pos):
            if i:
                parts.append(self.freeze(sep, st))
            parts.append(self.to_str(self.freeze(p, st)))
        parts.append(self.freeze(end, st))
        self.io_event(st, 'write', self.freeze(f, st) if f is not None else mk('ref', 'sys.stdout'), (cat(*parts),), ())
        return NONE

    def x_functools_partial(self, pos, kw, st):
        return mk('partial', self.freeze_fn(pos[0], st), tuple(pos[1:]), tuple(sorted(kw.items())))

    def x_functools_reduce(self, pos, kw, st):
        if len(pos) not in (2, 3) or kw:
            return None
        f, it = pos[:2]
        saved = {k: st.env.get(k) for k in ('f', 'it', 'acc', 'x')}
        if len(pos) == 2:
            if it.op not in ('obj', 'list'):
                it = self.x_list([it], {}, st)
            acc = self.index(it, ZERO, st)
            it = self.slice(it, ONE, NONE, NONE, st)
        else:
            acc = pos[2]
        st.env.update(f=f, it=it, acc=acc)
        r = self.block(REDUCE, st)
        if not isinstance(r, State):
            return None
        st.take(r)
        v = st.env['acc']
        for k, x in saved.items():
            st.env.pop(k, None)
            if x is not None:
                st.env[k] = x
        return v

    def freeze_fn(self, f, st):
        return f

    def x_operator_itemgetter(self, pos, kw, st):
        if len(pos) == 1:
            u = uid()
            return lam_raw(u, 1, idx(mk('bv', u, 0), pos[0]))

    def x_operator_attrgetter(self, pos, kw, st):
        if len(pos) == 1 and is_const(pos[0], str):
            u = uid()
            return lam_raw(u, 1, attr(mk('bv', u, 0), pos[0].a[1]))

    def x_operator_add(self, pos, kw, st):
        return self.binop('Add', pos[0], pos[1], st)

    def x_itertools_chain(self, pos, kw, st):
        out = []
        for p in pos:
            out.extend(self.seq(p, st))
        return self.alloc(st, 'gen', out)

    def x_itertools_chain_from_iterable(self, pos, kw, st):
        o = self.alloc(st, 'gen')

        def body(s, e):
            for x in self.seq(e, s):
                s.heap[o] = s.heap[o] + (x,)
            return s
        self.fr().loops.append(LoopCtx())
        try:
            r = self.for_each(pos[0], st, body, False)
        finally:
            self.fr().loops.pop()
        st.take(r)
        return o

    def x_itertools_count(self, pos, kw, st):
        return mk('call', mk('ref', 'itertools.count'), tuple(pos), ())

    def x_copy_copy(self, pos, kw, st):
        v = pos[0]
        if v.op == 'obj' and v.a[0] in CONTAINERS:
            return self.alloc(st, v.a[0], st.heap[v])
        ty = self.typeof(v)
        if ty and ty[0] == 'list':
            r = self.alloc(st, 'list', self.seq(v, st))
            return r
        return None

    def x_dataclasses_fields(self, pos, kw, st):
        c, _ = self.class_of(pos[0])
        if c is None:
            c = self.cls_of_ref(pos[0])
        if c is not None and c.dataclass:
            return mk('tup', *[mk('inst', 'dataclasses.Field', (('name', const(n)),)) for n in c.order])

    def x_dataclasses_replace(self, pos, kw, st):
        c, _ = self.class_of(pos[0])
        if c is not None and c.dataclass and '**' not in kw:
            return mk('inst', c.qual, tuple((n, kw[n] if n in kw else self.getattr(pos[0], n, st)) for n in c.order))

    def x_type(self, pos, kw, st):
        if len(pos) == 1:
            c, ex = self.class_of(pos[0])
            if c is not None and ex:
                return mk('ref', c.qual)

    def x_pathlib_Path(self, pos, kw, st):
        return None

    def x_os_path_join(self, pos, kw, st):
        r = pos[0]
        for p in pos[1:]:
            r = self.binop('Div', r, p, st)
        return r

    def x_super(self, pos, kw, st):
        return None

    # ============================================================ statements
    def block(self, stmts, st):
        for s in stmts:
            st = self.stmt(s, st)
            if not isinstance(st, State):
                return st
        return st

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Undecided('statement ' + type(n).__name__)
        return m(n, st)

    def s_Pass(self, n, st):
        return st

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return st
        t0 = st.trace
        h0 = st.heap
        hs = dict(st.heap)
        as_ = dict(st.attrs)
        v = self.ev(n.value, st)
        if st.trace is t0 and st.heap == hs and st.attrs == as_ and not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            def dropped(x, g):
                if x.op == 'ite':
                    dropped(x.a[1], b_and(g, atom(x.a[0])))
                    dropped(x.a[2], b_and(g, b_not(atom(x.a[0]))))
                    return
                if x.op not in ('call', 'mcall') or g is FALSE or lazily(x):
                    return
                q = x.a[0].a[0] if x.op == 'call' and x.a[0].op == 'ref' else ''
                if q in self.w.fns:
                    # a call that can only refuse
                    st.trace = st.trace + (guard(g, mk('raise', 'check', x)),)
                elif not any(q.startswith(p) for p in PURE_EXT):
                    st.trace = st.trace + (guard(g, mk('ev', 'eval', (x,), ())),)
            dropped(self.freeze(v, st) if v.op in ("call", "mcall", "ite") else v, TRUE)
        if v.op == 'never':
            self.raise_tr = st.trace
            return RAISE
        return st

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        if v.op == 'never':
            self.raise_tr = st.trace
            return RAISE
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return st
        v = self.ev(n.value, st)
        ty = self.ann_type(n.annotation, self.fr().module, self.fr().cls)
        if ty and v not in self.types and v.op in ('call', 'mcall', 'attr', 'idx', 'param', 'new'):
            self.types[v] = ty
        self.assign(n.target, v, st)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if v.op == 'call' and self.lists_out(v):
                v = self.alloc(st, 'list', [mk('old', v)])   # a new list
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j, e in enumerate(t.elts[:i]):
                    self.assign(e, self.index(v, const(j), st), st)
                rest = len(t.elts) - i - 1
                self.assign(t.elts[i].value, self.slice(v, const(i), const(-rest) if rest else NONE, NONE, st), st)
                for j in range(rest):
                    self.assign(t.elts[i + 1 + j], self.index(v, const(j - rest), st), st)
            else:
                if v.op == 'ite' and all(x.op == 'tup' and len(x.a) == len(t.elts) for x in leaves(v)):
                    vals = [lift(lambda x, j=j: x.a[j], v) for j in range(len(t.elts))]
                else:
                    vals = [self.index(v, const(j), st) for j in range(len(t.elts))]
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.freeze(self.key(t.slice, st), st)
            self.store(b, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Undecided('target')

    def set_attr(self, b, name, v, st):
        if b.op == 'ite':
            c = atom(b.a[0])
            s2 = st.copy()
            self.set_attr(b.a[1], name, v, st)
            self.set_attr(b.a[2], name, v, s2)
            m = self.merge(c, st, s2)
            m.pc = st.pc
            st.take(m)
            return
        c, ex = self.class_of(b)
        if b.op == 'inst':
            raise Undecided('update of an immutable record')
        st.attrs[(b, name)] = v

    def store(self, b, k, v, st):
        isdict = all(x.op == 'obj' and x.a[0] == 'dict' for x in leaves(b))
        if b.op == 'obj' and b.a[0] == 'list':
            kk = pconst(k)
            segs = st.heap[b]
            if isinstance(kk, int) and segs and all(s.op == 'item' for s in segs) and -len(segs) <= kk < len(segs):
                segs = list(segs)
                segs[kk] = mk('item', v)
                st.heap[b] = tuple(segs)
                return
        if not isdict:
            self.lists.add(b) if b.op in ('param', 'attr') and False else None
        # additive updates
        fv = self.freeze(v, st)
        cur = self.index(b, k, st)
        if all(x.op in ('poly', 'add') for x in leaves(fv)) and not any(x.op == 'const' for x in leaves(cur)):
            bad = mk('unk', 'no difference')

            def diff(x, y):
                r = psub(x, y) if contains(x, y) else bad
                return bad if contains(r, y) else r
            d = lift(diff, fv, cur)
            if not contains(d, bad):
                self.mutate(st, b, mk('inc', k, d))
                return
        if isdict and b.op == 'obj' and k.op == 'const':
            segs = st.heap[b]
            keep = [s for s in segs if not (s.op == 'kv' and s.a[0] is k)]
            if len(keep) != len(segs):
                out = []
                for s in segs:
                    out.append(mk('kv', k, v) if s.op == 'kv' and s.a[0] is k else s)
                st.heap[b] = tuple(out)
                return
        self.mutate(st, b, mk('kv' if isdict else 'put', k, v))

    def s_AugAssign(self, n, st):
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
            v = self.ev(n.value, st)
            if op == 'Add' and cur.op == 'obj' and cur.a[0] == 'list':
                for s in self.seq(v, st):
                    self.mutate(st, cur, s)
                return st
            st.env[t.id] = self.binop(op, cur, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.getattr(b, t.attr, st)
            v = self.ev(n.value, st)
            if op == 'Add' and cur.op == 'obj' and cur.a[0] == 'list':
                for s in self.seq(v, st):
                    self.mutate(st, cur, s)
                return st
            self.set_attr(b, t.attr, self.binop(op, cur, v, st), st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.freeze(self.key(t.slice, st), st)
            v = self.ev(n.value, st)
            if op in ('Add', 'Sub'):
                cur = self.index(b, k, st)
                fv = self.freeze(v, st)
                if cur.op == 'obj' and cur.a[0] == 'list' or fv.op in ('list', 'tup') or is_str(fv):
                    self.store(b, k, self.binop(op, cur, v, st), st)
                else:
                    isconst = b.op == 'obj' and b.a[0] == 'list' and all(s.op == 'item' for s in st.heap[b])
                    last = st.heap[b][-1] if st.heap.get(b) else None
                    if last is not None and last.op == 'g':
                        last = last.a[1]
                    if last is not None and last.op in ('put', 'kv') and last.a[0] is k and k.op != 'const':
                        # set (perhaps) and increased: set
                        v = self.binop(op, cur, v, st)
                        st.heap[b] = st.heap[b][:-1]
                        self.store(b, k, v, st)
                    elif isconst:
                        self.store(b, k, self.binop(op, cur, v, st), st)
                    else:
                        d = fv if op == 'Add' else pneg(fv)
                        self.mutate(st, b, mk('inc', k, d))
            else:
                self.store(b, k, self.binop(op, self.index(b, k, st), v, st), st)
        return st

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.freeze(self.key(t.slice, st), st)
                self.mutate(st, b, mk('del', k))
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_If(self, n, st):
        c = self.cond(n.test, st)
        if c.op == 'const':
            return self.block(n.body if c.a[1] else n.orelse, st)
        s1, s2 = st.copy(), st
        pc0 = st.pc
        s1.pc, s2.pc = b_and(pc0, c), b_and(pc0, b_not(c))
        self.narrow(s1, c)
        self.narrow(s2, b_not(c))
        r1 = self.block(n.body, s1) if s1.pc is not FALSE else None
        t1 = self.raise_tr if r1 is RAISE else None
        r2 = self.block(n.orelse, s2) if s2.pc is not FALSE else None
        t2 = self.raise_tr if r2 is RAISE else None
        if s1.pc is FALSE and not isinstance(r1, State) and r1 is None and b_and(pc0, c) is FALSE:
            return r2
        if b_and(pc0, b_not(c)) is FALSE and r2 is None:
            return r1
        return self.after_if(c, r1, r2, pc0, t1, t2)

    def s_Return(self, n, st):
        v = self.ev(n.value, st) if n.value else NONE
        if v.op == 'never':
            self.raise_tr = st.trace
            return RAISE
        self.fr().exits.append((st, v))
        return None

    def s_Raise(self, n, st):
        name = '?'
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            d = dotted_name(e)
            if d:
                t = self.name(d.split('.')[0], st)
                name = t.a[0] if t.op == 'ref' else 'reraise'
            if isinstance(n.exc, ast.Call):
                args = []
                for a in n.exc.args:
                    if not isinstance(a, (ast.JoinedStr, ast.Constant, ast.BinOp)):
                        args.append(self.freeze(self.ev(a, st), st))
                self.raised(st, st.pc, name, tuple(args))
                return RAISE
        self.raised(st, st.pc, name)
        return RAISE

    def raised(self, st, c, name, args=()):
        self.refusal = mk('raise', name, *args)
        self.raise_tr = st.trace

    raise_tr = None

    def refuses(self, st, c, tr=None):
        """where c it refuses, having done tr; otherwise it did what the state says"""
        if c is FALSE:
            return
        k = shared_prefix(st.trace, tr) if tr is not None else len(st.trace)
        st.trace = st.trace[:k] + tuple(guard(c, x) for x in (tr or ())[k:] if lasting(x, self.w)) + (guard(c, self.refusal),) + st.trace[k:]

    refusal = mk('raise', '?')
    endless = None

    def s_Assert(self, n, st):
        c = self.cond(n.test, st)
        if c is not TRUE:
            self.raised(st, b_and(st.pc, b_not(c)), 'builtins.AssertionError')
            st.trace = st.trace + (guard(b_not(c), mk('raise', 'builtins.AssertionError')),) if c is not FALSE else st.trace + (mk('raise', 'builtins.AssertionError'),)
        o = asserted_options(n.test)
        if o is not None:
            v = st.env.get(o[0])
            if v is not None and v.op == 'param' and st.pc is TRUE:
                self.options[v] = o[1]
        return st

    def updated_case(self, n, st):
        """the condition that says which of two containers the loop updates"""
        for x in ast.walk(n):
            b = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                b = x.func.value
            if isinstance(b, ast.Name):
                v = st.env.get(b.id)
                if v is not None and v.op == 'ite' and all(y.op in ('param', 'obj') for y in leaves(v)):
                    return v.a[0]
        return None

    def s_For(self, n, st):
        a = self.updated_case(n, st)
        if a is not None and b_and(st.pc, atom(a)) is not FALSE and b_and(st.pc, b_not(atom(a))) is not FALSE:
            s1, s2, pc0 = st.copy(), st, st.pc
            for s, pol in ((s1, True), (s2, False)):
                s.pc = b_and(pc0, atom(a) if pol else b_not(atom(a)))
                s.env = {k: assume(v, a, pol) if isinstance(v, T) else v for k, v in s.env.items()}
            r1 = self.s_For(n, s1)
            r2 = self.s_For(n, s2)
            return self.after_if(atom(a), r1, r2, pc0)
        it = self.ev(n.iter, st)
        fr = self.fr()
        has_exit = any(isinstance(x, (ast.Break, ast.Return)) for b in n.body for x in walk_loop(b))

        def body(s, e):
            self.assign(n.target, e, s)
            return self.block(n.body, s)
        segs = None
        ctx = LoopCtx()
        fr.loops.append(ctx)
        pc0 = st.pc
        try:
            r = self.for_each(it, st, body, has_exit)
        finally:
            fr.loops.pop()
        # unrolled loops leave breaks / continues in our context
        exited = None
        if isinstance(r, State):
            exited = r.env.pop('#exited', None)
        if ctx.conts:
            r = self.rejoin(ctx.conts, r)
        if n.orelse and isinstance(r, State):
            if exited is not None and exited is not FALSE:
                s1, s2 = r.copy(), r
                s1.pc = b_and(r.pc, b_not(exited))
                s2 = r.copy()
                s2.pc = b_and(r.pc, exited)
                q = self.block(n.orelse, s1)
                r = self.after_if(b_not(exited), q, s2, r.pc)
            else:
                r = self.block(n.orelse, r)
        if ctx.breaks:
            r = self.rejoin(ctx.breaks, r)
        return r

    def s_While(self, n, st):
        fr = self.fr()
        fr.loops.append(LoopCtx())
        try:
            r = self.loop(st, INF, lambda s, k: self.block(n.body, s), True, while_test=lambda s: self.cond(n.test, s))
        finally:
            fr.loops.pop()
        if isinstance(r, State):
            r.env.pop('#exited', None)
            if n.orelse:
                return self.block(n.orelse, r)
        return r

    def s_Break(self, n, st):
        self.fr().loops[-1].breaks.append(st)
        return None

    def s_Continue(self, n, st):
        self.fr().loops[-1].conts.append(st)
        return None

    def s_FunctionDef(self, n, st):
        fr = self.fr()
        f = Fn(f'{fr.fn.qual if fr.fn else fr.module.name}.<locals>.{n.name}', n, fr.module, None)
        v = self.closure(n, st, f)
        st.env[n.name] = v
        return st

    def s_Import(self, n, st):
        for a in n.names:
            q = a.name if a.asname else a.name.split('.')[0]
            st.env[a.asname or a.name.split('.')[0]] = self.resolve(self.w.dotted(q))
        return st

    def s_ImportFrom(self, n, st):
        base = self.w._rel(self.fr().module, n)
        for a in n.names:
            st.env[a.asname or a.name] = self.resolve(self.w.dotted(f'{base}.{a.name}'))
        return st

    def s_Global(self, n, st):
        return st

    s_Nonlocal = s_Global

    def s_ClassDef(self, n, st):
        st.env[n.name] = mk('unk', ast.dump(n))
        return st

    def s_With(self, n, st):
        return self.with_items(n.items, n.body, st)

    def with_items(self, items, body, st):
        if not items:
            return self.block(body, st)
        it = items[0]
        v = self.ev(it.context_expr, st)
        fv = self.freeze(v, st)
        ident = (fv.op == 'ref' and any(fv.a[0].startswith(i) for i in IGNORED)) or \
            (isinstance(it.context_expr, ast.Call) and self.ev_is_tqdm(it.context_expr, st))
        if ident:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            return self.with_items(items[1:], body, st)
        if is_file(fv):
            # with open(..) as f: body   ==   f = open(..); try: body finally: f.close()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            return self.protected(lambda s: self.with_items(items[1:], body, s), lambda s: self.closing(fv, s), st)
        ent = v if fv.op == 'inst' else mk('entered', fv)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st)
        fr = self.fr()
        st.trace = st.trace + (mk('ev', 'enter', (fv,), ()),)
        marks = (len(fr.exits), [(len(l.breaks), len(l.conts)) for l in fr.loops[-1:]])
        leave = mk('ev', 'leave', (fv,), ())
        r = self.with_items(items[1:], body, st)
        if isinstance(r, State):
            r.trace = r.trace + (leave,)
        for s, _ in fr.exits[marks[0]:]:
            s.trace = s.trace + (leave,)
        for l, (nb, nc) in zip(fr.loops[-1:], marks[1]):
            for s in l.breaks[nb:] + l.conts[nc:]:
                s.trace = s.trace + (leave,)
        return r

    def closing(self, fv, st):
        self.event(st, 'close', (fv,))
        return st

    def protected(self, body, final, st):
        """try: body finally: final"""
        fr = self.fr()
        t0 = st.trace
        st.trace = ()
        pre = st.copy()
        marks = (len(fr.exits), [(l, len(l.breaks), len(l.conts)) for l in fr.loops])
        r = body(st)
        states = [s for s, _ in fr.exits[marks[0]:]]
        for l, nb, nc in marks[1]:
            states += l.breaks[nb:] + l.conts[nc:]
        if isinstance(r, State):
            states.append(r)
        for s in states:
            done = s.trace
            s.trace = ()
            q = final(s)
            if q is not s and isinstance(q, State):
                s.take(q)
            fin = s.trace
            s.trace = t0 + ((mk('protect', done, fin),) if fin else done)
        if not states:
            s = pre.copy()
            s.trace = ()
            q = final(s)
            fin = q.trace if isinstance(q, State) else ()
            st.trace = t0 + ((mk('protect', (), fin),) if fin else ())
        return r

    def ev_is_tqdm(self, call, st):
        d = dotted_name(call.func)
        if not d:
            return False
        try:
            f = self.ev(call.func, st)
        except Undecided:
            return False
        return f.op == 'ref' and f.a[0] in IDENTITY

    def looked_up(self, n, st):
        """try: use d[k]  except KeyError: ...   as a test"""
        if len(n.handlers) != 1 or n.finalbody or len(n.body) != 1 or not isinstance(n.body[0], (ast.Return, ast.Assign)):
            return None
        h, v = n.handlers[0], n.body[0].value
        if h.name or not (isinstance(h.type, ast.Name) and h.type.id == 'KeyError') or not isinstance(v, ast.Subscript) or isinstance(v.slice, ast.Slice):
            return None
        if isinstance(n.body[0], ast.Assign) and not (len(n.body[0].targets) == 1 and isinstance(n.body[0].targets[0], ast.Name)):
            return None

        def simple(e):
            return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value) or isinstance(e, ast.Tuple) and all(simple(x) for x in e.elts)
        if not simple(v.value) or not simple(v.slice):
            return None
        d = self.ev(v.value, st.copy())
        ty = self.typeof(d)
        if d.op == 'obj' and d.a[0] == 'dict':
            if any(s.op == 'fac' for s in st.heap.get(d, ())):
                return None
        elif not (ty and ty[0] == 'dict' or d in self.mappings):
            return None
        test = ast.Compare(left=v.slice, ops=[ast.In()], comparators=[v.value])
        r = ast.If(test=test, body=list(n.body) + list(n.orelse), orelse=list(h.body))
        return ast.fix_missing_locations(ast.copy_location(r, n))

    def s_Try(self, n, st):
        as_if = self.looked_up(n, st)
        if as_if is not None:
            return self.s_If(as_if, st)
        fr = self.fr()
        fr.tries += 1
        self.endless = None
        t0 = st.trace
        st.trace = ()
        pre = st.copy()
        marks = (len(fr.exits), [(l, len(l.breaks), len(l.conts)) for l in fr.loops])
        r = self.block(n.body, st)
        if isinstance(r, State) and n.orelse:
            r = self.block(n.orelse, r)
        if n.handlers:
            body_exits = fr.exits[marks[0]:]
            inf_loop = r is RAISE and self.endless is not None
            why = ()
            if inf_loop:
                st = self.endless
                self.endless = None
                why = st.env.pop('#endless').a
            outs = []
            tot = FALSE
            for i, h in enumerate(n.handlers):
                names = []
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
                for t in types:
                    d = dotted_name(t)
                    v = self.name(d.split('.')[0], pre) if d else None
                    names.append(v.a[0].split('.')[-1] if v is not None and v.op == 'ref' else '?')
                fact = mk('exc', tuple(sorted(names)), i, *why)
                c = atom(mk('truthy', fact))
                if inf_loop and not body_exits:
                    c = TRUE
                s = pre.copy()
                s.trace = ()
                # what the body may have done before the exception
                done = r.trace if isinstance(r, State) else (body_exits[-1][0].trace if body_exits else ())
                if inf_loop:
                    done = subst(tuple(st.trace), {INF: mk('rounds', fact)})
                s.pc = b_and(pre.pc, b_and(c, b_not(tot)))
                if h.name:
                    s.env[h.name] = mk('caught', fact)
                if inf_loop and len(done) == 1 and done[0].op == 'star' and done[0].a[1] == mk('rounds', fact) and not done[0].a[3]:
                    part = split_yields(subst(done[0].a[4], {mk('iterk', done[0].a[0]): done[0].a[1]}), False)
                    s.trace = done + ((mk('upto', *part),) if part else ())
                else:
                    s.trace = (mk('upto', *done),) if done else ()
                if inf_loop:
                    # the rounds end, after an unknown number of them
                    m = {INF: mk('rounds', fact)}
                    s.env.update({k: subst(v, m) if isinstance(v, T) else v for k, v in st.env.items()})
                    s.heap = {k: tuple(subst(tuple(v), m)) for k, v in st.heap.items()}
                    s.attrs = {k: subst(v, m) for k, v in st.attrs.items()}
                q = self.block(h.body, s)
                outs.append((b_and(c, b_not(tot)), q))
                tot = b_or(tot, c)
            # conditions of the body exits exclude the exceptions
            ok = b_not(tot)
            n_after = len(fr.exits)
            for s, _ in body_exits:
                s.pc = b_and(s.pc, ok)
            sts = []
            if isinstance(r, State):
                r.pc = b_and(r.pc, ok)
                if r.pc is not FALSE:
                    sts.append(r)
            any_raise = r is RAISE
            for c, q in outs:
                if isinstance(q, State):
                    sts.append(q)
                elif q is RAISE:
                    any_raise = True
            if sts:
                # don't-care: handlers that re-raise
                acc = self.rejoin(sts[:-1], sts[-1])
                if any(q is RAISE for _, q in outs):
                    for c, q in outs:
                        if q is RAISE:
                            acc.pc = b_or(acc.pc, b_and(pre.pc, c))
                r = acc
            else:
                r = RAISE if any_raise else None
                if any(q is RAISE for _, q in outs):
                    self.raise_tr = None
        if n.finalbody:
            states = [s for s, _ in fr.exits[marks[0]:]]
            for l, nb, nc in marks[1]:
                states += l.breaks[nb:] + l.conts[nc:]
            if isinstance(r, State):
                states.append(r)
            for s in states:
                body = s.trace
                s.trace = ()
                q = self.block(n.finalbody, s)
                if q is not s and isinstance(q, State):
                    env = q.env
                    s.take(q)
                fin = s.trace
                s.trace = t0 + ((mk('protect', body, fin),) if fin else body)
            if not states:
                # only exceptional: still number the final block
                s = pre.copy()
                s.trace = ()
                q = self.block(n.finalbody, s)
                fin = q.trace if isinstance(q, State) else ()
                st.trace = t0 + ((mk('protect', (), fin),) if fin else ())
        else:
            for s, _ in fr.exits[marks[0]:]:
                s.trace = t0 + s.trace
            for l, nb, nc in marks[1]:
                for s in l.breaks[nb:] + l.conts[nc:]:
                    s.trace = t0 + s.trace
            if isinstance(r, State):
                r.trace = t0 + r.trace
        return r


# ---------------------------------------------------------------- helpers
STR_UNBOUND = {'encode', 'decode', 'strip', 'rstrip', 'lstrip', 'split', 'join', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'format', 'isdigit', 'isspace'}


def sorted_items(segs, key):
    """the entries of a mapping, ordered by their keys: (the keys, entry of a key, a binder)"""
    if key is not None and not (key.op == 'lam' and key.a[1] == 1 and key.a[2] is mk('idx', mk('bv', key.a[0], 0), ZERO)):
        return None
    if len(segs) != 1 or segs[0].op != 'star' or not plain_star(segs[0]):
        return None
    h, dom, _, _, (x,) = segs[0].a
    k = mk('iterk', h)
    e = x.a[0] if x.op == 'item' else None
    if e is None or e.op != 'tup' or len(e.a) != 2 or e.a[0].op != 'keyat' or e.a[0].a[1] is not k or dom is not length(e.a[0].a[0]) or varies(e.a[0].a[0], h):
        return None
    at = e.a[0]
    if varies(subst(e.a[1], {at: NONE}), h):
        return None
    return star_raw(h, dom, FALSE, (), (mk('item', at),)), lambda y: mk('tup', y, subst(e.a[1], {at: y})), uid()


def str_tail(x, c):
    """what is put behind the string c to give x, as segments"""
    if x is c:
        return ()
    if x.op == 'ite':
        a, b = str_tail(x.a[1], c), str_tail(x.a[2], c)
        return None if a is None or b is None else merge_segs(atom(x.a[0]), a, b)
    if x.op == 'cat' and len(x.a) > 1 or x.op == 'add':
        a = str_tail(x.a[0], c)
        return None if a is None else a + tuple(mk('item', y) for y in x.a[1:])
    if x.op == 'join' and is_const(x.a[0], str) and x.a[0].a[1] == '' and x.a[1].op == 'list' and x.a[1].a and x.a[1].a[0].op == 'item':
        a = str_tail(x.a[1].a[0].a[0], c)
        return None if a is None else a + x.a[1].a[1:]
    return None


def num_tail(x, c):
    """what is added to the number c to give x"""
    if x is c:
        return ZERO
    if x.op == 'ite':
        a, b = num_tail(x.a[1], c), num_tail(x.a[2], c)
        return None if a is None or b is None else ite(x.a[0], a, b)
    if x.op == 'add' and not contains(x.a[1], c):
        a = num_tail(x.a[0], c)
        return None if a is None else padd(a, x.a[1])
    return None


def list_valued(f):
    """every return of the function gives a list"""
    def kind(e, depth=0):
        if isinstance(e, (ast.List, ast.ListComp)):
            return True
        if isinstance(e, ast.Call):
            d = e.func
            if isinstance(d, ast.Name) and d.id in ('list', 'sorted'):
                return True
            if (d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')) == f.node.name:
                return None
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) or isinstance(e, ast.IfExp):
            ks = [kind(x, depth) for x in ((e.left, e.right) if isinstance(e, ast.BinOp) else (e.body, e.orelse))]
            return False if False in ks else True if True in ks else None
        if isinstance(e, ast.Name) and depth < 3:
            vals = []
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    vals.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                    vals.append(n.value)
                elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for t in n.targets for x in ast.walk(t)) \
                        or isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n.target)):
                    return False
            ks = [kind(v, depth + 1) for v in vals]
            return bool(ks) and False not in ks and True in ks
        return False
    ks = [kind(n.value) if n.value is not None else False for n in own_nodes(f.node) if isinstance(n, ast.Return)]
    return bool(ks) and False not in ks and True in ks


def under(s, care):
    """the segment, where it is known to be in the region care"""
    if s.op == 'star' and s.a[1].op == 'ite':
        d = simplify(s.a[1], care)
        if d is not s.a[1]:
            s = star_raw(s.a[0], d, *s.a[2:])
    if s.op == 'star' and s.a[4] and all(x.op == 'g' for x in s.a[4]):
        b = tuple(y for y in (under(x, care) for x in s.a[4]) if y is not None)
        return None if not b else s if b == s.a[4] else star_raw(*s.a[:4], b)
    if s.op != 'g':
        return s
    c = simplify(s.a[0], care)
    return None if c is FALSE else s if c is s.a[0] else guard(c, s.a[1])


LASTING = {'write', 'writelines', 'write_text', 'write_bytes', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'save', 'touch',
           'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.makedirs',
           'os.mkdir', 'pickle.dump', 'mapPartitionsWithIndex'}


def lasting(x, w=None):
    """an effect outside the process that stays"""
    if x.op == 'g':
        return lasting(x.a[1], w)
    if x.op == 'star':
        return any(lasting(y, w) for y in x.a[4])
    if x.op in ('upto', 'protect'):
        return any(lasting(y, w) for y in (x.a if x.op == 'upto' else x.a[0] + x.a[1]))
    return x.op == 'ev' and (x.a[0] in LASTING or x.a[0].startswith('call:') and (w is None or w.lasting(x.a[0][5:], LASTING)))


def shared_prefix(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] is b[k]:
        k += 1
    return k


def lazily(x):
    """a description of what spark may have to do"""
    if x.op == 'ite':
        return lazily(x.a[1]) and lazily(x.a[2])
    return x.op == 'attr' and x.a[1] == 'rdd' or x.op == 'mcall' and x.a[1] in ('map', 'filter', 'flatMap', 'zipWithIndex', 'repartition') and lazily(x.a[0])


def earlier_raises(segs):
    """a refusal stands before the effects of the other cases"""
    if not any(s.op == 'g' and s.a[1].op == 'raise' for s in segs[1:]):
        return segs
    out = []
    for s in segs:
        k = len(out)
        if s.op == 'g' and s.a[1].op == 'raise':
            while k and out[k - 1].op == 'g' and out[k - 1].a[1].op != 'raise' and b_and(out[k - 1].a[0], s.a[0]) is FALSE:
                k -= 1
        out.insert(k, s)
    return out


def unrefused(segs):
    """the effects, each under what the refusals before it leave, and what all of them leave"""
    care, out = TRUE, []
    for s in earlier_raises(segs):
        if s.op == 'g' and s.a[1].op == 'raise':
            out.append(s)
            if s.a[1].a[:1] == ('check',):
                # the call may refuse or not
                continue
            care = b_and(care, b_not(s.a[0]))
            continue
        if care is not TRUE and care is not FALSE:
            s = under(s, care)
            if s is None:
                continue
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op == 'star' and has_op(e, 'raise'):
            e2 = star_raw(*e.a[:4], unrefused(e.a[4])[0])
        elif e.op in ('upto', 'protect') and has_op(e, 'raise'):
            e2 = mk('upto', *unrefused(e.a)[0]) if e.op == 'upto' else mk('protect', *(unrefused(x)[0] for x in e.a))
        else:
            e2 = e
        out.append(s if e2 is e else guard(g, e2))
    return tuple(out), care


def decisions(c):
    """the atoms that a diagram decides on"""
    out, st, seen = set(), [c], set()
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            out.add(x.a[0])
            st += [x.a[1], x.a[2]]
    return out


def is_file(v):
    """the result of opening a file"""
    if v.op == 'ite':
        return is_file(v.a[1]) and is_file(v.a[2])
    if v.op == 'call' and v.a[0].op == 'ref':
        return v.a[0].a[0] in ('builtins.open', 'gzip.open', 'io.open', 'codecs.open') or v.a[0].a[0].startswith('nlcodec.utils.IO.')
    return v.op == 'mcall' and v.a[1] == 'open'


def canon_ext(q):
    alias = {'np.': 'numpy.', 'coll.': 'collections.'}
    return q


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def is_self_attr(t, name):
    return isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == 'self'


def walk_loop(n):
    """nodes that may leave the enclosing loop"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(x, (ast.For, ast.While)) and isinstance(c, ast.Break):
                continue
            st.append(c)


def asserted_options(t):
    """(name, the strings it was asserted to be one of)"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)):
        name, vals = t.left.id, t.comparators[0].elts
    elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and all(
            isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.Eq) and isinstance(x.left, ast.Name) for x in t.values):
        name, vals = t.values[0].left.id, [x.comparators[0] for x in t.values]
        if any(x.left.id != name for x in t.values):
            return None
    else:
        return None
    if not all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in vals) or not 1 <= len(vals) <= 4:
        return None
    return name, sorted(x.value for x in vals)


def plain_dict(t):
    """the entries, without what new keys would get"""
    if t.op == 'dict' and any(s.op == 'fac' for s in t.a):
        return mk('dict', *[s for s in t.a if s.op != 'fac'])
    return t


def with_default(c, t):
    """(the update of the dict c, the default it gives to new keys): an entry that starts from
    nothing when the key is new is an entry of a dict with defaults"""
    if t.op != 'dict' or not t.a or t.a[0] is not mk('old', c):
        return t, None
    out, fac = [], None
    segs = list(t.a[1:])
    i = 0
    while i < len(segs):
        s = segs[i]
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (None, s)
        if e.op in ('kv', 'put') and e.a[1].op == 'ite' and fac in (None, mk('ref', 'builtins.int')):
            key, v = e.a
            if atom(v.a[0]) is atom(mk('in', key, c)):
                cur = mk('idx', c, key)
                d = psub(v.a[1], cur)
                if d is v.a[2] and not contains(d, cur) and is_num(d):
                    fac = mk('ref', 'builtins.int')
                    e = mk('inc', key, d)
                    out.append(e if g is None else guard(g, e))
                    i += 1
                    continue
        if e.op == 'sub' and g is not None and i + 1 < len(segs) and segs[i + 1].op == 'g':
            g2, e2 = segs[i + 1].a
            if e2.op in ('kv', 'put') and e2.a[0] is e.a[0] and g is atom(mk('in', e.a[0], c)) and g2 is b_not(g) and e2.a[1].op in ('list', 'set', 'dict') \
                    and e2.a[1].a == (e.a[1],) and e.a[1].op in ('item', 'kv', 'put'):
                f = mk('ref', 'builtins.' + e2.a[1].op)
                if fac in (None, f):
                    fac = f
                    out.append(e)
                    i += 2
                    continue
        out.append(s)
        i += 1
    if fac is None:
        return t, None
    return mk('dict', t.a[0], *out), fac


def contains_any(ts, c):
    return any(x is c for x in walk(tuple(ts)))


def distinct(a, b):
    """keys that are certainly different"""
    if a.op == 'const' and b.op == 'const':
        return a.a[1] != b.a[1]
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    if is_num(a) or is_num(b):
        c = pconst(psub(a, b))
        return c is not None and c != 0
    return False


def is_inc(fv, cur):
    return to_poly(fv).get((cur,), 0) == 1


def concrete(segs):
    return all(s.op == 'item' or s.op == 'g' and s.a[1].op == 'item' for s in segs)


def decision_nodes(t):
    """the tests at the top of a value"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            yield x
            st.extend(x.a[1:])


def mk_sum(s):
    """a sum does not depend on the order: over sorted(xs) it is the sum over xs"""
    if s.op == 'star':
        h, dom, brk, car, segs = s.a
        x = segs[0].a[0] if len(segs) == 1 and segs[0].op == 'item' and brk is FALSE and dom is not INF else NONE
        if x.op == 'ite':
            a = next((y.a[0] for y in decision_nodes(x) if not varies(y.a[0], h) and not any(c[0] is y.a[0] for c in car)), None)
            if a is not None:
                # by a case that is the same in all rounds
                def half(v):
                    y = assume(x, a, v)
                    n = pconst(y)
                    return pmul(y, dom) if n is not None else mk_sum(star_raw(h, dom, brk, subst(car, {a: const(v)}), (mk('item', y),)))
                return ite(atom(a), half(True), half(False))
        if dom.op == 'ite' and brk is FALSE and not car:
            r = ZERO
            for t in split_dom(s):
                r = padd(r, mk_sum(mk('star', *t.a[:4], tuple(mk('item', ite(x.a[0], x.a[1].a[0], ZERO)) if x.op == 'g' and x.a[1].op == 'item' else x for x in t.a[4]))))
            return r
        if brk is FALSE and not car and dom is not INF:
            k = mk('iterk', h)
            srt = {x.a[0] for x in walk(segs) if x.op == 'idx' and x.a[1] is k and x.a[0].op == 'call' and x.a[0].a[0] is mk('ref', 'builtins.sorted')}
            if len(srt) == 1:
                src = srt.pop()
                xs = src.a[1][0]
                at = mk('idx', src, k)
                rest = subst(segs, {at: NONE})
                if length(src) is dom and not any(x is k or x is src for x in walk(rest)) and not any(x is k for x in walk(xs)):
                    return mk('sum', star_raw(h, dom, brk, car, subst(segs, {at: idx(xs, k)})))
    return mk('sum', s)


def plain_star(s):
    h, dom, brk, car, segs = s.a
    return brk is FALSE and not car and len(segs) == 1 and segs[0].op == 'item'


def ok_iter(s):
    if s.op in ('item', 'old'):
        return True
    if s.op == 'g':
        return ok_iter(s.a[1])
    if s.op == 'star':
        return all(ok_iter(x) and x.op != 'old' for x in s.a[4])
    return False


def is_kv_seg(s):
    if s.op in ('kv', 'fac'):
        return True
    if s.op == 'g':
        return is_kv_seg(s.a[1])
    if s.op == 'star':
        return all(is_kv_seg(x) for x in s.a[4])
    return False


def contains_rdd(t):
    return any(x.op == 'mcall' and x.a[1] in ('mapPartitionsWithIndex', 'mapPartitions') for x in walk(t))


def map_segs(segs, f):
    return [x for x in (map_seg(s, f) for s in segs) if x is not None]


def map_seg(s, f):
    if s.op == 'g':
        x = map_seg(s.a[1], f)
        return None if x is None else guard(s.a[0], x)
    if s.op == 'star':
        h, dom, brk, car, segs = s.a
        return star_raw(h, dom, brk, car, tuple(map_segs(segs, f)))
    if s.op == 'protect':
        return s
    return f(s)


def split_yields(tr, want):
    out = []
    for s in tr:
        e = s
        g = TRUE
        if e.op == 'g':
            g, e = e.a
        if e.op == 'star':
            h, dom, brk, car, segs = e.a
            sub = split_yields(segs, want)
            if sub:
                out.append(guard(g, star_raw(h, dom, brk, car, tuple(sub))))
        elif e.op == 'protect':
            sub = split_yields(e.a[0], want)
            if want:
                out.extend(guard(g, x) for x in sub)
            else:
                out.append(guard(g, mk('protect', tuple(sub), e.a[1])))
        elif e.op == 'upto':
            sub = split_yields(e.a, want)
            if sub:
                out.append(guard(g, mk('upto', *sub)) if not want else guard(g, sub[0]) if len(sub) == 1 else guard(g, mk('upto', *sub)))
        else:
            isy = e.op == 'ev' and e.a[0] == 'yield'
            if isy == want:
                out.append(s)
    return tuple(out)


def sort_inc(segs):
    """additive updates commute"""
    out, run = [], []
    for s in segs:
        e = s.a[1] if s.op == 'g' else s
        if e.op == 'inc':
            run.append(s)
            continue
        out.extend(join_inc(run))
        run = []
        out.append(s)
    out.extend(join_inc(run))
    return out


def join_inc(run):
    acc = {}
    for s in run:
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        acc.setdefault(e.a[0], []).append((g, e.a[1]))
    out = []
    for k in sorted(acc, key=lambda t: t.n):
        tot = ZERO
        for g, d in acc[k]:
            tot = padd(tot, ite(g, d, ZERO))
        if tot is not ZERO:
            out.append(mk('inc', k, tot))
    return out


def jn(c, a, b):
    if a.op in CONTAINERS and b.op == a.op:
        return mk(a.op, *clean(merge_segs(c, a.a, b.a)))
    return ite(c, a, b)

