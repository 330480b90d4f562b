"""Hash-consed terms: the abstract values of the gated value numbering.

A term names *how a value is computed* from the inputs of a function; two identical terms denote equal values.  Terms are
normalised on construction (linear arithmetic, comparisons, string concatenation, projections, decision diagrams for
conditional values), so that different spellings of one computation number to the same term.

Conditional values are ordered decision diagrams  ite(atom, hi, lo); booleans are diagrams with leaves True / False.
Repetition is a closed binder term  star(h, domain, brk, carried, segs)  (what a loop emits) or  post(h, domain, brk, carried, j)
(the final value of a loop carried variable); h is the height of the binder, which makes the bound names canonical.
"""
from __future__ import annotations


class Undecided(Exception):
    """the analysis cannot number this construct"""


class T:
    __slots__ = ('op', 'a', 'n', 'h', '_f')
    _tab: dict = {}
    _n = 0

    def __repr__(self):
        return show(self)


LIMIT = [2_500_000]


def mk(op, *a):
    key = (op, a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        T._n += 1
        if T._n > LIMIT[0]:
            raise Undecided('term limit')
        t.n = T._n
        h = 0
        st = list(a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                if x.h > h:
                    h = x.h
            elif isinstance(x, tuple):
                st.extend(x)
        if op in ('star', 'post', 'lam'):
            h = max(h, a[0])
        t.h = h
        t._f = None
        T._tab[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
INF = mk('inf')
UNDEF = mk('undef')
_uid = [0]


def uid():
    _uid[0] += 1
    return -_uid[0]


def is_const(t, *types):
    return t.op == 'const' and (not types or isinstance(t.a[1], types))


def cval(t, default=None):
    return t.a[1] if t.op == 'const' else default


# ---------------------------------------------------------------- numbers
NUM_OPS = {'poly', 'len', 'iterk', 'sum', 'max', 'min', 'abs', 'num'}
INT_OPS = {'len', 'iterk', 'int', 'rounds'}


SIZES: set = set()     # attributes that hold the size of their object


def is_mod(t):
    """x % m of whole numbers, m > 0"""
    return t.op == 'bin' and t.a[0] == 'Mod' and t.a[2].op == 'const' and type(t.a[2].a[1]) is int and t.a[2].a[1] > 0 and is_int(t.a[1])


def is_num(t):
    if t.op == 'const':
        return isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool)
    if t.op == 'ite':
        return is_num(t.a[1]) and is_num(t.a[2])
    if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in ('builtins.int', 'builtins.float', 'builtins.round'):
        return True
    if t.op == 'attr':
        return t.a[1] in SIZES
    return t.op in NUM_OPS or is_mod(t)


def is_int(t):
    if t.op == 'const':
        return isinstance(t.a[1], int)
    if t.op == 'poly':
        return all(isinstance(c, int) for _, c in t.a[0]) and all(is_int(x) for m, _ in t.a[0] for x in m)
    if t.op in ('max', 'min'):
        return all(is_int(x) for x in t.a)
    if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in ('builtins.int',):
        return True
    if t.op == 'attr':
        return t.a[1] in SIZES
    return t.op in INT_OPS or is_mod(t)


def to_poly(t):
    """term -> {monomial (sorted tuple of terms): coefficient}"""
    if t.op == 'const' and isinstance(t.a[1], (int, float)):
        return {(): t.a[1]} if t.a[1] != 0 else {}
    if t.op == 'poly':
        return dict(t.a[0])
    if t.op == 'add':
        p = dict(to_poly(t.a[0]))
        for m, c in to_poly(t.a[1]).items():
            p[m] = p.get(m, 0) + c
        return p
    return {(t,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if set(p) == {()}:
        return const(p[()])
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return mk('poly', tuple(sorted(p.items(), key=lambda mc: tuple(x.n for x in mc[0]))))


def padd(a, b, s=1):
    def f(x, y):
        p = dict(to_poly(x))
        for m, c in to_poly(y).items():
            p[m] = p.get(m, 0) + s * c
        return from_poly(p)
    return lift(f, a, b)


def psub(a, b):
    return padd(a, b, -1)


def _factors(m):
    # x/y * y -> x for the syntactic reciprocal
    return m


def pmul(a, b):
    def f(x, y):
        p = {}
        for m1, c1 in to_poly(x).items():
            for m2, c2 in to_poly(y).items():
                m = tuple(sorted(m1 + m2, key=lambda z: z.n))
                p[m] = p.get(m, 0) + c1 * c2
        return from_poly(p)
    return lift(f, a, b)


def pneg(a):
    return psub(ZERO, a)


def pconst(t):
    if t.op == 'const' and isinstance(t.a[1], (int, float)):
        return t.a[1]
    return None


# ---------------------------------------------------------------- strings
def cat(*parts):
    for i, p in enumerate(parts):
        if p.op == 'ite':
            return ite(p.a[0], cat(*parts[:i], p.a[1], *parts[i + 1:]), cat(*parts[:i], p.a[2], *parts[i + 1:]))
    out = []
    for p in parts:
        ps = p.a if p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'const' and isinstance(q.a[1], str):
                if q.a[1] == '':
                    continue
                if out and is_const(out[-1], str):
                    out[-1] = const(out[-1].a[1] + q.a[1])
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    if any(is_plain_join(p) for p in out):
        segs = []
        for p in out:
            segs.extend(p.a[1].a if is_plain_join(p) else (mk('item', p),))
        return join_parts(const(''), segs)
    return mk('cat', *out)


def is_plain_join(p):
    return p.op == 'join' and p.a[0].op == 'const' and p.a[0].a[1] == '' and p.a[1].op == 'list'


def join_parts(d, segs):
    """d.join(segs)"""
    if d.op == 'const' and d.a[1] == '':
        def flat(ss):
            out = []
            for s in ss:
                g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
                if e.op == 'item':
                    if e.a[0].op == 'cat':
                        parts = e.a[0].a
                    elif is_plain_join(e.a[0]):
                        out.extend(guard(g, x) for x in e.a[0].a[1].a)
                        continue
                    else:
                        parts = (e.a[0],)
                    for p in parts:
                        if p.op == 'const' and p.a[1] == '':
                            continue
                        if g is TRUE and out and out[-1].op == 'item' and is_const(out[-1].a[0], str) and is_const(p, str):
                            out[-1] = mk('item', const(out[-1].a[0].a[1] + p.a[1]))
                        else:
                            out.append(guard(g, mk('item', p)))
                elif e.op == 'star' and e.a[2] is FALSE:
                    out.append(guard(g, star_raw(*e.a[:4], tuple(flat(e.a[4])))))
                else:
                    out.append(s)
            return out
        segs = clean(flat(segs))
        if all(s.op == 'item' for s in segs) and not any(is_plain_join(s.a[0]) for s in segs):
            return cat(*(to_str(s.a[0]) for s in segs))
    return mk('join', d, mk('list', *segs))


STR_OPS = {'cat', 'str', 'fmt', 'join'}
STR_METHODS = {'strip', 'rstrip', 'lstrip', 'replace', 'lower', 'upper', 'format', 'zfill', 'decode'}


def is_str(t):
    if t.op == 'ite':
        return is_str(t.a[1]) and is_str(t.a[2])
    return is_const(t, str) or t.op in STR_OPS or (t.op == 'mcall' and t.a[1] in STR_METHODS)


def to_str(t):
    if t.op == 'ite':
        return ite(t.a[0], to_str(t.a[1]), to_str(t.a[2]))
    if is_const(t, str) or is_str(t):
        return t
    if t.op == 'const':
        return const(str(t.a[1]))
    return mk('str', t)


def add(a, b):
    def f(x, y):
        if is_const(x, str) and is_const(y, str):
            return const(x.a[1] + y.a[1])
        if is_str(x) or is_str(y):
            return cat(x, y)
        if is_num(x) or is_num(y):
            return padd(x, y)
        if x.op == 'tup' and y.op == 'tup':
            return mk('tup', *(x.a + y.a))
        if x.op == 'list' and y.op == 'list':
            return mk('list', *clean(x.a + y.a))
        return mk('add', x, y)
    return lift(f, a, b)


# ---------------------------------------------------------------- decision diagrams
def lift(f, *args):
    """apply f to the leaves of the diagrams among args"""
    for i, x in enumerate(args):
        if x.op == 'ite':
            return ite(x.a[0], lift(f, *args[:i], assume(x.a[1], x.a[0], True), *(assume(y, x.a[0], True) for y in args[i + 1:])),
                       lift(f, *args[:i], x.a[2], *(assume(y, x.a[0], False) for y in args[i + 1:])))
    return f(*args)


LIFT_CALL = 12


def mkcall(op, head, pos, kw):
    """a call with one case per decision among its arguments"""
    def make(p, k):
        k = tuple((q, v) for q, v in k if v.op != 'absent')
        return mk(op, *head, tuple(p), k) if pos is not None else mk(op, *head, k)
    pos1 = tuple(pos or ())
    n = 1
    for x in pos1 + tuple(v for _, v in kw):
        if x.op == 'ite':
            n *= sum(1 for _ in leaves(x))
    if n == 1 or n > LIFT_CALL:
        return make(pos1, kw)
    k = len(pos1)
    return lift(lambda *a: make(a[:k], [(q, v) for (q, _), v in zip(kw, a[k:])]), *pos1, *(v for _, v in kw))


CONSTRUCT = {'tup', 'inst', 'list', 'item', 'kv', 'put', 'inc'}
_ite_memo: dict = {}


def _top(t):
    return t.a[0].n if t.op == 'ite' else 1 << 60


def ite(c, hi, lo):
    """c: a boolean diagram (or an atom)"""
    if c is TRUE:
        return hi
    if c is FALSE:
        return lo
    if hi is lo:
        return hi
    if c.op != 'ite':
        if c.op == 'const':
            return hi if c.a[1] else lo
        c = mk('ite', c, TRUE, FALSE)
    key = (c, hi, lo)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    atom = c.a[0]
    if c.a[1].op == 'const' and c.a[2].op == 'const':
        pos, neg = (hi, lo) if c.a[1] is TRUE else (lo, hi)
        if idle(neg, atom, True) is pos:
            return neg
        if idle(pos, atom, False) is neg:
            return pos
    for x in (hi, lo):
        if x.op == 'ite' and x.a[0].n < atom.n:
            atom = x.a[0]

    def cof(t, pol):
        if t.op == 'ite' and t.a[0] is atom:
            t = t.a[1] if pol else t.a[2]
        return assume(t, atom, pol)
    h = ite(cof(c, True), cof(hi, True), cof(lo, True))
    l = ite(cof(c, False), cof(hi, False), cof(lo, False))
    r = node(atom, h, l)
    _ite_memo[key] = r
    return r


def node(atom, h, l):
    if h is l:
        return h
    # a decision that the ones below already settle
    if l.op == 'ite' and assume(l, atom, True) is h:
        return l
    if h.op == 'ite' and assume(h, atom, False) is l:
        return h
    # equal values under the equality the atom states
    if atom.op == 'eq':
        if h is atom.a[1] and l is atom.a[0] or h is atom.a[0] and l is atom.a[1]:
            return l
        if h is atom.a[1] and h.op == 'const' and l.op != 'ite' and l is atom.a[0]:
            return l
    if atom.op == 'isnone' and h is NONE and l is atom.a[0]:
        return l
    # max / min
    if atom.op == 'lt0' and h.op == 'ite' and l.op == 'ite' and h.a[0] is l.a[0]:
        x, y = node(atom, h.a[1], l.a[1]), node(atom, h.a[2], l.a[2])
        if not (x.op == 'ite' and x.a[0] is atom) and not (y.op == 'ite' and y.a[0] is atom):
            return node(h.a[0], x, y)
    if atom.op == 'lt0' and h.op != 'ite' and l.op != 'ite' and not is_str(h) and not is_str(l) \
            and h.op not in ('tup', 'list', 'inst', 'obj') and l.op not in ('tup', 'list', 'inst', 'obj'):
        if (is_const(h) and pconst(h) is None) or (is_const(l) and pconst(l) is None):
            return mk('ite', atom, h, l)
        d = psub(h, l)
        p = atom.a[0]
        if pconst(d) is None:
            s = psub(p, d)
            q = padd(p, d)
            cs, cq = pconst(s), pconst(q)
            if cq is not None and cq in (0, -1) and (cq == 0 or is_int(p)):
                return mk_minmax('max', h, l)
            if cs is not None and cs in (0, -1) and (cs == 0 or is_int(p)):
                return mk_minmax('min', h, l)
    # push below constructors
    if h.op == l.op and h.op in CONSTRUCT:
        if h.op == 'tup' and len(h.a) == len(l.a):
            return mk('tup', *(ite(atom, x, y) for x, y in zip(h.a, l.a)))
        if h.op == 'inst' and h.a[0] == l.a[0] and [k for k, _ in h.a[1]] == [k for k, _ in l.a[1]]:
            return mk('inst', h.a[0], tuple((k, ite(atom, x, y)) for (k, x), (_, y) in zip(h.a[1], l.a[1])))
    if h.op == 'list' and l.op == 'list':
        return mk('list', *clean(merge_segs(mk('ite', atom, TRUE, FALSE), h.a, l.a)))
    if h.op == l.op and (h.op in ('put', 'slice') and len(h.a) == len(l.a) or h.op in ('call', 'mcall', 'join') and same_but_content(h, l)):
        return push(atom, h, l)
    return mk('ite', atom, h, l)


def no_rounds(dom, atom, pol):
    """atom == pol leaves nothing to iterate over"""
    if dom.op == 'max':
        return all(no_rounds(x, atom, pol) for x in dom.a)
    if pconst(dom) is not None:
        return pconst(dom) <= 0
    if atom.op == 'lt0':
        d = pconst(psub(dom, atom.a[0]) if pol else padd(dom, atom.a[0]))
        return d is not None and d <= (1 if pol and is_int(atom.a[0]) else 0)
    return atom.op == 'truthy' and not pol and dom.op == 'len' and dom.a[0] is atom.a[0]


_idle_memo: dict = {}


def idle(t, atom, pol):
    """t with the loops that make no round under  atom == pol  left out (None: there are none)"""
    if atom.op not in ('lt0', 'truthy'):
        return None
    key = (t, atom, pol)
    if key not in _idle_memo:
        m = {}
        for x in walk(t):
            if x.op == 'post' and x.a[2] is FALSE and no_rounds(x.a[1], atom, pol):
                m[x] = x.a[3][pconst(x.a[4])][0]
        _idle_memo[key] = subst(t, m) if m else None
    return _idle_memo[key]


CONTENT = ('list', 'gen', 'tuple', 'dict', 'set')


def same_but_content(x, y):
    """the same operation, on containers that differ in what is in them"""
    if x is y:
        return True
    if x.op != y.op:
        return False
    if x.op in CONTENT:
        return True
    if x.op in ('tup', 'join'):
        return len(x.a) == len(y.a) and all(same_but_content(p, q) for p, q in zip(x.a, y.a))
    if x.op in ('call', 'mcall'):
        n = len(x.a) - 2
        return x.a[1 if x.op == 'mcall' else 0:n] == y.a[1 if x.op == 'mcall' else 0:n] and len(x.a[n]) == len(y.a[n]) and [k for k, _ in x.a[n + 1]] == [k for k, _ in y.a[n + 1]] \
            and (x.op == 'call' or same_but_content(x.a[0], y.a[0])) \
            and all(same_but_content(p, q) for p, q in zip(x.a[n], y.a[n])) and all(same_but_content(p, q) for (_, p), (_, q) in zip(x.a[n + 1], y.a[n + 1]))
    return False


def push(atom, x, y):
    if x is y:
        return x
    c = mk('ite', atom, TRUE, FALSE)
    if x.op in CONTENT:
        return mk(x.op, *clean(merge_segs(c, x.a, y.a)))
    if x.op in ('call', 'mcall'):
        n = len(x.a) - 2
        head = x.a[:n] if x.op == 'call' else (push(atom, x.a[0], y.a[0]),) + x.a[1:n]
        return mk(x.op, *head, tuple(push(atom, p, q) for p, q in zip(x.a[n], y.a[n])), tuple((k, push(atom, p, q)) for (k, p), (_, q) in zip(x.a[n + 1], y.a[n + 1])))
    if x.op in ('tup', 'join'):
        return mk(x.op, *(push(atom, p, q) for p, q in zip(x.a, y.a)))
    return mk(x.op, *(ite(c, p, q) for p, q in zip(x.a, y.a)))


def mk_minmax(op, *xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y not in out:
                out.append(y)
    cs = [y for y in out if pconst(y) is not None]
    if len(cs) > 1:
        v = (max if op == 'max' else min)(pconst(y) for y in cs)
        out = [y for y in out if pconst(y) is None] + [const(v)]
    if len(out) > 1:
        # p + c against p
        keep = []
        for y in out:
            dominated = False
            for z in out:
                if z is not y:
                    if op == 'min' and z.op == 'max':
                        ds = [pconst(psub(y, x)) if x is not ZERO else 0 if nonneg(y) else None for x in z.a]
                        if all(d is not None and d >= 0 for d in ds):
                            dominated = True
                            break
                        continue
                    d = pconst(psub(y, z))
                    if d is not None and (d < 0 if op == 'max' else d > 0):
                        dominated = True
                        break
            if not dominated:
                keep.append(y)
        out = keep
    if op == 'max' and any(y is ZERO for y in out) and any(nonneg(y) for y in out if y is not ZERO):
        out = [y for y in out if y is not ZERO]
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda y: y.n))


def nonneg(t):
    if t.op in ('len', 'iterk', 'abs', 'rounds'):
        return True
    if t.op == 'attr':
        return t.a[1] in SIZES
    if t.op == 'const':
        return isinstance(t.a[1], (int, float)) and t.a[1] >= 0
    if t.op == 'poly':
        return all(c >= 0 for _, c in t.a[0]) and all(nonneg(x) for m, _ in t.a[0] for x in m)
    if t.op == 'max':
        return any(nonneg(x) for x in t.a)
    if t.op == 'min':
        return all(nonneg(x) for x in t.a)
    return is_mod(t)


def minmax(op, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = lift(lambda p, q: mk_minmax(op, p, q), r, x)
    return r


_as_memo: dict = {}


def assume(t, atom, pol):
    """t simplified under  atom == pol  (only the decisions at the top of t)"""
    if t.op != 'ite':
        return _subst_eq(t, atom, pol)
    key = (t, atom, pol)
    r = _as_memo.get(key)
    if r is None:
        v = implied(atom, pol, t.a[0])
        if v is True:
            r = assume(t.a[1], atom, pol)
        elif v is False:
            r = assume(t.a[2], atom, pol)
        else:
            h, l = assume(t.a[1], atom, pol), assume(t.a[2], atom, pol)
            r = t if h is t.a[1] and l is t.a[2] else ite(t.a[0], h, l)
        _as_memo[key] = r
    return r


def _subst_eq(t, atom, pol):
    """deep simplification of constructors under a fact"""
    if t.op in ('tup', 'inst', 'list', 'item', 'kv', 'put', 'inc', 'g') and has_free_atom(t):
        key = (t, atom, pol)
        r = _as_memo.get(key)
        if r is None:
            if t.op == 'tup' or t.op == 'item' or t.op == 'kv' or t.op == 'put' or t.op == 'inc':
                r = mk(t.op, *(assume(x, atom, pol) for x in t.a))
            elif t.op == 'inst':
                r = mk('inst', t.a[0], tuple((k, assume(x, atom, pol)) for k, x in t.a[1]))
            elif t.op == 'g':
                r = t
            else:
                segs = []
                for s in t.a:
                    if s.op == 'g':
                        c = assume(s.a[0], atom, pol)
                        if c is FALSE:
                            continue
                        segs.append(guard(c, assume(s.a[1], atom, pol)))
                    else:
                        segs.append(assume(s, atom, pol))
                r = mk('list', *clean(segs))
            _as_memo[key] = r
        return r
    if t.op in ('max', 'min') and atom.op == 'lt0' and len(t.a) == 2:
        d = psub(t.a[0], t.a[1])
        p = atom.a[0]
        for x, y, q in ((t.a[0], t.a[1], psub(p, d)), (t.a[1], t.a[0], padd(p, d))):
            # p is x - y, up to one
            k = pconst(q)
            if k is not None and (k == 0 or k == -1 and is_int(p)):
                return (y if t.op == 'max' else x) if pol else (x if t.op == 'max' else y)
    return t


def has_free_atom(t):
    if t._f is None:
        t._f = any(x.op in ('ite', 'g') for x in walk(t))
    return t._f


def implied(a, pa, b):
    """the truth value of atom b given atom a == pa, else None"""
    if a is b:
        return pa
    oa, ob = a.op, b.op
    if oa == 'isnone' and pa:
        if ob in ('truthy', 'isinst') and b.a[0] is a.a[0]:
            return False
        if ob == 'eq' and (b.a[0] is a.a[0] or b.a[1] is a.a[0]):
            other = b.a[1] if b.a[0] is a.a[0] else b.a[0]
            if other.op == 'const':
                return other is NONE
    if ob == 'isnone' and pa and oa in ('truthy', 'isinst') and a.a[0] is b.a[0]:
        return False
    if ob == 'isnone' and pa and oa == 'eq':
        for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if x is b.a[0] and y.op == 'const':
                return y is NONE
    if oa == 'eq' and pa and ob == 'eq':
        # x == c1 excludes x == c2
        for x, c in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            for y, d in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if x is y and c.op == 'const' and d.op == 'const':
                    return c.a[1] == d.a[1]
    if oa == 'eq' and pa and ob == 'truthy':
        for x, c in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
            if x is b.a[0] and c.op == 'const':
                return bool(c.a[1])
    if oa == 'truthy' and not pa and ob == 'eq':
        for x, c in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
            if x is a.a[0] and c.op == 'const' and c.a[1]:
                return False
    if oa in ('lt0', 'eq0') and ob in ('lt0', 'eq0'):
        return _implied_lin(a, pa, b)
    if oa == 'truthy' and ob in ('lt0', 'eq0'):
        return _implied_truthy(a, pa, b)
    if ob == 'truthy' and oa in ('lt0', 'eq0'):
        if oa == 'eq0' and pa:
            if a.a[0] is b.a[0]:
                return False
        if oa == 'lt0' and pa:
            # c - len(x) < 0 with c >= 0
            d = to_poly(a.a[0])
            if d.get((), 0) >= 0 and len(d) == (2 if () in d else 1) and d.get((mk('len', b.a[0]),)) == -1:
                return True
    return None


def _implied_truthy(a, pa, b):
    ln = mk('len', a.a[0])
    p = to_poly(b.a[0])
    if set(p) - {()} == {(ln,)}:
        k, c = p[(ln,)], p.get((), 0)
        if not pa:
            v = c
            return (v < 0) if b.op == 'lt0' else (v == 0)
        # len >= 1
        if b.op == 'lt0':
            if k > 0 and k + c >= 0:
                return False
            if k < 0 and k + c < 0:
                return True
        elif (k > 0 and k + c > 0) or (k < 0 and k + c < 0):
            return False
    return None


_dir_memo: dict = {}


def _direction(p):
    """(what varies in p, the same negated, the constant)"""
    r = _dir_memo.get(p)
    if r is None:
        d = to_poly(p)
        r = _dir_memo[p] = (frozenset((m, c) for m, c in d.items() if m), frozenset((m, -c) for m, c in d.items() if m), d.get((), 0))
    return r


def _implied_lin(a, pa, b):
    """a: (p <0 | ==0) == pa ;  b the same about  q = p + c  or  q = -p + c"""
    p, q = a.a[0], b.a[0]
    if p.op == 'ite' or q.op == 'ite':
        return None
    dp, dq = _direction(p), _direction(q)
    for s in (1, -1):
        if dq[0] != dp[0 if s == 1 else 1]:
            continue
        c = dq[2] - s * dp[2]
        it = is_int(p)
        # interval of p
        if a.op == 'eq0':
            if not pa:
                return None if b.op == 'lt0' else (False if c == 0 else None)
            lo = hi = 0
            los = his = False
        elif pa:
            lo, hi = float('-inf'), (-1 if it else 0)
            los, his = False, not it
        else:
            lo, hi = 0, float('inf')
            los = his = False
        if s == -1:
            lo, hi, los, his = -hi, -lo, his, los
        lo, hi = lo + c, hi + c     # interval of q
        if b.op == 'lt0':
            if hi < 0 or (hi == 0 and his):
                return True
            if lo >= 0:
                return False
        else:
            if lo > 0 or hi < 0 or (lo == 0 and los) or (hi == 0 and his):
                return False
            if lo == hi == 0:
                return True
        return None
    return None


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(c, d):
    return ite(c, d, FALSE)


def b_or(c, d):
    return ite(c, TRUE, d)


def atom(t):
    return mk('ite', t, TRUE, FALSE)


def leaves(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            yield x


# ---------------------------------------------------------------- conditions
def _lt0(p):
    c = pconst(p)
    if c is not None:
        return const(bool(c < 0))
    pp = to_poly(p)
    mm = [(m, k) for m, k in pp.items() if any(x.op in ('min', 'max') for x in m)]
    if len(mm) == 1 and len(mm[0][0]) == 1 and mm[0][1] in (1, -1):
        # max(p, q) + r < 0  <=>  p + r < 0 and q + r < 0
        (x,), k = mm[0]
        rest = from_poly({m: v for m, v in pp.items() if m != (x,)})
        r = None
        for z in x.a:
            c = lift(_lt0, padd(rest, z, k))
            r = c if r is None else b_and(r, c) if (x.op == 'max') == (k == 1) else b_or(r, c)
        return r
    if () not in pp or pp[()] >= 0:
        if all(k >= 0 and all(nonneg(x) for x in m) for m, k in pp.items()):
            return FALSE
    if () in pp and pp[()] < 0 and all(k <= 0 and all(nonneg(x) for x in m) for m, k in pp.items()):
        return TRUE
    if any(is_mod(x) for m in pp for x in m):
        # x % m is at most m - 1
        if all(not m or (k <= 0 and all(nonneg(x) for x in m)) or (len(m) == 1 and is_mod(m[0])) for m, k in pp.items()):
            if sum(k if not m else max(k, 0) * (m[0].a[2].a[1] - 1) for m, k in pp.items() if not m or len(m) == 1 and is_mod(m[0])) < 0:
                return TRUE
        if all(not m or (k >= 0 and all(nonneg(x) for x in m)) or (len(m) == 1 and is_mod(m[0])) for m, k in pp.items()):
            if sum(k if not m else min(k, 0) * (m[0].a[2].a[1] - 1) for m, k in pp.items() if not m or len(m) == 1 and is_mod(m[0])) >= 0:
                return FALSE
    if is_int(p):
        rest = {m: k for m, k in pp.items() if m != ()}
        c0 = pp.get((), 0)
        if len(rest) == 1:
            (m, k), = rest.items()
            if len(m) == 1 and m[0].op == 'len':
                if k == -1 and c0 == 0:      # 0 < len(x)
                    return truthy(m[0].a[0])
                if k == 1 and c0 == -1:      # len(x) < 1
                    return b_not(truthy(m[0].a[0]))
        # integers: keep one of  p < 0  and  -p-1 < 0  (its negation)
        q = psub(pneg(p), ONE)
        if _key(q) < _key(p):
            return b_not(atom(mk('lt0', q)))
    else:
        # scale the leading coefficient to +-1
        lead = max((m for m in pp if m), key=lambda m: tuple(x.n for x in m))
        c = abs(pp[lead])
        if c != 1 and all((v / c) == int(v / c) for v in pp.values()):
            p = from_poly({m: int(v / c) for m, v in pp.items()})
    return atom(mk('lt0', p))


def _key(p):
    return tuple((tuple(x.n for x in m), c) for m, c in sorted(to_poly(p).items(), key=lambda mc: tuple(x.n for x in mc[0])))


def lt(a, b):
    def f(x, y):
        if is_const(x, str) and is_const(y, str):
            return const(x.a[1] < y.a[1])
        if x.op in ('max', 'min') and not y.op in ('max', 'min'):
            # max(p, q) < y  <=>  p < y and q < y
            r = None
            for z in x.a:
                c = lt(z, y)
                r = c if r is None else (b_and(r, c) if x.op == 'max' else b_or(r, c))
            return r
        if y.op in ('max', 'min') and x.op not in ('max', 'min'):
            r = None
            for z in y.a:
                c = lt(x, z)
                r = c if r is None else (b_or(r, c) if y.op == 'max' else b_and(r, c))
            return r
        return _lt0(psub(x, y))
    return lift(f, a, b)


def le(a, b):
    return b_not(lt(b, a))


def eq(a, b):
    def f(x, y):
        for p, q in ((x, y), (y, x)):
            if p.op == 'call' and p.a[0].op == 'ref' and p.a[0].a[0] in ('builtins.open', 'gzip.open') and q in p.a[1]:
                return FALSE   # an open file is not what names it
        if x is y:
            return TRUE
        if x.op == 'const' and y.op == 'const':
            return const(x.a[1] == y.a[1])
        if is_num(x) or is_num(y):
            if is_const(x) and pconst(x) is None or is_const(y) and pconst(y) is None:
                return FALSE
            d = psub(x, y)
            c = pconst(d)
            if c is not None:
                return const(c == 0)
            for z in (d, pneg(d)):
                if z.op == 'len':
                    return b_not(truthy(z.a[0]))
            # neither below nor above
            return b_and(b_not(_lt0(d)), b_not(_lt0(pneg(d))))
        if x.op == 'tup' and y.op == 'tup':
            if len(x.a) != len(y.a):
                return FALSE
            r = TRUE
            for p, q in zip(x.a, y.a):
                r = b_and(r, eq(p, q))
            return r
        for p, q in ((x, y), (y, x)):
            if p is NONE:
                return isnone(q)
            if is_const(p, bool) and q.op in ('ite',) + ATOMS:
                return q if p.a[1] else b_not(q)
            if is_const(p, str) and p.a[1] == '' and is_str(q):
                return b_not(truthy(q))
            if is_const(p, str) and q.op == 'cat':
                if is_const(q.a[0], str) and not p.a[1].startswith(q.a[0].a[1]):
                    return FALSE
                if is_const(q.a[-1], str) and not p.a[1].endswith(q.a[-1].a[1]):
                    return FALSE
        if y.n < x.n:
            x, y = y, x
        return atom(mk('eq', x, y))
    return lift(f, a, b)


NOT_NONE = {'inst', 'tup', 'list', 'dict', 'set', 'gen', 'cat', 'str', 'poly', 'len', 'obj', 'ref', 'closure', 'bound', 'lam', 'iterk',
            'new', 'join', 'max', 'min', 'sum'}


def isnone(t):
    def f(x):
        if x.op == 'const':
            return const(x.a[1] is None)
        if x.op in NOT_NONE or is_str(x):
            return FALSE
        return atom(mk('isnone', x))
    return lift(f, t)


ATOMS = ('lt0', 'eq0', 'eq', 'isnone', 'truthy', 'in', 'isinst', 'is')


def truthy(t):
    """the condition bool(t)"""
    def f(x):
        if x.op == 'const':
            return const(bool(x.a[1]))
        if x.op in ATOMS:
            return atom(x)
        if x.op == 'len':
            return truthy(x.a[0])
        if x.op in ('inst', 'closure', 'ref', 'bound', 'lam'):
            return TRUE
        if x.op == 'tup':
            return const(bool(x.a))
        if x.op in ('list', 'dict', 'set'):
            if not x.a:
                return FALSE
            if any(s.op in ('item', 'kv') for s in x.a):
                return TRUE
            ga = [s for s in x.a if s.op == 'g' and s.a[1].op in ('item', 'kv')]
            if len(ga) == len(x.a):
                r = FALSE
                for s in ga:
                    r = b_or(r, s.a[0])
                return r
            if len(x.a) == 1 and x.a[0].op == 'star':
                s = x.a[0]
                # a copy of y is empty iff y is
                if s.a[2] is FALSE and len(s.a[4]) == 1 and s.a[4][0].op in ('item', 'kv') and s.a[1].op == 'len':
                    return truthy(s.a[1].a[0])
        if is_num(x):
            return b_not(eq(x, ZERO))
        if x.op == 'cat' and any(is_const(y, str) for y in x.a):
            return TRUE
        if x.op == 'cat':
            r = FALSE
            for y in x.a:
                r = b_or(r, truthy(y))
            return r
        return atom(mk('truthy', x))
    return lift(f, t)


# ---------------------------------------------------------------- emitted segments
def guard(c, s):
    if c is TRUE:
        return s
    if s.op == 'g':
        return guard(b_and(c, s.a[0]), s.a[1])
    if s.op == 'star':
        h, dom, brk, car, segs = s.a
        return star_raw(h, dom, brk, car, tuple(guard(c, x) for x in segs))
    if s.op == 'old':
        # keeping what is empty
        c = subst(c, {mk('truthy', s.a[0]): TRUE})
        return s if c is TRUE else mk('g', c, s)
    return mk('g', c, restrict(s, c))


def literals(c):
    """the atoms that a condition settles"""
    m = {}
    while c.op == 'ite':
        if c.a[2] is FALSE:
            m[c.a[0]] = TRUE
            c = c.a[1]
        elif c.a[1] is FALSE:
            m[c.a[0]] = FALSE
            c = c.a[2]
        else:
            break
    return m


_restr: dict = {}


def restrict(s, c):
    """the segment where the condition holds"""
    if not has_free_atom(s):
        return s
    key = (s, c)
    r = _restr.get(key)
    if r is None:
        r = subst(s, literals(c))
        if c.op == 'ite' and r.op in ('ev', 'item', 'kv', 'put', 'inc'):
            r = mk(r.op, *[cofactor(x, c) for x in r.a])
        _restr[key] = r
    return r


def cofactor(x, c):
    if isinstance(x, tuple):
        return tuple(cofactor(y, c) for y in x)
    return simplify(x, c) if isinstance(x, T) and x.op == 'ite' else x


def guards(c, segs):
    if c is FALSE:
        return ()
    return tuple(guard(c, s) for s in segs)


def shape(s):
    """what two segments must share to be merged into one with conditional operands"""
    if s.op in ('item',):
        return (s.op,)
    if s.op in ('kv', 'put', 'inc'):
        return (s.op, s.a[0])
    if s.op == 'ev':
        return ('ev', s.a[0], len(s.a[1]), tuple(k for k, _ in s.a[2]))
    return None


def merge_segs(c, l1, l2):
    """segments after a join: l1 if c else l2"""
    if l1 is l2 or l1 == l2:
        return l1
    n = 0
    while n < len(l1) and n < len(l2) and l1[n] is l2[n]:
        n += 1
    pre, r1, r2 = l1[:n], l1[n:], l2[n:]
    if len(r1) == len(r2) and all(shape(x) is not None and shape(x) == shape(y) for x, y in zip(r1, r2)):
        out = []
        for x, y in zip(r1, r2):
            if x.op == 'ev':
                out.append(mk('ev', x.a[0], tuple(ite(c, p, q) for p, q in zip(x.a[1], y.a[1])),
                              tuple((k, ite(c, p, q)) for (k, p), (_, q) in zip(x.a[2], y.a[2]))))
            else:
                out.append(mk(x.op, *(ite(c, p, q) for p, q in zip(x.a, y.a))))
        return pre + tuple(out)
    # complementary guards of the same shape
    m = 0
    while m < len(r1) and m < len(r2) and r1[len(r1) - 1 - m] is r2[len(r2) - 1 - m]:
        m += 1
    suf = ()
    if m:
        suf, r1, r2 = r1[len(r1) - m:], r1[:len(r1) - m], r2[:len(r2) - m]
    return pre + guards(c, r1) + guards(b_not(c), r2) + suf


# ---------------------------------------------------------------- traversal
def walk(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)


def contains(t, *subs):
    return any(x in subs for x in walk(t))


def has_op(t, *ops):
    return any(x.op in ops for x in walk(t))


def subst(t, m, memo=None):
    """replace sub-terms by the map m, respecting binders; the result is renormalised"""
    if not m:
        return t
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op in ('const', 'ref', 'param', 'iterk', 'lc', 'inf', 'undef', 'obj', 'sym'):
        r = t
    elif op in ('star', 'post', 'lam'):
        h = t.a[0]
        m2 = {k: v for k, v in m.items() if not (k.op in ('iterk', 'lc', 'bv') and k.a[0] == h)}
        if len(m2) != len(m):
            memo2 = {}
        else:
            m2, memo2 = m, memo
        a = subst(t.a[1:], m2, memo2) if m2 else t.a[1:]
        r = t if a == t.a[1:] else rebuild(op, (h,) + a)
    elif op == 'poly':
        r = ZERO
        for mono, c in t.a[0]:
            x = const(c)
            for f in mono:
                x = pmul(x, subst(f, m, memo))
            r = padd(r, x)
    else:
        a = tuple(subst(x, m, memo) for x in t.a)
        r = t if a == t.a else rebuild(op, a)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == 'ite':
        c = a[0]
        if c.op not in ATOMS:
            c = truthy(c)
        return ite(c, a[1], a[2])
    if op == 'add':
        return add(*a)
    if op == 'call' and a[0].op == 'ref':
        return mkcall('call', a[:1], a[1], a[2])
    if op == 'cat':
        return cat(*a)
    if op == 'join' and a[1].op == 'list':
        return join_parts(a[0], a[1].a)
    if op == 'str':
        return to_str(a[0])
    if op == 'idx':
        return idx(*a)
    if op == 'slc':
        return slc(*a)
    if op == 'len':
        return length(a[0])
    if op == 'attr':
        return attr(*a)
    if op == 'lt0':
        return lift(_lt0, a[0])
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'eq':
        return eq(*a)
    if op == 'isnone':
        return isnone(a[0])
    if op == 'truthy':
        return truthy(a[0])
    if op in ('max', 'min'):
        return minmax(op, *a)
    if op == 'g':
        return guard(a[0], a[1])
    if op == 'star':
        return star_raw(*a)
    if op == 'post':
        return post_raw(*a)
    if op == 'lam':
        return lam_raw(*a)
    if op in ('list', 'dict', 'set', 'gen'):
        return mk(op, *clean(a))
    if op == 'isinst':
        return lift(lambda x: atom(mk('isinst', x, a[1])), a[0]) if a[0].op == 'ite' else mk(op, *a)
    return mk(op, *a)


def clean(segs):
    out = []
    for s in segs:
        if s.op == 'g' and s.a[0] is FALSE:
            continue
        if s.op == 'star' and not s.a[4]:
            continue
        if s.op == 'star' and s.a[1].op == 'ite':
            out.extend(split_dom(s))
            continue
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op == 'inc' and e.a[1].op == 'ite' and any(x is ZERO for x in leaves(e.a[1])):
            # adding nothing
            c = b_and(g, nonzero(e.a[1]))
            if c is FALSE:
                continue
            s = guard(c, mk('inc', e.a[0], simplify(e.a[1], c)))
            g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op in ('inc', 'put') and e.a[0].op == 'ite':
            out.extend(x for x in split_key(g, e))
            continue
        if e.op == 'star' and len(e.a[4]) > 1 and e.a[2] is FALSE and not e.a[3] and separate(e.a[4]):
            h, dom, brk, car, segs = e.a
            out.extend(sorted((guard(g, star_raw(h, dom, brk, car, (x,))) for x in segs), key=lambda t: t.n))
            continue
        out.append(s)
        if e.op == 'ev' and e.a[0].startswith('setfield:') and e.a[1][1].op == 'ite':
            own = mk('attr', e.a[1][0], e.a[0][9:])
            v = e.a[1][1]
            if any(x is own for x in leaves(v)):
                # keeping what is there
                c = b_and(g, other_than(v, own))
                if c is not FALSE:
                    out[-1] = guard(c, mk('ev', e.a[0], (e.a[1][0], simplify(v, c)), e.a[2]))
                else:
                    out.pop()
    out = peel(fill(out))
    return commute(tuple(inc_order(out)))


def fill(segs):
    """a list made with one value and then set by position, throughout: made with the other"""
    while len(segs) > 1:
        x, y = segs[0], segs[1]
        if not (x.op == y.op == 'star' and x.a[1] is y.a[1] and x.a[2] is y.a[2] is FALSE and not x.a[3] and not y.a[3] and len(x.a[4]) == len(y.a[4]) == 1
                and x.a[4][0].op == 'item' and x.a[1] is not INF):
            break
        k = mk('iterk', y.a[0])
        s = y.a[4][0]
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op != 'put' or e.a[0] is not k:
            break
        v = subst(x.a[4][0].a[0], {mk('iterk', x.a[0]): k})
        segs = [star_raw(y.a[0], y.a[1], FALSE, (), (mk('item', ite(g, e.a[1], v)),))] + list(segs[2:])
    return segs


def separate(segs):
    """what one round does are independent things: each can be repeated on its own"""
    if all(is_inc(x) for x in segs):
        return True
    fields = set()
    for x in segs:
        e = x.a[1] if x.op == 'g' else x
        if e.op != 'ev' or not e.a[0].startswith('setfield:') or e.a[0] in fields:
            return False
        fields.add(e.a[0])
    names = {f[9:] for f in fields}
    return not any(t.op == 'attr' and t.a[1] in names for t in walk(segs))


def trim(h, dom, segs):
    """rounds in which nothing happens at the start and at the end"""
    k = mk('iterk', h)
    while len(segs) == 1 and segs[0].op == 'g' and dom is not INF:
        c = segs[0].a[0]
        for a, v in literals(c).items():
            if a.op != 'lt0':
                continue
            p = to_poly(a.a[0])
            q = p.get((k,), 0)
            rest = from_poly({m: w for m, w in p.items() if m != (k,)})
            if q not in (1, -1) or any(x is k for x in walk(rest)) or not is_int(rest) or any(x.op in ('iterk', 'lc') and x.a[0] == h for x in walk(rest)):
                continue
            body = guards(subst(c, {a: v}), (segs[0].a[1],))
            # q*k + rest < 0  (or not)
            if (q == 1) == (v is TRUE):
                # k < E
                e = pneg(rest) if q == 1 else padd(rest, ONE)
                dom = nn(minmax('min', dom, e))
                segs = body
            else:
                lo = padd(rest, ONE) if q == -1 else pneg(rest)      # k >= lo
                if not (pconst(lo) is not None and pconst(lo) >= 0 or nonneg(lo)):
                    continue
                dom = nn(psub(dom, lo))
                segs = subst(body, {k: padd(k, lo)})
            segs = clean(segs)
            break
        else:
            return dom, segs
    return dom, segs


def is_inc(s):
    if s.op == 'g':
        s = s.a[1]
    if s.op == 'star':
        return bool(s.a[4]) and all(is_inc(x) for x in s.a[4])
    return s.op == 'inc'


def inc_order(segs):
    """additive updates commute"""
    out, run = [], []
    for s in list(segs) + [None]:
        if s is not None and is_inc(s):
            run.append(s)
            continue
        out.extend(sorted(run, key=lambda t: t.n) if len(run) > 1 else run)
        run = []
        if s is not None:
            out.append(s)
    return out


def split_key(g, e):
    k = e.a[0]
    if k.op != 'ite':
        return (guard(g, e),) if g is not FALSE else ()
    a = k.a[0]
    r = ()
    for c, v, x in ((b_and(g, atom(a)), TRUE, k.a[1]), (b_and(g, b_not(atom(a))), FALSE, k.a[2])):
        if c is not FALSE:
            r += split_key(c, mk(e.op, x, assume(e.a[1], a, v is TRUE)))
    return r


def peel(segs):
    """a repetition and one more round of it next to it: one repetition"""
    if len(segs) < 2 or not any(s.op == 'star' for s in segs) or all(s.op == 'star' for s in segs):
        return segs
    segs = list(segs)
    i = 0
    while i < len(segs):
        s = segs[i]
        if s.op == 'star' and s.a[2] is FALSE and not s.a[3] and len(s.a[4]) == 1 and s.a[1] is not INF and s.a[4][0].op != 'star':
            h, dom, brk, car, body = s.a
            inc = is_inc(s)
            js = [j for j in range(len(segs)) if j == i + 1 or inc and j != i and is_inc(segs[j]) and all(is_inc(x) for x in segs[min(i, j):max(i, j)])]
            hit = None
            for j in js:
                x = segs[j]
                if x.op == 'star':
                    continue
                g = x.a[0] if x.op == 'g' else TRUE
                if b_and(g, lt(dom, ZERO)) is not FALSE:
                    continue
                if subst(body[0], {mk('iterk', h): dom}) is x:
                    hit = j
                    break
            if hit is not None:
                segs[i] = star_raw(h, padd(dom, ONE), brk, car, body)
                del segs[hit]
                i = 0
                continue
        i += 1
    return segs


def other_than(v, w):
    if v.op == 'ite':
        return ite(atom(v.a[0]), other_than(v.a[1], w), other_than(v.a[2], w))
    return FALSE if v is w else TRUE


def nonzero(v):
    if v.op == 'ite':
        return ite(atom(v.a[0]), nonzero(v.a[1]), nonzero(v.a[2]))
    return FALSE if v is ZERO else TRUE


def nn(t):
    """a number of iterations: what is below zero counts as zero"""
    if t.op == 'ite':
        return ite(atom(t.a[0]), nn(t.a[1]), nn(t.a[2]))
    if t.op == 'max' and ZERO in t.a and len(t.a) == 2:
        return t.a[0] if t.a[1] is ZERO else t.a[1]
    return t


def split_dom(s):
    """a loop whose length is a matter of case: one loop per case"""
    h, dom, brk, car, segs = s.a
    if dom.op != 'ite':
        return (s,)
    a = dom.a[0]
    out = ()
    for d, v in ((dom.a[1], TRUE), (dom.a[2], FALSE)):
        if d is ZERO:
            continue
        m = {a: v}
        c = atom(a) if v is TRUE else b_not(atom(a))
        t = star_raw(h, d, subst(brk, m), subst(car, m), tuple(guard(c, x) for x in subst(segs, m)))
        if t.a[4]:
            out += split_dom(t)
    return out


_cond_memo: dict = {}


def cond_of(s):
    """a condition outside which the segment does nothing"""
    if s.op == 'g':
        return s.a[0]
    if s.op == 'star':
        r = _cond_memo.get(s)
        if r is None:
            h = s.a[0]
            r = FALSE
            for x in s.a[4]:
                r = b_or(r, exists(cond_of(x), h))
                if r is TRUE:
                    break
            _cond_memo[s] = r
        return r
    return TRUE


def exists(c, h):
    """c with the decisions that depend on the binder of height h forgotten"""
    if c.op != 'ite':
        return c
    key = ('ex', c, h)
    r = _cond_memo.get(key)
    if r is None:
        a, b = exists(c.a[1], h), exists(c.a[2], h)
        if any(x.op in ('iterk', 'lc') and x.a[0] == h for x in walk(c.a[0])):
            r = b_or(a, b)
        else:
            r = ite(c.a[0], a, b)
        _cond_memo[key] = r
    return r


def _parts(s):
    return (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)


_comm_memo: dict = {}


def commute(segs):
    """segments that never act together are put in a canonical order, and merged when they differ in their operands only"""
    if len(segs) < 2 or sum(1 for s in segs if s.op in ('g', 'star')) < 2:
        return segs
    r = _comm_memo.get(segs)
    if r is not None:
        return r
    cs = [cond_of(s) for s in segs]
    if sum(1 for c in cs if c is not TRUE) < 2:
        _comm_memo[segs] = segs
        return segs
    items = list(zip(segs, cs))
    # merge
    i = 0
    while i < len(items):
        s, c = items[i]
        if s.op in ('g', 'star') and c is not TRUE:
            j = i + 1
            while j < len(items):
                t, d = items[j]
                if t.op == s.op and b_and(c, d) is FALSE:
                    m = None
                    if all(b_and(d, e) is FALSE for _, e in items[i + 1:j]) or all(b_and(c, e) is FALSE for _, e in items[i + 1:j]):
                        m = merge_two(s, t)
                    if m is not None:
                        fwd = not all(b_and(d, e) is FALSE for _, e in items[i + 1:j])
                        del items[j]
                        if fwd:
                            items.insert(j, (m, cond_of(m)))
                            del items[i]
                            i -= 1
                        else:
                            items[i] = (m, cond_of(m))
                        s = None
                        break
                j += 1
            if s is None:
                i = max(i, 0) if not fwd else i + 1
                continue
        i += 1
    # lexicographic normal form
    out = []
    while items:
        best = None
        for i, (s, c) in enumerate(items):
            if all(b_and(c, d) is FALSE for _, d in items[:i]):
                if best is None or s.n < items[best][0].n:
                    best = i
            if c is TRUE:
                break
        out.append(items.pop(best)[0])
    r = tuple(out)
    _comm_memo[segs] = r
    _comm_memo[r] = r
    return r


def merge_two(s, t):
    if s.op == 'star':
        if s.a[1] is not t.a[1] or s.a[2] is not FALSE or t.a[2] is not FALSE or s.a[3] or t.a[3]:
            return None
        u = uid()
        k = mk('iterk', u)
        b = subst(s.a[4], {mk('iterk', s.a[0]): k}) + subst(t.a[4], {mk('iterk', t.a[0]): k})
        return star_raw(u, s.a[1], FALSE, (), b)
    (c, x), (d, y) = _parts(s), _parts(t)
    tot = b_or(c, d)
    if x is y:
        return guard(tot, x)
    sx = shape(x)
    if sx is None or sx != shape(y):
        return None
    q = simplify(c, tot)
    if x.op == 'ev':
        z = mk('ev', x.a[0], tuple(ite(q, a, b) for a, b in zip(x.a[1], y.a[1])),
               tuple((k, ite(q, a, b)) for (k, a), (_, b) in zip(x.a[2], y.a[2])))
    else:
        z = mk(x.op, *(ite(q, a, b) for a, b in zip(x.a, y.a)))
    return guard(tot, z)


_simp: dict = {}


def simplify(f, care):
    """f restricted to the region care (generalised cofactor of the diagrams)"""
    if care is TRUE or f.op == 'const':
        return f
    if care is FALSE:
        return f
    key = (f, care)
    r = _simp.get(key)
    if r is not None:
        return r
    if f.op != 'ite':
        return f
    if care.op != 'ite':
        return f
    a, b = f.a[0], care.a[0]
    if b.n < a.n:
        if care.a[1] is FALSE:
            r = simplify(f, care.a[2])
        elif care.a[2] is FALSE:
            r = simplify(f, care.a[1])
        else:
            r = ite(b, simplify(f, care.a[1]), simplify(f, care.a[2]))
    elif a is b:
        if care.a[1] is FALSE:
            r = simplify(f.a[2], care.a[2])
        elif care.a[2] is FALSE:
            r = simplify(f.a[1], care.a[1])
        else:
            r = ite(a, simplify(f.a[1], care.a[1]), simplify(f.a[2], care.a[2]))
    else:
        r = ite(a, simplify(f.a[1], care), simplify(f.a[2], care))
    _simp[key] = r
    return r


def _height(parts):
    h = 0
    st = list(parts)
    while st:
        x = st.pop()
        if isinstance(x, T):
            h = max(h, x.h)
        elif isinstance(x, tuple):
            st.extend(x)
    return h


def rebind(h, dom, brk, car, rest):
    """renumber the binder to its canonical height"""
    nh = 1 + _height((brk, car, rest))
    if nh == h:
        return h, dom, brk, car, rest
    # bound names are only those of this binder: nested binders of height h shadow
    m = {}
    for x in walk((brk, car, rest)):
        if x.op in ('iterk', 'lc') and x.a[0] == h:
            m[x] = mk(x.op, nh, *x.a[1:])
    # inner binders of the same height h would hide names in subst: they are closed, so that is right
    brk, car, rest = subst(brk, m), subst(car, m), subst(rest, m)
    return nh, dom, brk, car, rest


def star_raw(h, dom, brk, car, segs):
    segs = clean(segs)
    dom = nn(dom)
    k = mk('iterk', h)
    # facts about the domain
    if dom.op == 'len':
        m = {}
        for x in walk(segs):
            if x.op == 'truthy' and x.a[0] is dom.a[0]:
                m[x] = TRUE
        if m:
            segs = clean(subst(segs, m))
    if brk is FALSE and not car:
        dom, segs = trim(h, dom, segs)
    if not segs:
        return mk('star', 1, ZERO, FALSE, (), ())
    h0 = h
    h, dom, brk, car, segs = rebind(h, dom, brk, car, segs)
    if h != h0:
        segs = clean(segs)
    return mk('star', h, dom, brk, car, segs)


def post_raw(h, dom, brk, car, j):
    dom = nn(dom)
    if dom.op == 'ite':
        a = dom.a[0]
        return ite(atom(a), post_raw(h, dom.a[1], subst(brk, {a: TRUE}), subst(car, {a: TRUE}), j),
                   post_raw(h, dom.a[2], subst(brk, {a: FALSE}), subst(car, {a: FALSE}), j))
    h, dom, brk, car, j = rebind(h, dom, brk, car, j)
    return mk('post', h, dom, brk, car, j)


def lam_raw(h, n, body):
    nh = 1 + _height((body,))
    if nh != h:
        m = {x: mk('bv', nh, *x.a[1:]) for x in walk(body) if x.op == 'bv' and x.a[0] == h}
        body = subst(body, m)
    return mk('lam', nh, n, body)


# ---------------------------------------------------------------- projections
SEQ = ('list', 'gen', 'tuple')


def varies(t, u):
    """does the term depend on the iteration of loop u"""
    for x in walk(t):
        if x.op in ('iterk', 'lc') and x.a[0] == u:
            return True
    return False


def hoisted(seg):
    """a star that produces nothing unless something that does not vary holds"""
    if seg.op == 'star' and seg.a[2] is FALSE and not seg.a[3] and len(seg.a[4]) == 1 and seg.a[4][0].op == 'g':
        h, dom, brk, car, (x,) = seg.a
        if not varies(x.a[0], h):
            return mk('g', x.a[0], star_raw(h, dom, brk, car, (x.a[1],)))
    return seg


def case_under(x, a, pol):
    if x.op == 'g':
        c = assume(x.a[0], a, pol)
        return None if c is FALSE else x if c is x.a[0] else guard(c, x.a[1])
    if x.op == 'star' and a.op == 'truthy' and x.a[1].op == 'len' and x.a[1].a[0] is a.a[0] and not pol:
        return None
    return x


def common_case(segs):
    """a decision that each of these segments depends on"""
    segs = [hoisted(x) for x in segs]
    if len(segs) < 2 or not any(x.op == 'g' for x in segs):
        return None
    for x in segs:
        if x.op == 'g' and x.a[0].op == 'ite':
            a = x.a[0].a[0]
            if all(case_under(y, a, True) is not y or case_under(y, a, False) is not y for y in segs):
                return a
            return None
    return None


def guards_under(segs, a, pol):
    return tuple(y for y in (case_under(hoisted(x), a, pol) for x in segs) if y is not None)


def length(x):
    def f(t):
        if t.op == 'tup':
            return const(len(t.a))
        if is_const(t, str):
            return const(len(t.a[1]))
        if t.op == 'cat':
            r = ZERO
            for y in t.a:
                r = padd(r, length(y))
            return r
        if t.op in SEQ:
            a = common_case(t.a)
            if a is not None:
                return ite(atom(a), length(mk(t.op, *guards_under(t.a, a, True))), length(mk(t.op, *guards_under(t.a, a, False))))
            r = ZERO
            for s in t.a:
                n = count(s, t.op == 'list')
                if n is None:
                    return mk('len', t)
                r = padd(r, n)
            return r
        if t.op == 'dict' and all(s.op == 'kv' and s.a[0].op == 'const' for s in t.a):
            return const(len({s.a[0] for s in t.a}))
        if t.op == 'call' and t.a[0].op == 'ref' and t.a[0].a[0] in ('builtins.sorted', 'builtins.reversed', 'numpy.array') and t.a[1]:
            return length(t.a[1][0])
        if t.op == 'slc' and t.a[3] is NONE and t.a[2] is NONE:
            lo = pconst(t.a[1])
            if isinstance(lo, int) and lo > 0:
                return minmax('max', ZERO, psub(length(t.a[0]), const(lo)))
        if t.op == 'slc' and t.a[3] is NONE and t.a[1] is NONE:
            hi = pconst(t.a[2])
            if isinstance(hi, int) and hi < 0:
                return minmax('max', ZERO, padd(length(t.a[0]), const(hi)))
        if t.op == 'post' and t.a[2] is FALSE:
            h, dom, brk, car, j = t.a
            j = pconst(j)
            if car[j][0].op == 'list' and keeps_length(car[j][1], mk('lc', h, j)):
                return length(car[j][0])
        return mk('len', t)
    return lift(f, x)


def keeps_length(x, c):
    """x is the list c with some elements replaced"""
    if x is c:
        return True
    if x.op == 'list':
        old = [s for s in x.a if (s.a[1] if s.op == 'g' else s).op == 'old']
        puts = [s for s in x.a if (s.a[1] if s.op == 'g' else s).op != 'old']
        if not all(count(s, True) is ZERO for s in puts):
            return False
        tot = FALSE
        for s in old:
            g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
            if b_and(g, tot) is not FALSE or not keeps_length(e.a[0], c):
                return False
            tot = b_or(tot, g)
        return tot is TRUE
    if x.op == 'ite':
        return keeps_length(x.a[1], c) and keeps_length(x.a[2], c)
    if x.op == 'post' and x.a[2] is FALSE:
        h, dom, brk, car, j = x.a
        j = pconst(j)
        return keeps_length(car[j][0], c) and keeps_length(car[j][1], mk('lc', h, j))
    return False


def count(s, fixed=False):
    """how many elements a segment emits, None when not expressible (fixed: setting by position adds none)"""
    if fixed and s.op in ('put', 'inc'):
        return ZERO
    if fixed and s.op in ('star', 'g') and all(count(x, True) is ZERO for x in (s.a[4] if s.op == 'star' else s.a[1:])):
        return ZERO
    if s.op == 'item':
        return ONE
    if s.op == 'g':
        c = count(s.a[1])
        return None if c is None else ite(s.a[0], c, ZERO)
    if s.op == 'old':
        return length(s.a[0])
    if s.op == 'star':
        h, dom, brk, car, segs = s.a
        if brk is FALSE and dom is not INF:
            tot = ZERO
            for x in segs:
                c = count(x)
                if c is None:
                    return None
                tot = padd(tot, c)
            k = pconst(tot)
            if k is not None:
                return pmul(const(k), dom)
    return None


def idx(base, key):
    def f(b, key):
        k = pconst(key)
        if k is None and key.op == 'poly':
            # x[len(x) - c]
            ln = mk('len', b)
            if any(m == (ln,) and c == 1 for m, c in key.a[0]):
                d = pconst(psub(key, ln))
                if isinstance(d, int) and d < 0:
                    k, key = d, const(d)
        if b.op in SEQ:
            a = common_case(b.a)
            if a is not None:
                return ite(atom(a), idx(mk(b.op, *guards_under(b.a, a, True)), key), idx(mk(b.op, *guards_under(b.a, a, False)), key))
        if b.op == 'list' and k is None and b.a and all(s.op == 'item' for s in b.a):
            b = mk('tup', *(s.a[0] for s in b.a))
        if b.op == 'tup' and isinstance(k, int) and -len(b.a) <= k < len(b.a):
            return b.a[k]
        if is_const(b, str) and isinstance(k, int) and -len(b.a[1]) <= k < len(b.a[1]):
            return const(b.a[1][k])
        if b.op in SEQ:
            if isinstance(k, int):
                if k >= 0:
                    for i, s in enumerate(b.a):
                        if s.op != 'item':
                            if s.op == 'star' and i == 0:
                                break
                            break
                        if i == k:
                            return s.a[0]
                else:
                    for i, s in enumerate(reversed(b.a)):
                        if s.op != 'item':
                            break
                        if i == -k - 1:
                            return s.a[0]
            if len(b.a) == 1 and b.a[0].op == 'star' and (k is None or k >= 0):
                h, dom, brk, car, segs = b.a[0].a
                if brk is FALSE and not car and len(segs) == 1 and segs[0].op == 'item' and (is_num(key) or is_int(key)):
                    return subst(segs[0].a[0], {mk('iterk', h): key})
        if b.op == 'dict' and key.op == 'keyat' and key.a[0].op == 'dict' and len(key.a[0].a) < len(b.a) \
                and tuple(s for s in b.a if s.op != 'fac') == key.a[0].a:
            return idx(key.a[0], key)
        if b.op in ('dict', 'list') and len(b.a) == 1 and b.a[0].op == 'old' and isinstance(b.a[0].a[0], T):
            return idx(b.a[0].a[0], key)
        if b.op == 'dict' and key.op == 'const':
            for s in reversed(b.a):
                if s.op not in ('kv', 'put') or s.a[0].op != 'const':
                    break
                if s.a[0] is key:
                    return s.a[1]
        if b.op == 'slc' and b.a[3] is NONE and (k is None or k >= 0):
            lo = b.a[1]
            lo_c = 0 if lo is NONE else pconst(lo)
            if (lo_c is None) or lo_c >= 0:
                if is_num(key) or is_int(key):
                    return idx(b.a[0], padd(key, ZERO if lo is NONE else lo))
        if isinstance(k, int) and not isinstance(k, bool) and k < 0 and False:
            return None
        return mk('idx', b, key)
    return lift(f, base, key)


def slc(b, lo, hi, step=NONE):
    def f(b, lo, hi):
        if lo is ZERO:
            lo = NONE
        if step is NONE or step is ONE:
            if lo is NONE and hi is NONE and b.op in ('tup', 'const'):
                return b
            l, h = pconst(lo) if lo is not NONE else 0, pconst(hi) if hi is not NONE else None
            if b.op == 'tup' and l is not None and (hi is NONE or h is not None):
                return mk('tup', *b.a[l:h])
            if is_const(b, str) and l is not None and (hi is NONE or h is not None):
                return const(b.a[1][l:h])
            if b.op == 'list' and all(s.op == 'item' for s in b.a) and l is not None and (hi is NONE or h is not None):
                return mk('list', *b.a[l:h])
            if hi.op == 'len' and hi.a[0] is b:
                hi = NONE
            return mk('slc', b, lo, hi, NONE)
        return mk('slc', b, lo, hi, step)
    return lift(f, b, lo, hi)


def attr(b, name):
    def f(x):
        if x.op == 'inst':
            for k, v in x.a[1]:
                if k == name:
                    return v
        return mk('attr', x, name)
    return lift(f, b)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if d > 16:
        return '…'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return f'{a[0]}'
    if o == 'param':
        return f'${a[0]}'
    if o == 'ref':
        return a[0].replace('builtins.', '')
    if o == 'attr':
        return f'{s(a[0])}.{a[1]}'
    if o == 'idx':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'slc':
        return f"{s(a[0])}[{'' if a[1] is NONE else s(a[1])}:{'' if a[2] is NONE else s(a[2])}]"
    if o == 'poly':
        out = []
        for m, c in a[0]:
            ms = '*'.join(s(x) for x in m)
            out.append((f'{c}' if not m else ms if c == 1 else f'{c}*{ms}'))
        return '(' + ' + '.join(out) + ')'
    if o in ('lt0', 'eq0'):
        if a[0].op == 'ite':
            return f'{o}({s(a[0])})'
        pos = from_poly({m: c for m, c in to_poly(a[0]).items() if c > 0})
        neg = from_poly({m: -c for m, c in to_poly(a[0]).items() if c < 0})
        return f"({s(pos)} {'<' if o == 'lt0' else '=='} {s(neg)})"
    if o == 'eq':
        return f'({s(a[0])} == {s(a[1])})'
    if o == 'in':
        return f'({s(a[0])} in {s(a[1])})'
    if o == 'isnone':
        return f'({s(a[0])} is None)'
    if o == 'truthy':
        return f'bool({s(a[0])})'
    if o == 'isinst':
        return f'isinstance({s(a[0])}, {s(a[1])})'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return 'not ' + s(a[0])
        if a[2] is FALSE:
            return f'({s(a[0])} and {s(a[1])})'
        if a[1] is TRUE:
            return f'({s(a[0])} or {s(a[2])})'
        if a[1] is FALSE:
            return f'(not {s(a[0])} and {s(a[2])})'
        if a[2] is TRUE:
            return f'(not {s(a[0])} or {s(a[1])})'
        return f'({s(a[1])} if {s(a[0])} else {s(a[2])})'
    if o == 'iterk':
        return f'k{a[0]}'
    if o == 'lc':
        return f'c{a[0]}.{a[1]}'
    if o == 'bv':
        return f'arg{a[0]}.{a[1]}'
    if o == 'lam':
        return f'lambda/{a[1]}: {s(a[2])}'
    if o == 'call':
        return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if o == 'mcall':
        return f"{s(a[0])}.{a[1]}({', '.join([s(x) for x in a[2]] + [f'{k}={s(v)}' for k, v in a[3]])})"
    if o == 'ev':
        return f"{a[0]}({', '.join([s(x) for x in a[1]] + [f'{k}={s(v)}' for k, v in a[2]])})"
    if o == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o in ('inst', 'new'):
        return f"{a[0].split('.')[-1]}({', '.join(f'{k}={s(v)}' for k, v in a[1])})"
    if o == 'obj':
        return f'<{a[0]}{a[1]}>'
    if o in ('list', 'dict', 'set', 'gen', 'tuple'):
        return o + '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'item':
        return s(a[0])
    if o == 'kv':
        return f'{s(a[0])}: {s(a[1])}'
    if o == 'put':
        return f'[{s(a[0])}] := {s(a[1])}'
    if o == 'inc':
        return f'[{s(a[0])}] += {s(a[1])}'
    if o == 'old':
        return f'old({s(a[0])})'
    if o == 'g':
        return f'{s(a[1])} when {s(a[0])}'
    if o in ('star', 'post'):
        h, dom, brk, car, segs = a
        c = ''.join(f'; c{h}.{i}: {s(x[0])} -> {s(x[1])}' + (f' exit {s(x[2])}' if brk is not FALSE and x[2] is not x[1] else '') for i, x in enumerate(car))
        b = '' if brk is FALSE else f'; until {s(brk)}'
        body = ', '.join(s(x) for x in segs) if o == 'star' else f'final {show(segs)}'
        return f"{{for k{h} < {s(dom)}{b}{c}: {body}}}"
    if o == 'cat':
        return 'cat<' + ' ~ '.join(s(x) for x in a) + '>'
    return f"{o}({', '.join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a)})"
