"""Comparison of a function of the repository with its reference definition."""
from __future__ import annotations
from .terms import *
from .summary import summarise, Summary, const_value
from .world import World
import signal, time

WIDE = {'nlcodec.db.core.best_dtype', 'nlcodec.codec.Type.read_vocab', 'nlcodec.codec.load_scheme', 'nlcodec.codec.EncoderScheme.get_init_vocab', 'nlcodec.bpe.BPELearn.__init__'}
SECONDS = {'calls': 150, 'inline': 90}    # for one function
TOTAL = 500                               # for looking through calls, in one run


class TimeUp(BaseException):
    pass


class limit:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*_):
            raise TimeUp
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def public(q):
    """functions that other code may name: they stay calls; underscore names are helpers and are looked through"""
    return not q.split('.')[-1].startswith('_') or q.endswith('.__init__')


MISSING = 'missing'


def sizes(w):
    """the attributes that __len__ returns, where no other class has one of that name"""
    import ast
    names, other = set(), set()
    for c in w.classes.values():
        f = c.fns.get('__len__')
        mine = None
        if f is not None:
            b = f.node.body[-1]
            if len(f.node.body) == 1 and isinstance(b, ast.Return) and isinstance(b.value, ast.Attribute) and isinstance(b.value.value, ast.Name) and b.value.value.id == 'self':
                mine = b.value.attr
                names.add(mine)
        for g in c.fns.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr != mine:
                    other.add(n.attr)
    return names - other


class Pair:
    def __init__(self, repo, spec):
        self.spec = World(spec)
        self.repo = World(repo)
        self.repo.follow(self.spec)
        self.repo.other, self.spec.other = self.spec, self.repo
        SIZES.update(sizes(self.spec))
        self.inv = {q for q in self.spec.fns if public(q)}
        self.memo = {}
        self.spent = 0

    def opaque(self, q):
        return q in self.inv

    def wide(self, q):
        """a choice between many cases, kept as a call where both trees have it"""
        return q in WIDE and q in self.inv

    def summary(self, which, qual, exact, mode, mappings=()):
        key = (which, qual, exact, mode)
        r = self.memo.get(key)
        if r is None:
            w = self.repo if which == 'repo' else self.spec
            t0 = time.time()
            try:
                with limit(SECONDS[mode] if mode == 'calls' else min(SECONDS[mode], max(1, TOTAL - self.spent))):
                    r = summarise(w, self.locate(qual) if which == 'repo' else qual, exact, self.opaque if mode == 'calls' else self.wide, mappings)
                    if which == 'spec' and r.mappings:
                        # also where it comes before the use that says so
                        r = summarise(w, qual, exact, self.opaque if mode == 'calls' else self.wide, r.mappings)
            except Undecided as e:
                r = e
            except TimeUp:
                r = Undecided('time limit')
            except RecursionError as e:
                r = Undecided('recursion')
            if mode == 'inline':
                self.spent += time.time() - t0
            self.memo[key] = r
        return r

    # ------------------------------------------------------------ obligations
    def locate(self, qual):
        """the function of the tree that a name of the reference means now"""
        if qual in self.repo.fns:
            return qual
        r = self.repo.dotted(qual)
        return r[1].qual if r[0] == 'fn' else None

    def where(self, qual):
        q = self.locate(qual)
        if q is None:
            return None
        f = self.repo.fns[q]
        import os
        return f'{os.path.relpath(f.module.path, self.repo.root)}:{f.node.lineno}'

    def obligation(self, ob):
        if ob.facets == ('const',):
            a, b = const_value(self.repo, ob.qual), const_value(self.spec, ob.qual)
            if b is None:
                raise KeyError(f'no reference for {ob.qual}')
            if a is None:
                return 'undecided', [('const', 'not a constant of the tree', '')]
            return ('equal', []) if a is b else ('different', [('value', a, b)])
        if ob.qual not in self.spec.fns:
            raise KeyError(f'no reference for {ob.qual}')
        q = self.locate(ob.qual)
        if q is None:
            return MISSING, []
        return self.compare(ob.qual, ob.exact, ob.facets)

    def n_terms(self):
        return sum(s.steps for (w, *_), s in self.memo.items() if w == 'repo' and isinstance(s, Summary))

    def compare(self, qual, exact=None, facets=None):
        """-> (status, [(facet, repo term, reference term)])"""
        last = None
        for mode in ('calls', 'inline'):
            b = self.summary('spec', qual, exact, mode)
            # what the reference uses as a mapping is one
            a = self.summary('repo', qual, exact, mode, getattr(b, 'mappings', ()))
            if isinstance(b, Undecided):
                st, d = 'undecided', [('reference', str(b), '')]
            elif isinstance(a, Undecided):
                st, d = 'undecided', [('code', str(a), '')]
            else:
                d = diff_facets(a, b, facets)
                st = 'equal' if not d else 'different'
                if d and (a.unk or b.unk):
                    st = 'undecided'
            if st == 'equal' and not (last is not None and ('never' in (a.facets['ret'].op, b.facets['ret'].op))):
                return st, []
            if last is None:
                last = (st, d)
        return last


def wanted(k, facets):
    if facets is None:
        return k not in ('raises', 'trace')
    return any(k == f or (f.endswith('*') and k.startswith(f[:-1])) for f in facets)


def refused_more(xs, ys, kinds=False, ints=()):
    """what is refused in xs and not in ys"""
    def cond(s):
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        return g if e.op == 'raise' and e.a[:1] != ('check',) else b_and(g, atom(mk('refuses', e)))

    def kind(s):
        e = s.a[1] if s.op == 'g' else s
        return e if kinds and e.op == 'raise' else None

    out = []
    for x in xs:
        if any(x is y for y in ys):
            continue
        left = TRUE
        for y in ys:
            if kind(x) is kind(y):
                left = b_and(left, b_not(cond(y)))
        c = b_and(cond(x), left)
        if c is not FALSE and possible(c, ints):
            out.append(x)
    return out


def possible(c, ints, limit=400):
    """whether some way through the diagram is not excluded by what its atoms say together"""
    todo, n = [(c, ())], 0
    while todo:
        x, lits = todo.pop()
        if x is FALSE:
            continue
        n += 1
        if x is TRUE or x.op != 'ite' or n > limit:
            if n > limit or not excluded(lits, ints):
                return True
            continue
        todo += [(x.a[1], lits + ((x.a[0], True),)), (x.a[2], lits + ((x.a[0], False),))]
    return False


def exists_star(t):
    """some item for which the condition holds -> (number of items, condition, item)"""
    if t.op == 'truthy' and t.a[0].op == 'post':
        h, dom, brk, car, j = t.a[0].a
        if brk is not FALSE and len(car) == 1 and tuple(car[0])[-3:] == (FALSE, FALSE, TRUE):
            return dom, brk, mk('iterk', h)
    return None


def excluded(lits, ints=()):
    """the atoms contradict each other"""
    some = [(exists_star(a), p) for a, p in lits]
    for e, p in some:
        for e2, p2 in some:
            # where one is found, so is the other
            if e and e2 and p and not p2 and e[0] is e2[0] and b_and(e[1], b_not(subst(e2[1], {e2[2]: e[2]}))) is FALSE:
                return True
    rows = []
    for a, p in lits:
        if a.op == 'lt0':
            d = to_poly(a.a[0])
            whole = all(isinstance(k, int) and all(x in ints or is_int(x) for x in m) for m, k in d.items())
            if p:
                rows.append(({m: k for m, k in d.items() if m}, d.get((), 0) + whole, not whole))
            else:
                rows.append(({m: -k for m, k in d.items() if m}, -d.get((), 0), False))
        elif a.op == 'eq0' and p:
            d = to_poly(a.a[0])
            for s in (1, -1):
                rows.append(({m: s * k for m, k in d.items() if m}, s * d.get((), 0), False))
    return infeasible(rows[:10])


def infeasible(rows):
    """no values make every row (sum of k*m, constant, strict) at most zero"""
    while True:
        for d, c, strict in rows:
            if not d and (c > 0 or strict and c == 0):
                return True
        ms = {m for d, _, _ in rows for m in d}
        if not ms:
            return False
        m = min(ms, key=lambda m: sum(1 for d, _, _ in rows if m in d))
        up = [r for r in rows if r[0].get(m, 0) > 0]
        lo = [r for r in rows if r[0].get(m, 0) < 0]
        rows = [r for r in rows if m not in r[0]]
        if len(up) * len(lo) + len(rows) > 60:
            return False
        for a, ca, sa in up:
            for b, cb, sb in lo:
                ka, kb = -b[m], a[m]
                d = {}
                for k in set(a) | set(b):
                    v = ka * a.get(k, 0) + kb * b.get(k, 0)
                    if v and k != m:
                        d[k] = v
                rows.append((d, ka * ca + kb * cb, sa or sb))


def diff_facets(a, b, facets):
    out = []
    ints = {t for t, ty in b.interp.types.items() if ty == ('int',)}
    if facets is not None and 'more' in facets:
        m = refused_more(a.facets['raises'].a, b.facets['raises'].a, False, ints)
        if m:
            out.append(('more', mk('set', *m), b.facets['raises']))
    for k in sorted(set(a.facets) | set(b.facets)):
        if not wanted(k, facets):
            continue
        x, y = a.facets.get(k), b.facets.get(k)
        if x is y:
            continue
        if k == 'raises' and not refused_more(x.a, y.a, True, ints) and not refused_more(y.a, x.a, True, ints):
            continue
        out.append((k, x, y))
    return out
