"""Summaries: what one function computes, as terms over its parameters."""
from __future__ import annotations
import sys, ast
from .terms import *
from .world import *
from .interp import Interp, Frame, State, clean, sort_inc, is_file, varies, lasting

sys.setrecursionlimit(20000)


class Summary:
    def __init__(self):
        self.facets = {}
        self.unk = []
        self.raises = []
        self.steps = 0


def drop_raise(segs):
    out = []
    for s in segs:
        e = s
        while e.op == 'g':
            e = e.a[1]
        if e.op == 'raise':
            continue
        if e.op == 'star':
            h, dom, brk, car, body = e.a
            b2 = drop_raise(body)
            if not b2:
                continue
            s = regard(s, star_raw(h, dom, brk, car, b2))
        elif e.op == 'protect':
            s = regard(s, mk('protect', drop_raise(e.a[0]), drop_raise(e.a[1])))
        elif e.op == 'upto':
            b2 = drop_raise(e.a)
            if not b2:
                continue
            s = regard(s, mk('upto', *b2))
        out.append(s)
    return tuple(out)


def regard(s, e):
    return guard(s.a[0], regard(s.a[1], e)) if s.op == 'g' else e


def flow_of(segs):
    """the effects in order, without what only concerns the closing of files: protected regions are flattened"""
    out = []
    for s in segs:
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op == 'protect':
            sub = flow_of(e.a[0]) + flow_of(e.a[1])
            out.extend(guard(g, x) for x in sub)
        elif e.op == 'star':
            h, dom, brk, car, body = e.a
            sub = flow_of(body)
            if sub:
                out.append(guard(g, star_raw(h, dom, brk, car, sub)))
        elif e.op == 'upto':
            sub = flow_of(e.a)
            if sub:
                out.append(guard(g, mk('upto', *sub)))
        elif e.op == 'raise':
            pass
        elif e.op == 'ev' and e.a[0] == 'close' and is_file(e.a[1][0]):
            pass
        else:
            out.append(s)
    return tuple(out)


def refusals(segs, it=None):
    """when the function refuses to go on"""
    out = []
    for s in segs:
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op == 'protect':
            out.extend(guard(g, x) for x in refusals(e.a[0], it) + refusals(e.a[1], it))
        elif e.op == 'star':
            h, dom, brk, car, body = e.a
            sub = refusals(body, it)
            if it is not None and sub and brk is FALSE and not car and dom is not INF:
                # refusing in some round
                u = uid()
                keep = []
                for x in subst(sub, {mk('iterk', h): mk('iterk', u)}):
                    c, r = (x.a[0], x.a[1]) if x.op == 'g' else (TRUE, x)
                    if r.op == 'raise' and not varies(r, u):
                        c = it.some(u, dom, c)
                        if c is not FALSE:
                            out.append(guard(b_and(g, c), r))
                    else:
                        keep.append(x)
                if keep:
                    out.append(guard(g, star_raw(u, dom, brk, car, tuple(keep))))
            elif sub:
                out.append(guard(g, star_raw(h, dom, brk, car, sub)))
        elif e.op == 'upto':
            out.extend(guard(g, x) for x in refusals(e.a, it))
        elif e.op == 'raise':
            n = e.a[0] if e.a and isinstance(e.a[0], str) else None
            out.append(guard(g, mk('raise', 'an exception') if n is not None and n.startswith('builtins.') else e))
    return tuple(out)


def refusing(segs, it, later=FALSE):
    """what has been done outside, that stays, when the function refuses"""
    out = []
    for s in reversed(segs):
        g, e = (s.a[0], s.a[1]) if s.op == 'g' else (TRUE, s)
        if e.op == 'raise':
            later = b_or(later, g)
        elif e.op in ('protect', 'upto'):
            out = list(refusing(tuple(guard(g, x) for x in (e.a if e.op == 'upto' else e.a[0] + e.a[1])), it, later)) + out
            for x in refusals((s,), it):
                later = b_or(later, x.a[0] if x.op == 'g' and x.a[1].op == 'raise' else TRUE if x.op == 'raise' else FALSE)
        else:
            if lasting(s, it.w):
                c = b_and(g, later)
                x = flow_of((guard(c, only_lasting(e, it.w)),))
                if c is not FALSE and x:
                    out = list(x) + out
            if e.op == 'star':
                for x in refusals((s,), it):
                    later = b_or(later, x.a[0] if x.op == 'g' and x.a[1].op == 'raise' else TRUE if x.op == 'raise' else FALSE)
    return tuple(out)


def only_lasting(e, w):
    if e.op == 'star':
        return star_raw(*e.a[:4], tuple(regard(x, only_lasting(bare(x), w)) for x in e.a[4] if lasting(x, w)))
    return e


def bare(s):
    return bare(s.a[1]) if s.op == 'g' else s


def summarise(w, qual, exact=None, opaque=lambda fn: False, mappings=()):
    fn = w.fns[qual]
    it = Interp(w, opaque)
    it.mappings.update(mappings)
    cls = w.classes[exact] if exact else fn.cls
    a = fn.node.args
    pos = a.posonlyargs + a.args
    b, recv = {}, None
    pos_defaults = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
    for i, p in enumerate(pos):
        t = mk('param', i)
        if i == 0 and fn.kind == 'classmethod':
            t = mk('ref', cls.qual)
            recv = t
        elif i == 0 and fn.kind in ('method', 'property'):
            recv = t
        b[p.arg] = t
        ty = it.param_type(a, p, fn.module, fn.cls) if p.annotation is not None else None
        g = w.other.fns.get(qual) if w.other is not None and not ty else None
        if g is not None:
            ps = g.node.args.posonlyargs + g.node.args.args
            if i < len(ps) and ps[i].annotation is not None:
                ty = it.param_type(g.node.args, ps[i], g.module, g.cls)
        if ty:
            it.types[t] = ty
        d = pos_defaults.get(p.arg)
        if p.annotation is None and isinstance(d, ast.Constant) and isinstance(d.value, str):
            it.strs.add(t)
    for p in a.kwonlyargs:
        b[p.arg] = mk('param', p.arg)
    if a.vararg:
        b['*' + a.vararg.arg] = mk('param', '*')
    if a.kwarg:
        b['**' + a.kwarg.arg] = mk('param', '**')
    fr = Frame(fn, fn.module, fn.cls, recv, cls if exact or fn.kind == 'classmethod' else None)
    if fn.cls is not None and recv is not None and fn.kind != 'classmethod':
        it.types.setdefault(recv, ('cls', cls.qual))
    it.frames.append(fr)
    it.stack.append(fn.qual)
    st = State()
    ret = it.run_body(fn.node, b, st, fn.is_gen, fn)
    s = Summary()
    s.mappings = it.mappings
    s.facets['ret'] = it.freeze(ret, st)
    attrs = []
    for (o, n), v in st.attrs.items():
        if o.op == 'obj':
            continue
        v = it.freeze(v, st)
        if v.op == 'attr' and v.a[0] is o and v.a[1] == n:
            continue
        attrs.append((show(it.freeze(o, st)) + '.' + n, v))
    for n, v in sorted(attrs, key=lambda p: p[0]):
        s.facets['attr ' + n] = v
    for o, segs in st.heap.items():
        if o.op == 'obj':
            continue
        if len(segs) == 1 and segs[0].op == 'old' and segs[0].a[0] is o:
            continue
        segs = [it.freeze_inner(x, st, 0, o) for x in segs]
        s.facets['content ' + show(o)] = mk('log', *clean(sort_inc(segs)))
    tr = tuple(it.freeze(x, st) for x in st.trace)
    s.facets['trace'] = mk('log', *clean(drop_raise(tr)))
    s.facets['flow'] = mk('log', *clean(flow_of(tr)))
    s.facets['raises'] = mk('set', *sorted(set(clean(refusals(tr, it))), key=lambda t: t.n))
    s.facets['refusing'] = mk('log', *clean(refusing(tr, it)))
    s.facets['defaults'] = defaults(w, it, fn)
    for k, v in s.facets.items():
        for x in walk(v):
            if x.op in ('unk', 'havoc'):
                s.unk.append((k, show(x)))
    s.steps = it.steps
    s.interp = it
    return s


def defaults(w, it, fn):
    a = fn.node.args
    pos = a.posonlyargs + a.args
    out = []
    for i, (p, d) in enumerate(zip(pos[len(pos) - len(a.defaults):], a.defaults)):
        out.append(mk('tup', const(p.arg), it.default(fn, d)))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out.append(mk('tup', const(p.arg), it.default(fn, d)))
    return mk('log', *sorted(out, key=lambda t: t.a[0].a[1]))


def const_value(w, qual):
    """a module or class level constant"""
    base, name = qual.rsplit('.', 1)
    it = Interp(w, lambda q: False)
    if base in w.mods:
        e = w.mods[base].names.get(name)
        if e is None or e[0] != 'expr':
            return None
        return it.eval_static(e[1], w.mods[base], None)
    c = w.classes.get(base)
    if c is None:
        return None
    for k in w.mro(c):
        if name in k.consts:
            env = it.class_env(k, name)
            return it.eval_static(k.consts[name], k.module, k, env)
    return None
