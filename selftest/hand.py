"""Hand-written behaviour-preserving edits: the analysis must find every function unchanged.
python3 selftest/hand.py [FILE-OR-ID...]      V=1 shows the differing terms"""
import sys, os, re, glob, shutil, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)


def load():
    out = []
    for p in sorted(glob.glob(HERE + '/hand/*.txt')):
        t = open(p, encoding='utf-8').read()
        for blk in re.split(r'^=== ', t, flags=re.M)[1:]:
            name, body = blk.split('\n', 1)
            eds = []
            for part in re.split(r'^--- ', body, flags=re.M)[1:]:
                f, rest = part.split('\n', 1)
                for m in re.finditer(r'^(?:<<<<\n(.*?)^====|@@@@ ([^\n]+))\n(.*?)^>>>>\n?', rest, flags=re.M | re.S):
                    eds.append((f.strip(), m.group(1) if m.group(1) is not None else ('fn', m.group(2).strip()), m.group(3)))
            out.append((os.path.basename(p)[:-4] + '/' + name.strip(), eds))
    return out


def build(eds, dst):
    shutil.copytree('/repo/nlcodec', dst + '/nlcodec', ignore=shutil.ignore_patterns('__pycache__'))
    for f, a, b in eds:
        p = f'{dst}/nlcodec/{f}'
        s = open(p, encoding='utf-8').read()
        if isinstance(a, tuple):  # a whole function, by its qualified name
            import ast
            n = ast.parse(s)
            for x in a[1].split('.'):
                n = next(c for c in n.body if getattr(c, 'name', None) == x)
            ls = s.split('\n')
            top = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            a = '\n'.join(ls[top:n.end_lineno]) + '\n'
        if s.count(a) != 1:
            a, b = a[:-1], b[:-1]
        if s.count(a) != 1:
            raise SystemExit(f'{f}: {s.count(a)} matches for\n{a}')
        s = s.replace(a, b)
        compile(s, f, 'exec')
        open(p, 'w', encoding='utf-8').write(s)


def job(x):
    name, eds = x
    from sa import rules, lints
    from sa.compare import Pair
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='hand')
    try:
        build(eds, d)
        P = Pair(d, os.path.dirname(HERE) + '/spec')
        res = {}
        memo = {}
        for pid, obs in rules.RULES.items():
            for ob in obs:
                k = (ob.qual, ob.facets)
                if k not in memo:
                    memo[k] = P.obligation(ob)
                st, df = memo[k]
                if st not in ('equal',):
                    res.setdefault((ob.qual, st), [[], df])[0].append(pid)
            for r in lints.RULES.get(pid, ()):
                ins, bad = r.run(P)
                if len(ins) < r.minimum or bad:
                    res[(r.id, 'lint')] = [[pid], [('lint', len(ins), bad)]]
        return name, res, time.time() - t0
    except SystemExit as e:
        return name, {('EDIT', str(e)[:300]): [[], []]}, 0
    except Exception as e:
        import traceback
        return name, {('CRASH', traceback.format_exc()[-600:]): [[], []]}, 0
    finally:
        shutil.rmtree(d)


def mism(a, b, out, depth=0, seen=None):
    """the smallest differing parts"""
    from sa.terms import T
    seen = set() if seen is None else seen
    if a is b or a == b or (a, b) in seen or len(out) > 12:
        return
    seen.add((a, b))
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a) and depth < 60:
        if a.op == 'ite' and a.a[0] is not b.a[0]:
            out.append((a, b))
            return
        for x, y in zip(a.a, b.a):
            mism(x, y, out, depth + 1, seen)
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            mism(x, y, out, depth + 1, seen)
    elif isinstance(a, tuple) and isinstance(b, tuple):
        out.append((tuple(x for x in a if x not in b), tuple(y for y in b if y not in a)))
    else:
        out.append((a, b))


def brief(u, v):
    """both, with what they share named"""
    from sa.terms import T, mk, walk, subst, show
    if not (isinstance(u, T) and isinstance(v, T)):
        return show(u), show(v)
    common = set(walk(u)) & set(walk(v))
    m = {}

    def size(t):
        return sum(1 for _ in walk(t))

    def visit(t):
        if isinstance(t, tuple):
            for x in t:
                visit(x)
        elif isinstance(t, T):
            if t in common and t.op not in ('param', 'const', 'ref', 'iterk') and size(t) > 4:
                m.setdefault(t, mk('param', f'§{len(m)}'))
                return
            for x in t.a:
                visit(x)
    visit(u)
    visit(v)
    try:
        return show(subst(u, m)), show(subst(v, m))
    except Exception:
        return show(u), show(v)


if __name__ == '__main__':
    sel = sys.argv[1:]
    xs = [x for x in load() if not sel or any(s in x[0] for s in sel)]
    import multiprocessing as mp
    n = 0
    with mp.Pool(8, maxtasksperchild=1) as p:
        for name, res, dt in p.imap_unordered(job, xs, 1):
            if res:
                n += 1
                print('##', name, f'{dt:.1f}s')
                for (q, st), (pids, df) in res.items():
                    print('    ', st, q, ','.join(pids))
                    if os.environ.get('V'):
                        from sa.terms import show
                        L = int(os.environ['V'])
                        for f, a, b in df[:2]:
                            o = []
                            mism(a, b, o)
                            print('        ', f)
                            for u, v in o[:int(os.environ.get('N', 2))]:
                                u, v = brief(u, v)
                                print('           R', u[:L], '\n           S', v[:L])
    print(len(xs), 'edits,', n, 'not quiet')
