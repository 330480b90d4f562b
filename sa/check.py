"""Decide one property:  python3 -m sa.check <ID> [--repo DIR]

exit 0: every obligation that could be analysed agrees with its reference;  1: a construct differs (VIOLATION);  2: analysis broken."""
from __future__ import annotations
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def focus(x, y, path=()):
    """the smallest pair of differing subterms"""
    from .terms import T as Term
    if x is None or y is None:
        return x, y
    while True:
        if not (isinstance(x, Term) and isinstance(y, Term)) or x.op != y.op or len(x.a) != len(y.a):
            return x, y
        d = [(p, q) for p, q in zip(x.a, y.a) if p is not q and p != q]
        if len(d) != 1:
            return x, y
        p, q = d[0]
        while isinstance(p, tuple) and isinstance(q, tuple):
            if len(p) != len(q):
                return x, y
            e = [(s, t) for s, t in zip(p, q) if s is not t and s != t]
            if len(e) != 1:
                return x, y
            p, q = e[0]
        if not (isinstance(p, Term) and isinstance(q, Term)):
            return x, y
        if x.op == 'star' and not (p.op == q.op):
            return x, y
        x, y = p, q


def clip(t, n=700):
    s = '(nothing)' if t is None else str(t)
    return s if len(s) <= n else s[:n] + ' …'


def run(pid, repo, seed, tier):
    from . import rules, lints
    from .compare import Pair, MISSING
    P = Pair(repo, os.path.join(HERE, 'spec'))
    obs = []
    findings, unknown, missing = [], [], []
    seen = {}
    for ob in rules.RULES[pid]:
        key = (ob.qual, ob.exact)
        if key in seen:
            seen[key].facets = tuple(dict.fromkeys(seen[key].facets + ob.facets))
            continue
        seen[key] = rules.Ob(ob.qual, ob.facets, ob.why, ob.exact)
    n_ok = 0
    analysed = []
    sites = steps = 0
    for ob in seen.values():
        st, diffs = P.obligation(ob)
        rec = {'construct': ob.qual, 'facets': list(ob.facets), 'why': ob.why, 'verdict': st}
        loc = P.where(ob.qual)
        if loc:
            rec['at'] = loc
        obs.append(rec)
        if st == 'equal':
            n_ok += 1
        elif st == 'different':
            for f, x, y in diffs:
                a, b = focus(x, y)
                findings.append({'rule': pid + '.reference', 'construct': ob.qual, 'facet': f, 'at': loc, 'why': ob.why,
                                 'code': clip(a), 'reference': clip(b), 'code_whole': clip(x, 4000), 'reference_whole': clip(y, 4000)})
        elif st == 'missing':
            missing.append(ob.qual)
            rec['note'] = 'not in the tree; looked through where it was called'
        else:
            unknown.append({'construct': ob.qual, 'reason': clip(diffs[0][1] if diffs else '', 300)})
            rec['note'] = clip(diffs[0][1] if diffs else '', 200)
    lint_res = []
    for rule in lints.RULES.get(pid, ()):
        insts, bad = rule.run(P)
        lint_res.append({'rule': rule.id, 'text': rule.text, 'instances': len(insts), 'sample': [str(i) for i in insts[:12]]})
        if len(insts) < rule.minimum:
            raise RuntimeError(f'rule {rule.id} found {len(insts)} instances, {rule.minimum} were confirmed by hand')
        for b in bad:
            b.update(rule=rule.id)
            findings.append(b)
    return P, obs, n_ok, findings, unknown, missing, lint_res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        P, obs, n_ok, findings, unknown, missing, lint_res = run(pid, a.repo, seed, tier)
    except SyntaxError as e:
        print(f'ANALYSIS-BROKEN property={pid} the tree does not parse: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}')
        return 2
    if missing and len(missing) * 2 > len(obs):
        print(f'ANALYSIS-BROKEN property={pid} most of the code it is about is gone: {", ".join(missing)}')
        return 2
    known = load_known()
    news = []
    for f in findings:
        k = next((k for k in known if k['property'] == pid and k['construct'] == f['construct'] and k['rule'] == f['rule'] and k.get('detail', '') in f['code']), None)
        if k is None:
            news.append(f)
    os.makedirs(a.evidence, exist_ok=True)
    for k in known:
        if k['property'] == pid and k.get('always'):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    report = os.path.join(a.evidence, pid + '.report.txt')
    lines = []
    for f in news:
        lines.append(f"{f['rule']}  {f.get('at')}  {f['construct']}  [{f.get('facet', '')}]  {f.get('why', '')}")
        lines.append(f"    code:      {f['code']}")
        lines.append(f"    reference: {f.get('reference', '')}")
        if 'code_whole' in f:
            lines.append(f"    -- whole facet, code:      {f['code_whole']}")
            lines.append(f"    -- whole facet, reference: {f['reference_whole']}")
    with open(report, 'w', encoding='utf-8') as o:
        o.write('\n'.join(lines) + '\n' if lines else 'no violation\n')
    n_terms = P.n_terms()
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source tree. For each listed construct the analyser computes, by gated value '
                           'numbering over the syntax tree (branches joined, loops closed, helpers looked through; nothing is executed and no '
                           'paths or inputs are enumerated), what it returns, stores, writes and refuses, and compares that with the same '
                           'computation on the reference definition for this property; the lint rules are decided on the resolved tree.',
            'obligations': len(obs) + sum(r['instances'] for r in lint_res),
            'discharged': n_ok + sum(r['instances'] for r in lint_res) - sum(1 for f in findings if f['rule'] != pid + '.reference'),
            'not_decided': unknown, 'not_in_tree': missing,
            'constructs': obs, 'lint_rules': lint_res, 'summary_nodes': n_terms,
            'modules_read': sorted(P.repo.mods),
        },
        'assumptions': ['calls into libraries (numpy, pyspark, argparse, the standard library) behave as documented',
                        'the reference definitions under spec/ state the intended behaviour',
                        'constructs listed under not_decided are not claimed by this run'],
        'violations': len(news), 'wall_s': round(time.time() - t0, 3),
    }
    with open(os.path.join(a.evidence, pid + '.json'), 'w', encoding='utf-8') as o:
        json.dump(ev, o, indent=1, ensure_ascii=False)
    print(f'{pid}: {n_ok} of {len(obs)} constructs agree with their reference, {len(unknown)} not decided, {len(missing)} not in the tree; '
          + '; '.join(f"{r['rule']} {r['instances']} sites" for r in lint_res) + f' ({time.time() - t0:.1f}s)')
    for u in unknown:
        print(f"  not decided: {u['construct']}: {u['reason'][:150]}")
    if news:
        for f in news[:12]:
            print(f"  {f['rule']} at {f.get('at')} in {f['construct']} [{f.get('facet', '')}] {f.get('why', '')}")
            print(f"      code:      {f['code'][:300]}")
            print(f"      reference: {f.get('reference', '')[:300]}")
        print(f'VIOLATION property={pid} replay={report}')
        return 1
    return 0


def load_known():
    p = os.path.join(HERE, 'known-findings.jsonl')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf-8') as f:
        return [k for k in (json.loads(x) for x in f if x.strip() and not x.startswith('#')) if k.get('status') == 'known']


if __name__ == '__main__':
    sys.exit(main())
