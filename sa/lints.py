"""Rules decided on the resolved syntax tree of the repository, without a reference.

Each rule returns its instances (sites it decided) and the sites that break it; `minimum` is what was confirmed by hand, fewer means the
rule has lost its subject and the run is broken rather than quiet."""
from __future__ import annotations
import ast
import os
from .world import dotted_name
from .terms import *


class Rule:
    def __init__(self, id, minimum, text, fn):
        self.id, self.minimum, self.text, self.fn = id, minimum, text, fn

    def run(self, P):
        return self.fn(P.repo)


def at(w, m, n):
    return f'{os.path.relpath(m.path, w.root)}:{n.lineno}'


def literal(n):
    return n.value if isinstance(n, ast.Constant) else None


def owner(m, node):
    """qualified name of the function around a node"""
    best = m.name
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)) and f.lineno <= node.lineno <= f.end_lineno:
            best += '.' + f.name
    return best


# ------------------------------------------------------------------ text is UTF-8
def utf8(w):
    inst, bad = [], []
    for m in w.mods.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted_name(n.func)
            kind = None
            if d:
                r = w.resolve_name(m, d)
                q = r[1] if r and r[0] == 'ext' else d if r is None else None
                if q in ('open', 'io.open', 'codecs.open', 'builtins.open'):
                    kind, mpos = 'open', 1
                elif q == 'gzip.open':
                    kind, mpos = 'gzip.open', 1
                elif q == 'argparse.FileType':
                    kind, mpos = 'FileType', 0
            if kind is None and isinstance(n.func, ast.Attribute) and n.func.attr == 'open':
                kind, mpos = 'path.open', 0
            if kind is None or any(k.arg is None for k in n.keywords):
                continue
            mode = n.args[mpos] if len(n.args) > mpos else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            mv = literal(mode) if mode is not None else 'rb' if kind == 'gzip.open' else 'r'
            if not isinstance(mv, str) or 'b' in mv or (kind == 'gzip.open' and 't' not in mv):
                continue
            enc = next((k.value for k in n.keywords if k.arg == 'encoding'), None)
            site = at(w, m, n) + ' ' + kind
            inst.append(site)
            if enc is not None and literal(enc) is None:
                continue                      # a name: decided by the value numbering of the function
            if enc is None or str(literal(enc)).lower().replace('_', '-') not in ('utf-8', 'utf8', 'utf-8-sig'):
                bad.append({'construct': owner(m, n), 'at': at(w, m, n), 'code': ast.unparse(n),
                            'reference': 'text files are opened with encoding utf-8', 'why': 'locale dependent text'})
    return inst, bad


# ------------------------------------------------------------------ every scheme can be reopened
def registry(w):
    from .summary import const_value
    inst, bad = [], []
    base = w.classes.get('nlcodec.codec.EncoderScheme')
    reg = const_value(w, 'nlcodec.codec.REGISTRY')
    if base is None or reg is None or reg.op != 'dict':
        return inst, bad
    table = {}
    for s in reg.a:
        if s.op in ('kv', 'put') and s.a[0].op == 'const':
            table[s.a[0].a[1]] = s.a[1]
    for c in w.classes.values():
        if c is base or base not in w.mro(c) or c.module.name != 'nlcodec.codec' or c.name.startswith('_'):
            continue
        v = const_value(w, c.qual + '.name')
        name = v.a[1] if v is not None and v.op == 'const' else None
        inst.append(f'{c.qual} name={name!r}')
        got = table.get(name)
        if not name or got is None or got.op != 'ref' or got.a[0] != c.qual:
            bad.append({'construct': c.qual, 'at': at(w, c.module, c.node), 'code': f'REGISTRY[{name!r}] = {got}',
                        'reference': f'{c.qual}', 'why': 'a model saved by this scheme is reopened by another one, or not at all'})
    return inst, bad


# ------------------------------------------------------------------ command line options
def options(w):
    inst, bad = [], []
    for m in w.mods.values():
        dests, spread, known = {}, [], True
        parse = m.names.get('parse_args')
        has_parser = any(isinstance(n, ast.Call) and (dotted_name(n.func) or '').endswith('ArgumentParser') for n in ast.walk(m.tree))
        if not has_parser:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                if any(k.arg == 'action' and literal(k.value) in ('version', 'help') for k in n.keywords):
                    continue
                names = [literal(a) for a in n.args]
                dest = next((literal(k.value) for k in n.keywords if k.arg == 'dest'), None)
                if dest is None:
                    if not names or any(not isinstance(x, str) for x in names):
                        known = False
                        continue
                    long = [x for x in names if x.startswith('--')]
                    x = long[0] if long else names[0]
                    dest = x.lstrip('-').replace('-', '_')
                dests[dest] = n
            elif isinstance(n, ast.Call) and (dotted_name(n.func) or '').split('.')[-1] == 'add_bool_arg':
                v = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'name'), None)
                if isinstance(literal(v) if v is not None else None, str):
                    dests[literal(v)] = n
                else:
                    known = False
        if not known:
            continue
        # what the rest of the module reads of the parsed arguments
        holders, wholesale, reads = {'args'}, False, {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.BoolOp)):
                src = [x for x in ast.walk(n.value) if isinstance(x, ast.Call) and (dotted_name(x.func) or '').split('.')[-1] == 'parse_args']
                if src:
                    holders |= {t.id for t in n.targets if isinstance(t, ast.Name)}

        def held(x):
            return isinstance(x, ast.Name) and x.id in holders
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and held(n.value) and isinstance(n.ctx, ast.Load) and n.attr not in ('pop', 'get', 'items', 'keys', 'values', 'copy', 'update', 'setdefault'):
                reads.setdefault(n.attr, n)
            elif isinstance(n, ast.Subscript) and held(n.value) and isinstance(literal(n.slice), str):
                reads.setdefault(literal(n.slice), n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'get') and held(n.func.value) and n.args and isinstance(literal(n.args[0]), str):
                reads.setdefault(literal(n.args[0]), n)
            elif isinstance(n, ast.Call) and any(k.arg is None for k in n.keywords):
                wholesale = True
            elif isinstance(n, ast.Call) and any(held(a) for a in n.args) and dotted_name(n.func) != 'vars':
                wholesale = True
        for d, n in dests.items():
            inst.append(f'{at(w, m, n)} --{d}')
            if not wholesale and d not in reads:
                bad.append({'construct': f'{m.name} option {d}', 'at': at(w, m, n), 'code': f'option {d} is accepted and never read',
                            'reference': 'every option reaches the code', 'why': 'the option has no effect'})
        for r, n in reads.items():
            if r not in dests and not wholesale:
                bad.append({'construct': f'{m.name} option {r}', 'at': at(w, m, n), 'code': ast.unparse(n), 'reference': 'options that are declared',
                            'why': 'reading this option fails'})
    return inst, bad


RULES = {
    'L02': [Rule('L02.utf8', 10, 'every file opened as text names UTF-8', utf8)],
    'C02': [Rule('C02.registry', 5, 'every concrete scheme is registered under its own name', registry)],
    'L01': [Rule('L01.options', 40, 'every declared option is read and every option read is declared', options)],
}
