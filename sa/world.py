"""The program under analysis: modules, classes, functions of a source tree, and name resolution."""
from __future__ import annotations
import ast
import os
from .terms import *


class Fn:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.kind = 'fn'
        self.decorators = set()
        for d in node.decorator_list:
            n = d
            if isinstance(n, ast.Call):
                n = n.func
            self.decorators.add(n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '?'))
        if cls is not None:
            self.kind = 'method'
            if 'classmethod' in self.decorators:
                self.kind = 'classmethod'
            elif 'staticmethod' in self.decorators:
                self.kind = 'static'
            elif 'property' in self.decorators or 'cached_property' in self.decorators:
                self.kind = 'property'
        self.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(node))

    @property
    def name(self):
        return self.node.name


def own_nodes(fn):
    """nodes of a function that are not in a nested function"""
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                st.append(c)


class Cls:
    def __init__(self, qual, node, module, outer=None):
        self.qual, self.node, self.module, self.outer = qual, node, module, outer
        self.fns, self.consts, self.inner, self.anns = {}, {}, {}, {}
        self.order = []
        deco = {(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list}
        self.dataclass = any((d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')) == 'dataclass' for d in deco)
        self.attr_writes = set()

    @property
    def name(self):
        return self.node.name


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.names = {}      # name -> ('fn',Fn) | ('cls',Cls) | ('imp', dotted) | ('expr', node)


class World:
    def __init__(self, root, pkg='nlcodec'):
        self.root = root
        self.mods, self.fns, self.classes = {}, {}, {}
        base = os.path.join(root, pkg)
        for dp, dn, fs in os.walk(base):
            dn.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                name = rel[:-9] if is_pkg else rel
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                tree = ast.parse(src, p)
                self.mods[name] = Module(name, p, tree, is_pkg)
        for m in self.mods.values():
            self._index(m)
        self._mro = {}
        self._subs = {}
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                self._subs.setdefault(b.qual, []).append(c)
        self.by_method = {}
        for c in self.classes.values():
            for n in c.fns:
                self.by_method.setdefault(n, []).append(c)
        self._eff = {}
        self._last, self._tail, self._ends = {}, {}, set()
        self.peer = None
        self.other = None      # the tree it is compared with (for declared types)

    def follow(self, spec):
        """whether a known function has effects, and which classes a method name can mean, are read off the reference tree"""
        self.peer = spec
        for n, cs in spec.by_method.items():
            mine = [self.classes[c.qual] for c in cs if c.qual in self.classes and n in self.classes[c.qual].fns]
            if mine:
                self.by_method[n] = mine

    # ------------------------------------------------------------ indexing
    def _index(self, m):
        def imports(node, into):
            if isinstance(node, ast.Import):
                for a in node.names:
                    into[a.asname or a.name.split('.')[0]] = ('imp', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                base = self._rel(m, node)
                for a in node.names:
                    into[a.asname or a.name] = ('imp', f'{base}.{a.name}')

        def visit(body, into):
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imports(s, into)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(f'{m.name}.{s.name}', s, m)
                    self.fns[f.qual] = f
                    into[s.name] = ('fn', f)
                elif isinstance(s, ast.ClassDef):
                    into[s.name] = ('cls', self._cls(s, m, f'{m.name}.{s.name}'))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            into.setdefault(t.id, ('expr', s.value))
                            if into[t.id][0] == 'expr' and into[t.id][1] is not s.value:
                                into[t.id] = ('expr', s.value)
                elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                    into[s.target.id] = ('expr', s.value)
                elif isinstance(s, ast.Try):
                    visit(s.body, into)
                elif isinstance(s, ast.If):
                    if not (isinstance(s.test, ast.Compare) and getattr(s.test.left, 'id', '') == '__name__'):
                        visit(s.body, into)
                        visit(s.orelse, into)
        visit(m.tree.body, m.names)

    def _cls(self, node, m, qual, outer=None):
        c = Cls(qual, node, m, outer)
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(f'{qual}.{s.name}', s, m, c)
                c.fns[s.name] = f
                self.fns[f.qual] = f
                for x in ast.walk(s):
                    tg = []
                    if isinstance(x, ast.Assign):
                        tg = x.targets
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                        tg = [x.target]
                    for t in tg:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self':
                                c.attr_writes.add(y.attr)
            elif isinstance(s, ast.ClassDef):
                c.inner[s.name] = self._cls(s, m, f'{qual}.{s.name}', c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.anns[s.target.id] = s.annotation
                c.order.append(s.target.id)
                if s.value is not None:
                    c.consts[s.target.id] = s.value
        return c

    def _rel(self, m, node):
        if not node.level:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    # ------------------------------------------------------------ resolution
    def dotted(self, name, depth=0):
        """a dotted name -> ('fn',Fn)|('cls',Cls)|('mod',Module)|('expr',node,Module)|('ext',dotted)"""
        if depth > 12:
            return ('ext', name)
        if name in self.mods:
            return ('mod', self.mods[name])
        if '.' in name:
            base, last = name.rsplit('.', 1)
            b = self.dotted(base, depth + 1)
            if b[0] == 'mod':
                return self.in_module(b[1], last, depth + 1) or ('ext', name)
            if b[0] == 'cls':
                c = b[1]
                for k in self.mro(c):
                    if last in k.fns:
                        return ('fn', k.fns[last])
                    if last in k.inner:
                        return ('cls', k.inner[last])
                return ('ext', name)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + last)
        return ('ext', name)

    def in_module(self, m, name, depth=0):
        e = m.names.get(name)
        if e is None:
            if f'{m.name}.{name}' in self.mods:
                return ('mod', self.mods[f'{m.name}.{name}'])
            return None
        if e[0] == 'imp':
            return self.dotted(e[1], depth + 1)
        if e[0] == 'expr':
            return ('expr', e[1], m, name)
        return e

    def mro(self, c):
        r = self._mro.get(c.qual)
        if r is not None:
            return r
        out = [c]
        self._mro[c.qual] = out
        bases = []
        for b in c.node.bases:
            n = b
            if isinstance(n, ast.Subscript):
                n = n.value
            d = dotted_name(n)
            if d is None:
                continue
            k = self.resolve_name(c.module, d, c)
            if k and k[0] == 'cls':
                bases.append(k[1])
        for b in bases:
            for k in self.mro(b):
                if k not in out:
                    out.append(k)
        return out

    def resolve_name(self, m, d, cls=None):
        head, *rest = d.split('.')
        r = None
        if cls is not None and head in cls.inner:
            r = ('cls', cls.inner[head])
        if r is None:
            r = self.in_module(m, head)
        if r is None:
            return None
        for x in rest:
            if r[0] == 'mod':
                r = self.in_module(r[1], x)
            elif r[0] == 'cls' and x in r[1].inner:
                r = ('cls', r[1].inner[x])
            elif r[0] == 'ext':
                r = ('ext', r[1] + '.' + x)
            else:
                return None
            if r is None:
                return None
        return r

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.fns:
                return k.fns[name]
        return None

    def overridden(self, c, name):
        return any(name in s.fns for s in self._subs.get(c.qual, ()))

    def class_const(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
            if name in k.fns or name in k.inner:
                return None
        return None

    def writes_attr(self, c, name):
        return any(name in k.attr_writes for k in self.mro(c))

    # ------------------------------------------------------------ effects (by name, transitive)
    def lasting(self, qual, names, seen=None):
        """may it, or what it names, do something outside the process that stays"""
        if qual in self._last:
            return self._last[qual]
        if self.peer is not None and qual in self.peer.fns:
            return self.peer.lasting(qual, names)
        top = seen is None
        seen = set() if top else seen
        if qual in seen or qual not in self.fns:
            return False
        seen.add(qual)
        if not self._tail:
            for q in self.fns:
                k = q.split('.')
                self._tail.setdefault(k[-2] if k[-1] == '__init__' and len(k) > 1 else k[-1], []).append(q)
            self._ends = {x.split('.')[-1] for x in names} - {'remove'}
            self._tail.pop('close', None)
        r = False
        for n in own_nodes(self.fns[qual].node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self._ends \
                    and not (n.func.attr == 'replace' and len(n.args) != 1):
                r = True
            elif isinstance(n, (ast.Name, ast.Attribute)):
                k = n.id if isinstance(n, ast.Name) else n.attr
                for q in self._tail.get(k, ()):
                    r = r or self.lasting(q, names, seen)
            if r:
                break
        if r or top:
            self._last[qual] = r
        return r

    def effects(self, qual, seen=None):
        """(mutates its receiver, has an effect outside)"""
        if qual in self._eff:
            return self._eff[qual]
        if self.peer is not None and qual in self.peer.fns:
            return self.peer.effects(qual)
        if seen is None:
            seen = set()
        if qual in seen or qual not in self.fns:
            return (False, False)
        seen = seen | {qual}
        f = self.fns[qual]
        mut = eff = False

        def rooted(n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            return isinstance(n, ast.Name) and n.id in ('self', 'cls')
        for n in own_nodes(f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = n.targets
            for t in tg:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and rooted(x):
                        mut = True
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute):
                    if fn.attr in MUTATORS and rooted(fn.value) and isinstance(fn.value, (ast.Attribute, ast.Subscript)):
                        mut = True
                    if fn.attr in IO_EFFECTS and not (fn.attr == 'replace' and len(n.args) != 1):
                        eff = True
                    if fn.attr.startswith('heap') and n.args and rooted(n.args[0]):
                        mut = True
                    if fn.attr in EXT_EFFECT_NAMES:
                        eff = True
                    if isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls:
                        g = self.find_method(f.cls, fn.attr)
                        if g:
                            a, b = self.effects(g.qual, seen)
                            mut, eff = mut or a, eff or b
                    else:
                        for c in self.by_method.get(fn.attr, ()):
                            if fn.attr not in COMMON_METHODS and len(self.by_method[fn.attr]) == 1:
                                eff = eff or self.effects(c.fns[fn.attr].qual, seen)[1]
                        d = dotted_name(fn)
                        if d:
                            r = self.resolve_name(f.module, d)
                            if r is None and '.' in d:
                                k = self.resolve_name(f.module, d.rsplit('.', 1)[0])
                                if k and k[0] == 'cls':
                                    g = self.find_method(k[1], fn.attr)
                                    r = ('fn', g) if g else None
                            if r and r[0] == 'cls':
                                g = self.find_method(r[1], '__init__')
                                r = ('fn', g) if g else None
                            if r and r[0] == 'fn':
                                eff = eff or self.effects(r[1].qual, seen)[1]
                elif isinstance(fn, ast.Name):
                    if fn.id in ('print',):
                        eff = True
                    r = self.in_module(f.module, fn.id)
                    if r and r[0] == 'cls':
                        g = self.find_method(r[1], '__init__')
                        r = ('fn', g) if g else None
                    if r and r[0] == 'fn':
                        eff = eff or self.effects(r[1].qual, seen)[1]
        if len(seen) == 1:
            self._eff[qual] = (mut, eff)
        return mut, eff


def dotted_name(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and not parts:
        return n.value
    return None


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'add', 'discard', 'update', 'setdefault', 'sort',
            'reverse', 'push', 'appendleft', 'popleft', 'subtract', 'heappush', 'heappop', 'heapify'}
IO_EFFECTS = {'write', 'writelines', 'close', 'write_text', 'write_bytes', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'stop',
              'flush', 'save', 'dump', 'touch', 'setattr'}
EXT_EFFECT_NAMES = {'mapPartitionsWithIndex', 'set_defaults', 'rmtree', 'dump', 'remove_tree', 'makedirs', 'shuffle', 'copyfile', 'move'}
COMMON_METHODS = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | set(dir(tuple)) | set(dir(int)) | {
    'write', 'read', 'close', 'flush', 'readline', 'create', 'load', 'save', 'encode', 'decode', 'learn', 'name', 'to', 'merge',
    'most_common', 'exists', 'is_dir', 'is_file', 'open', 'stat', 'mkdir', 'glob', 'reader', 'writer', 'main', 'build', 'shape',
    'push', 'peek', 'estimate', 'delete_', 'append'}
