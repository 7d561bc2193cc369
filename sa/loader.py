"""Parses the repository and resolves names: modules, imports, classes, MROs, attribute types."""
import ast
import builtins
import hashlib
import os


class AnchorMissing(Exception):
    """Something public that a rule talks about does not exist any more."""


class Func:
    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = f'{cls.qual}.{name}' if cls else f'{module.name}.{name}'
        self.kind = 'func'
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
            if n in ('property', 'staticmethod', 'classmethod', 'setter', 'cached_property'):
                self.kind = n

    @property
    def where(self):
        return f'{self.module.path}:{self.node.lineno}'

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = f'{module.name}.{name}'
        self.methods, self.attrs, self.setters = {}, {}, {}
        self.bases = []
        self.ext_bases = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, st, module, self)
                if f.kind == 'setter':
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = list(c.bases) + todo
        return out

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def all_ext_bases(self):
        r = []
        for c in self.mro():
            r.extend(c.ext_bases)
        return r

    def __repr__(self):
        return f'<Class {self.qual}>'


class Module:
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.is_pkg = path.endswith('__init__.py')
        self.names = {}  # name -> ('func',Func)|('class',Class)|('import',mod,name|None)|('assign',[exprs])
        self.funcs, self.classes = {}, {}


class Repo:
    def __init__(self, root='/repo'):
        self.root = root
        self.src = os.path.join(root, 'src')
        self.modules = {}
        h = hashlib.sha256()
        base = os.path.join(self.src, 'fedservice')
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fp:
                    src = fp.read()
                h.update(p.encode() + b'\0' + src.encode())
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                self.modules[rel] = Module(rel, os.path.relpath(p, root), src)
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index(m, m.tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if r and r[0] == 'class':
                        c.bases.append(r[1])
                    elif r and r[0] == 'ext':
                        c.ext_bases.append(r[1])
                    else:
                        c.ext_bases.append(ast.unparse(b))
        self._attr_types = {}

    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st.name, st, m)
                m.funcs[st.name] = f
                m.names[st.name] = ('func', f)
            elif isinstance(st, ast.ClassDef):
                c = Class(st.name, st, m)
                m.classes[st.name] = c
                m.names[st.name] = ('class', c)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ('import', a.name, None)
                    else:
                        m.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    mod = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    m.names[a.asname or a.name] = ('import', mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('assign', st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                m.names[st.target.id] = ('assign', st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._index(m, st.body)
                for x in getattr(st, 'handlers', []):
                    self._index(m, x.body)
                self._index(m, st.orelse)

    def resolve(self, m, name, _seen=None):
        """-> ('func',Func) | ('class',Class) | ('mod',name) | ('ext',dotted) | ('assign',expr,Module) | None"""
        e = m.names.get(name)
        if e is None:
            return ('ext', 'builtins.' + name) if hasattr(builtins, name) else None
        if e[0] in ('func', 'class'):
            return e
        if e[0] == 'assign':
            return ('assign', e[1], m, name)
        return self.resolve_dotted(e[1], e[2], _seen)

    def resolve_dotted(self, mod, name, _seen=None):
        _seen = _seen or set()
        if (mod, name) in _seen:
            return ('ext', f'{mod}.{name}')
        _seen.add((mod, name))
        if name is None:
            return ('mod', mod) if mod in self.modules else ('ext', mod)
        if mod in self.modules:
            r = None
            if name in self.modules[mod].names:
                r = self.resolve(self.modules[mod], name, _seen)
            if r is None and f'{mod}.{name}' in self.modules:
                return ('mod', f'{mod}.{name}')
            if r is not None:
                return r
            return ('ext', f'{mod}.{name}')
        return ('ext', f'{mod}.{name}')

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b and b[0] == 'mod':
                return self.resolve_dotted(b[1], e.attr)
            if b and b[0] == 'ext':
                return ('ext', f'{b[1]}.{e.attr}')
            if b and b[0] == 'class':
                f = b[1].find(e.attr)
                if f:
                    return ('func', f)
        return None

    # -- lookups used by rules
    def func(self, qual):
        """'fedservice.mod.func' or 'fedservice.mod.Class.method'"""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                rest = parts[i:]
                if len(rest) == 1:
                    r = self.resolve(self.modules[mn], rest[0])
                    if r and r[0] == 'func':
                        return r[1]
                elif len(rest) == 2:
                    r = self.resolve(self.modules[mn], rest[0])
                    if r and r[0] == 'class':
                        f = r[1].find(rest[1])
                        if f:
                            return f
                break
        raise AnchorMissing(qual)

    def cls(self, qual):
        mn, _, n = qual.rpartition('.')
        if mn in self.modules:
            r = self.resolve(self.modules[mn], n)
            if r and r[0] == 'class':
                return r[1]
        raise AnchorMissing(qual)

    def module(self, name):
        if name not in self.modules:
            raise AnchorMissing(name)
        return self.modules[name]

    def has(self, qual):
        try:
            self.func(qual)
            return True
        except AnchorMissing:
            return False

    def attr_type(self, cls, attr):
        """Class assigned to self.<attr> by a constructor call somewhere in the class, if unique."""
        key = (cls.qual, attr)
        if key not in self._attr_types:
            found = set()
            for c in cls.mro():
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                            for t in n.targets:
                                if (isinstance(t, ast.Attribute) and t.attr == attr and
                                        isinstance(t.value, ast.Name) and t.value.id == 'self'):
                                    r = self.resolve_expr(c.module, n.value.func)
                                    if r and r[0] == 'class':
                                        found.add(r[1])
                                    else:
                                        found.add(None)
            self._attr_types[key] = found.pop() if len(found) == 1 else None
        return self._attr_types[key]

    def exc_ancestors(self, name):
        """Names of the exception classes a handler can use to catch `name` (a dotted or bare name)."""
        out = {name.split('.')[-1]}
        b = getattr(builtins, name.split('.')[-1], None)
        if isinstance(b, type):
            out |= {c.__name__ for c in b.__mro__}
            return out
        for m in self.modules.values():
            c = m.classes.get(name.split('.')[-1])
            if c is not None:
                for k in c.mro():
                    out.add(k.name)
                    for e in k.ext_bases:
                        out |= self.exc_ancestors(e) if e.split('.')[-1] != name.split('.')[-1] else set()
        out |= {'Exception', 'BaseException'}
        if name.split('.')[-1] == 'IssuerNotFound':
            out |= {'KeyError', 'LookupError'}
        return out
