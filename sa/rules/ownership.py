"""Who owns what: which objects below a value are shared with a table at module level, with a default value or with what a caller handed over.

A value is a set of (origin, level, depth): what is `depth` steps below the value is the object `level` steps below the origin, and so on
downwards from there. Everything a value has that is not in the set is its own."""
import ast
import os
import sysconfig

from .base import AnchorMissing

MUTABLE = (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)
MUTATORS = {'update', 'append', 'extend', 'pop', 'popitem', 'clear', 'setdefault', 'insert', 'remove', 'add', 'discard', 'sort', 'reverse',
            '__setitem__', '__delitem__'}
SHALLOW = {'copy.copy', 'builtins.dict', 'builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted', 'collections.OrderedDict',
           'builtins.reversed', 'builtins.iter', 'builtins.filter'}
NONE = frozenset()
CAP = 6


class Flow:
    def __init__(self, repo):
        self.repo = repo
        self.tables = {}
        self.summaries = {}
        self.mutations = []  # (func, node, origin, what)
        self.returned = {}  # func qual -> value
        self.stored = []  # (func, node, attribute, value)
        self.attrs = {}  # (class qual, attribute) -> value
        self.set_to = {}  # (func qual, line, column) -> what an attribute is set to
        self.busy = set()

    # -- origins
    def table(self, m, name, depth=0):
        """The table behind a module-level name: its canonical name, None when it is not one"""
        r = self.repo.resolve(m, name)
        if not r or r[0] != 'assign' or depth > 5:
            return None
        expr, mod, nm = r[1], r[2], r[3]
        q = f'{mod.name}.{nm}'
        if q in self.tables:
            return q if self.tables[q] is not None else None
        self.tables[q] = None
        n = None
        if isinstance(expr, MUTABLE):
            n = height(expr)
        elif isinstance(expr, ast.Name):
            t = self.table(mod, expr.id, depth + 1)
            del self.tables[q]
            return t
        elif isinstance(expr, ast.Call):
            f = self.repo.resolve_expr(mod, expr.func)
            if f and (f[0] == 'func' or f[0] == 'ext' and f[1] in SHALLOW | {'copy.deepcopy'}) or isinstance(
                    expr.func, ast.Attribute) and expr.func.attr == 'copy':
                n = CAP
                if f and f[0] == 'func':
                    hs = [self.tables[t] for x in ast.walk(f[1].node) if isinstance(x, ast.Name) for t in [self.table(f[1].module, x.id)] if t]
                    n = max(hs) if hs else 0
        self.tables[q] = n
        return q if n is not None else None

    def alive(self, v):
        return frozenset((o, a, d) for o, a, d in v if a <= (self.tables.get(o[1], CAP) if o[0] == 'table' else CAP) and d <= CAP)

    def sub(self, v):
        return self.alive({(o, a, d - 1) if d else (o, a + 1, 0) for o, a, d in v})

    def spread(self, v):
        """A new container with the same elements"""
        return self.alive({(o, a, d) if d else (o, a + 1, 1) for o, a, d in v})

    def up(self, v, n=1):
        return self.alive({(o, a, d + n) for o, a, d in v})

    # -- functions
    def summary(self, f):
        """(what it returns, which (parameter, level) it changes)"""
        if f.qual in self.summaries:
            return self.summaries[f.qual]
        if f.qual in self.busy:
            return NONE, set()
        self.busy.add(f.qual)
        run = Run(self, f)
        run.go()
        self.busy.discard(f.qual)
        self.summaries[f.qual] = (run.result, run.changes)
        self.returned[f.qual] = run.result
        return self.summaries[f.qual]

    def everything(self):
        fs = [f for m in self.repo.modules.values() for f in list(m.funcs.values()) + [
            x for c in m.classes.values() for x in list(c.methods.values()) + list(c.setters.values())]]
        for _ in range(2):  # what is kept in attributes is known the second time
            self.summaries, self.mutations, self.stored = {}, [], []
            for f in fs:
                self.summary(f)
        return fs


def height(expr):
    """How many levels of objects that can be changed there are below the one at the top"""
    if isinstance(expr, ast.Dict):
        return max([0] + [height(v) + 1 for v in expr.values if isinstance(v, MUTABLE + (ast.Call,))])
    if isinstance(expr, (ast.List, ast.Set)):
        return max([0] + [height(v) + 1 for v in expr.elts if isinstance(v, MUTABLE + (ast.Call,))])
    if isinstance(expr, (ast.DictComp, ast.ListComp)):
        return CAP
    return 0


class Run:
    def __init__(self, flow, f):
        self.flow, self.f, self.m = flow, f, f.module
        self.result, self.changes = NONE, set()
        self.env = {}
        a = f.node.args
        pos = a.posonlyargs + a.args
        self.params = [x.arg for x in pos + a.kwonlyargs]
        for p in self.params:
            self.env[p] = frozenset({(('param', p), 0, 0)})
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, MUTABLE):
                self.env[p.arg] |= {(('default', f'{f.qual}({p.arg})'), 0, 0)}
        for x in (a.vararg, a.kwarg):
            if x:
                self.env[x.arg] = frozenset({(('param', x.arg), 1, 1)})
        self.own = f.cls and pos and f.kind not in ('staticmethod',) and pos[0].arg
        self.local = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(self.env)
        if self.own:
            self.env[self.own] = NONE

    def go(self):
        self.block(self.f.node.body)

    def block(self, body):
        for st in body:
            self.stmt(st)

    def joined(self, *bodies):
        env0 = self.env
        outs = []
        for b in bodies:
            self.env = dict(env0)
            b() if callable(b) else self.block(b)
            outs.append(self.env)
        self.env = {k: frozenset().union(*[o.get(k, NONE) for o in outs]) for k in {k for o in outs for k in o}}

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(st, ast.Assign):
            v = self.val(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.val(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.val(st.value)
            old = self.val(st.target)
            if isinstance(st.op, (ast.BitOr, ast.Add)) and (isinstance(st.op, ast.BitOr) or isinstance(st.value, MUTABLE) or v):
                self.changed(old, st)
            self.put(st.target, self.flow.spread(v))
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.result |= self.val(st.value)
        elif isinstance(st, ast.Expr):
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)) and st.value.value is not None:
                self.result |= self.flow.up(self.val(st.value.value))
            else:
                self.val(st.value)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.changed(self.val(t.value), st)
        elif isinstance(st, ast.If):
            self.val(st.test)
            self.joined(lambda: self.guarded(st.test, True, st.body), lambda: self.guarded(st.test, False, st.orelse))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.val(st.iter)
            for _ in range(2):
                def once():
                    self.bind(st.target, st.iter, it)
                    self.block(st.body)
                self.joined([], once)
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            self.val(st.test)
            for _ in range(2):
                self.joined([], st.body)
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.val(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, i.context_expr)
            self.block(st.body)
        elif isinstance(st, ast.Try):
            self.joined([], st.body)
            self.joined([], *[h.body for h in st.handlers], st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Match):
            self.val(st.subject)
            self.joined([], *[c.body for c in st.cases])
        else:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.val(x)

    def guarded(self, test, yes, body):
        """What is known not to be a container cannot be shared"""
        n = scalar_when(test, yes)
        if n and n in self.env:
            self.env[n] = NONE
        self.block(body) if isinstance(body, list) else body()

    def bind(self, target, it_expr, it):
        """The variables of a loop"""
        meth = it_expr.func.attr if isinstance(it_expr, ast.Call) and isinstance(it_expr.func, ast.Attribute) else ''
        if isinstance(it_expr, ast.Call) and isinstance(it_expr.func, ast.Name) and it_expr.func.id in ('list', 'sorted', 'tuple', 'enumerate') \
                and it_expr.args and isinstance(it_expr.args[0], ast.Call) and isinstance(it_expr.args[0].func, ast.Attribute):
            meth = it_expr.args[0].func.attr
        if meth == 'keys':
            self.assign(target, NONE)
        elif meth == 'items' and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
            self.assign(target.elts[0], NONE)
            self.assign(target.elts[1], self.flow.sub(it))
        elif isinstance(it_expr, (ast.List, ast.Tuple)) and isinstance(target, ast.Tuple) and all(
                isinstance(e, ast.Tuple) and len(e.elts) == len(target.elts) for e in it_expr.elts):
            for i, t in enumerate(target.elts):
                self.assign(t, frozenset().union(*[self.val(e.elts[i]) for e in it_expr.elts]))
        elif any(o[0] == 'table' for o, a, d in it) and not meth and not isinstance(it_expr, ast.Call):
            self.assign(target, self.flow.sub(frozenset(x for x in it if x[0][0] != 'table')))
        else:
            self.assign(target, self.flow.sub(it))

    def assign(self, t, v, expr=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(expr, (ast.Tuple, ast.List)) and len(expr.elts) == len(t.elts):
                for x, e in zip(t.elts, expr.elts):
                    self.assign(x, self.val(e), e)
            else:
                for x in t.elts:
                    self.assign(x, self.flow.sub(v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Subscript):
            self.changed(self.val(t.value), t)
            self.put(t.value, self.flow.up(v))
        elif isinstance(t, ast.Attribute):
            self.flow.set_to[(self.f.qual, t.lineno, t.col_offset)] = v
            self.put(t, v, replace=True)

    def put(self, t, v, replace=False):
        """Add what is shared to the variable at the root of an expression."""
        n = 0
        while isinstance(t, (ast.Subscript, ast.Call)):
            if isinstance(t, ast.Call):
                if not isinstance(t.func, ast.Attribute) or t.func.attr not in ('get', 'setdefault', 'pop'):
                    return
                t = t.func.value
            else:
                t = t.value
            n += 1
        v = self.flow.up(v, n)
        if isinstance(t, ast.Name) and t.id in self.local:
            self.env[t.id] = self.env.get(t.id, NONE) | v
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            key = f'{t.value.id}.{t.attr}'
            self.env[key] = v if replace and not n else self.env.get(key, NONE) | v
            if t.value.id == self.own:
                self.flow.stored.append((self.f, t, t.attr, v))
                keep = frozenset(x for x in v if x[0][0] != 'param')
                k = (self.f.cls.qual, t.attr)
                self.flow.attrs[k] = self.flow.attrs.get(k, NONE) | keep

    def changed(self, v, node):
        for o, a, d in v:
            if d:
                continue
            if o[0] == 'param':
                self.changes.add((o[1], a))
            self.flow.mutations.append((self.f, node, o, a))

    # -- expressions
    def val(self, e):
        fl = self.flow
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.Lambda, ast.UnaryOp)):
            if isinstance(e, (ast.Compare, ast.UnaryOp)):
                for x in ast.iter_child_nodes(e):
                    if isinstance(x, ast.expr):
                        self.val(x)
            return NONE
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in self.local:
                return NONE
            t = fl.table(self.m, e.id)
            return frozenset({(('table', t), 0, 0)}) if t else NONE
        if isinstance(e, ast.Attribute):
            return self.attribute(e)
        if isinstance(e, ast.Subscript):
            self.val(e.slice)
            v = self.val(e.value)
            return fl.spread(v) if isinstance(e.slice, ast.Slice) else fl.sub(v)
        if isinstance(e, ast.Dict):
            out = NONE
            for k, v in zip(e.keys, e.values):
                out |= fl.spread(self.val(v)) if k is None else fl.up(self.val(v))
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = NONE
            for v in e.elts:
                out |= fl.spread(self.val(v.value)) if isinstance(v, ast.Starred) else fl.up(self.val(v))
            return out
        if isinstance(e, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            env0 = dict(self.env)
            local0 = set(self.local)
            for g in e.generators:
                self.bind(g.target, g.iter, self.val(g.iter))
                for c in g.ifs:
                    self.val(c)
                    n = scalar_when(c, True)
                    if n:
                        self.env[n] = NONE
            out = fl.up(self.val(e.value if isinstance(e, ast.DictComp) else e.elt))
            self.env, self.local = env0, local0
            return out
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.val(v) for v in e.values])
        if isinstance(e, ast.IfExp):
            self.val(e.test)
            out = NONE
            for yes, x in ((True, e.body), (False, e.orelse)):
                n = scalar_when(e.test, yes)
                old = self.env.get(n, NONE) if n else NONE
                if n:
                    self.env[n] = NONE
                out |= self.val(x)
                if n:
                    self.env[n] = old
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.BinOp):
            return fl.spread(self.val(e.left)) | fl.spread(self.val(e.right)) if isinstance(e.op, (ast.BitOr, ast.Add)) else NONE
        if isinstance(e, ast.Await):
            return self.val(e.value)
        if isinstance(e, ast.Starred):
            return self.val(e.value)
        if isinstance(e, ast.Call):
            return self.call(e)
        return NONE

    def attribute(self, e):
        fl = self.flow
        if isinstance(e.value, ast.Name):
            key = f'{e.value.id}.{e.attr}'
            if key in self.env:
                return self.env[key]
            if e.value.id == self.own and self.f.cls:
                return self.kept(self.f.cls, e.attr)
        r = fl.repo.resolve_expr(self.m, e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
        if r and r[0] == 'mod':
            t = fl.table(fl.repo.modules[r[1]], e.attr)
            return frozenset({(('table', t), 0, 0)}) if t else NONE
        if r and r[0] == 'class':
            return self.kept(r[1], e.attr)
        self.val(e.value)
        return NONE

    def kept(self, cls, attr):
        fl = self.flow
        out = NONE
        set_ = False
        for c in cls.mro():
            out |= fl.attrs.get((c.qual, attr), NONE)
            set_ = set_ or any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) for f in list(
                c.methods.values()) for n in ast.walk(f.node))
        if not set_:
            for c in cls.mro():
                if attr in c.attrs:
                    if isinstance(c.attrs[attr], MUTABLE):
                        q = f'{c.qual}.{attr}'
                        fl.tables[q] = height(c.attrs[attr])
                        out |= {(('table', q), 0, 0)}
                    break
        return out

    def call(self, e):
        fl = self.flow
        args = [(self.val(a), isinstance(a, ast.Starred)) for a in e.args]
        kws = {}
        star = NONE
        for k in e.keywords:
            v = self.val(k.value)
            if k.arg is None:
                star |= fl.spread(v)
            else:
                kws[k.arg] = v
        f = None
        r = fl.repo.resolve_expr(self.m, e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if isinstance(e.func, ast.Name) and e.func.id in self.local:
            r = None
        skip = 0
        if r and r[0] == 'func':
            f = r[1]
            skip = 1 if f.cls and f.kind == 'classmethod' else 0
        elif r and r[0] == 'class':
            f, skip = r[1].find('__init__'), 1
            if f is None:
                return NONE
        elif r and r[0] == 'ext':
            if r[1] in SHALLOW:
                return frozenset().union(star, *[fl.spread(v) for v, _ in args[:1]], *[fl.up(v) for v in kws.values()]) if args or kws or star \
                    else NONE
            if r[1] == 'builtins.getattr' or r[1] == 'typing.cast':
                return NONE
        if f is None and isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id == self.own and self.f.cls:
                f, skip = self.f.cls.find(e.func.attr), 1
            elif isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
                f, skip = (self.f.cls.find(e.func.attr, self.f.cls) if self.f.cls else None), 1
        if f is not None:
            return self.called(f, e, args, kws, star, skip)
        if isinstance(e.func, ast.Attribute):
            name = e.func.attr
            b = self.val(e.func.value)
            if name in MUTATORS:
                self.changed(b, e)
                add = NONE
                if name in ('update', 'extend'):
                    add = frozenset().union(star, *[fl.spread(v) for v, _ in args], *[fl.up(v) for v in kws.values()])
                elif name in ('append', 'add', 'insert', 'setdefault', '__setitem__') and args:
                    add = fl.up(args[-1][0])
                if add:
                    self.put(e.func.value, add)
                if name in ('pop', 'setdefault', 'popitem'):
                    return fl.sub(b) | (args[1][0] if len(args) > 1 else NONE)
                return NONE
            if name in ('get', '__getitem__'):
                return fl.sub(b) | (args[1][0] if len(args) > 1 else NONE)
            if name in ('values', 'items', 'copy'):
                return fl.spread(b)
        return NONE

    def called(self, f, e, args, kws, star, skip):
        fl = self.flow
        ret, changes = fl.summary(f)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        given = {}
        rest = NONE
        for i, (v, st) in enumerate(args):
            if st:
                for n in names[i:]:
                    given[n] = given.get(n, NONE) | fl.sub(v)
                rest |= fl.spread(v)
            elif i < len(names):
                given[names[i]] = v
            else:
                rest |= fl.up(v)
        if a.vararg:
            given[a.vararg.arg] = rest
        extra = NONE
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                given[k] = v
            else:
                extra |= fl.up(v)
        if star:
            extra |= star
            for n in names:
                given[n] = given.get(n, NONE) | fl.sub(star)
        if a.kwarg:
            given[a.kwarg.arg] = extra
        out = NONE
        for o, lv, d in ret:
            if o[0] != 'param':
                out |= {(o, lv, d)}
            else:
                out |= fl.up(self.down(given.get(o[1], NONE), lv), d)
        for p, lv in changes:
            self.changed(self.down(given.get(p, NONE), lv), e)
        return fl.alive(out)

    def down(self, v, n):
        for _ in range(n):
            v = self.flow.sub(v)
        return v


def scalar_when(test, yes):
    """The variable that is known not to be a container when the test comes out that way"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return scalar_when(test.operand, not yes)
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 and isinstance(
            test.args[0], ast.Name):
        t = test.args[1]
        names = {x.id for x in (t.elts if isinstance(t, ast.Tuple) else [t]) if isinstance(x, ast.Name)}
        if not yes and names & {'dict', 'Mapping', 'MutableMapping'}:
            return test.args[0].id
        if yes and names and names <= {'str', 'int', 'bool', 'float', 'bytes', 'type'}:
            return test.args[0].id
    return None


# -- C31
DEFAULTS = 'fedservice.defaults'
BUILDER = 'fedservice.build_entity.FederationEntityBuilder'
HANDING_OUT = ('federation_services', 'federation_endpoints', 'federation_functions')


def analysed(ctx):
    fl = getattr(ctx.repo, '_flow', None)
    if fl is None:
        fl = ctx.repo._flow = Flow(ctx.repo)
        fl.functions = fl.everything()
        for m in ctx.repo.modules.values():
            for n, x in m.names.items():
                if x[0] == 'assign':
                    fl.table(m, n)
    return fl


def tables_unchanged(ctx):
    fl = analysed(ctx)
    hit = {}
    for f, node, o, a in fl.mutations:
        if o[0] in ('table', 'default'):
            hit.setdefault(o, []).append((f, node, a))
    names = [('table', q) for q, n in sorted(fl.tables.items()) if n is not None]
    for o in names + [o for o in sorted(hit) if o not in names]:
        where = hit.get(o, ())
        ctx.ob('tables-unchanged', o[1], not where, 'changed in ' + ', '.join(sorted({f.qual for f, _, _ in where})) if where else '',
               f'{where[0][0].module.path}:{where[0][1].lineno}' if where else None,
               [f'{f.qual} line {n.lineno}: {ast.unparse(n)[:120]} changes what is {a} level(s) into it' for f, n, a in where][:6])


def handed_out(ctx):
    fl = analysed(ctx)
    m = ctx.repo.module(DEFAULTS)
    fs = [f for f in m.funcs.values()]
    if not any(n in m.funcs for n in HANDING_OUT):
        raise AnchorMissing(', '.join(HANDING_OUT))
    c = ctx.repo.cls(BUILDER)
    for f in fs:
        got = [x for x in fl.returned.get(f.qual, NONE) if x[0][0] == 'table']
        ctx.ob('own-copy', f.qual, not got, 'what it returns is (part of) ' + ', '.join(sorted({o[1] for o, _, _ in got})) if got else '', f.where,
               [f'what is {d} level(s) into the result is what is {a} level(s) into {o[1]}' for o, a, d in sorted(got)])
    for f in c.methods.values():
        kept = [(n, x) for g, n, at, v in fl.stored if g is f for x in v if x[0][0] == 'table']
        ctx.ob('own-copy', f.qual, not kept, 'the configuration contains (part of) ' + ', '.join(sorted({x[0][1] for _, x in kept})) if kept else
               '', f.where, [f'line {n.lineno}: what is {x[2]} level(s) into the value is what is {x[1]} level(s) into {x[0][1]}' for n, x in kept])
        ch = fl.summaries[f.qual][1]
        ctx.ob('definitions-unchanged', f.qual, not ch, 'changes what it was given: ' + ', '.join(sorted({p for p, _ in ch})) if ch else '', f.where,
               [f'what is {a} level(s) into {p} is changed at line {n.lineno}' for p, a in sorted(ch) for g, n, o, b in fl.mutations if g is f and
                o == ('param', p) and b == a][:6])


def installed():
    import glob
    import sys
    out = [sysconfig.get_paths()['purelib']] + [p for p in sys.path if p.endswith('-packages')]
    return out + sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))


def exists(repo, dotted, _depth=0):
    """True, False or None (cannot be known) for a dotted class name"""
    mod, _, name = dotted.rpartition('.')
    if mod.split('.')[0] == 'fedservice':
        if mod not in repo.modules:
            return False
        r = repo.resolve_dotted(mod, name)
        if r and r[0] == 'ext' and r[1] == dotted:
            return False if not any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(
                repo.modules[mod].tree)) else None
        return True if r and r[0] in ('class', 'func', 'assign', 'ext') else None
    root = next((p for p in installed() if os.path.isdir(os.path.join(p, mod.split('.')[0]))), None)
    if root is None:
        return None
    base = os.path.join(root, *mod.split('.'))
    path = base + '.py' if os.path.isfile(base + '.py') else os.path.join(base, '__init__.py')
    if not os.path.isfile(path):
        return False
    with open(path, encoding='utf-8') as fp:
        tree = ast.parse(fp.read())
    for n in ast.walk(tree):
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name:
            return True
        if isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in n.names):
            return True
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            return None
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return True
    return False


def classes_exist(ctx):
    seen = {}
    for m in ctx.repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == 'class':
                        if isinstance(v, ast.Constant) and isinstance(v.value, str):
                            seen.setdefault(v.value, f'{m.path}:{v.lineno}')
                        elif isinstance(v, (ast.Name, ast.Attribute)):
                            continue
    if not seen:
        ctx.ob('class-exists', DEFAULTS, None, 'no class is named')
    for q, where in sorted(seen.items()):
        ctx.ob('class-exists', q, exists(ctx.repo, q), f'there is no {q}', where)


def c31(ctx):
    ctx.part(tables_unchanged)
    ctx.part(handed_out)
    ctx.part(classes_exist)
