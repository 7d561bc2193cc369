"""What is dumped of a trust chain, a cache or a store of trust marks, and whether loading it gives that back (C37)."""
import ast

from .abstract import *
from .collector import fpath, uniq
from .marks import DBS, arg, store_of

CHAIN = 'fedservice.entity_statement.statement.TrustChain'
CACHE = 'fedservice.entity_statement.cache.ESCache'
CONTEXT = 'fedservice.entity.context.FederationContext'
# what the answers of a federation context depend on and what it can be given while it is used
CONTEXT_STATE = ('default_lifetime', 'authority_hints', 'tr_priority', 'trust_marks')
INFO = ('sym', 'info')


def table_of(ctx, cls, name):
    """The expressions in a table of a class: {key: expression}, None if it is not understood. Later statements in the class count."""
    def entries(mod, e, env):
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    s = entries(mod, v, env)
                    if s is None:
                        return None
                    out.update(s)
                elif isinstance(k, ast.Constant):
                    out[k.value] = v
                else:
                    return None
            return out
        if isinstance(e, ast.Name):
            if e.id in env:
                return dict(env[e.id])
            r = ctx.repo.resolve(mod, e.id)
            return entries(r[2], r[1], {}) if r and r[0] == 'assign' else None
        if isinstance(e, ast.Attribute) and e.attr == name:
            r = ctx.repo.resolve_expr(mod, e.value)
            return table_of(ctx, r[1], name) if r and r[0] == 'class' else {}  # what ImpExp has itself: nothing
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy', 'deepcopy'):
                return entries(mod, e.args[0] if e.args else f.value, env)
            if isinstance(f, ast.Name) and f.id in ('dict', 'deepcopy', 'copy') and len(e.args) < 2:
                out = entries(mod, e.args[0], env) if e.args else {}
                for k in e.keywords:
                    if out is None:
                        return None
                    if k.arg is None:
                        s = entries(mod, k.value, env)
                        if s is None:
                            return None
                        out.update(s)
                    else:
                        out[k.arg] = k.value
                return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            a, b = entries(mod, e.left, env), entries(mod, e.right, env)
            return None if a is None or b is None else {**a, **b}
        return None

    for c in cls.mro():
        env = {}
        for st in c.node.body:
            t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else \
                st.target if isinstance(st, ast.AnnAssign) and st.value else None
            if isinstance(t, ast.Name):
                s = entries(c.module, st.value, env)
                if s is not None:
                    env[t.id] = s
                elif t.id == name:
                    return None
                else:
                    env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                if not isinstance(t.slice, ast.Constant) or name not in env:
                    return None
                env[name][t.slice.value] = st.value
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                    isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) and \
                    st.value.func.value.id == name:
                if st.value.func.attr != 'update' or name not in env:
                    return None
                for a in st.value.args:
                    s = entries(c.module, a, env)
                    if s is None:
                        return None
                    env[name].update(s)
                for k in st.value.keywords:
                    if k.arg is None:
                        return None
                    env[name][k.arg] = k.value
            elif isinstance(st, ast.Delete) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and \
                    isinstance(st.targets[0].value, ast.Name) and isinstance(st.targets[0].slice, ast.Constant):
                if env.get(st.targets[0].value.id) is not None:
                    env[st.targets[0].value.id].pop(st.targets[0].slice.value, None)
            elif isinstance(st, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.Delete, ast.AugAssign)) and \
                    any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(st)):
                return None
        if name in env:
            return env[name]
    return {}


def own(n):
    return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'


def state(ctx, cls):
    """The attributes an instance is given by its own methods and that something asks for: {attribute: [(where, value, function)]}"""
    given, read = {}, set()
    for c in cls.mro():
        for f in c.methods.values():
            for n in ast.walk(f.node):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
                for t in ts:
                    for x in ([t] if not isinstance(t, ast.Tuple) else t.elts):
                        if own(x):
                            given.setdefault(x.attr, []).append((f'{c.module.path}:{n.lineno}', getattr(n, 'value', None), f))
    for m in ctx.repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Del):
                read.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                read.add(n.args[1].value)
    return {a: v for a, v in given.items() if a in read and a != 'upstream_get'}


ANN = {'list': 'list', 'List': 'list', 'dict': 'dict', 'Dict': 'dict', 'str': 'str', 'int': 'int', 'bool': 'int'}


def kind(v, f):
    """The kind of value an expression gives: list, dict, str, int or None for what can not be told."""
    if isinstance(v, ast.BoolOp):
        ks = {kind(x, f) for x in v.values} - {None}
        return ks.pop() if len(ks) == 1 else None
    if isinstance(v, ast.IfExp):
        ks = {kind(x, f) for x in (v.body, v.orelse)} - {None}
        return ks.pop() if len(ks) == 1 else None
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(v, ast.Constant) and v.value is not None:
        return 'int' if isinstance(v.value, (int, float)) else type(v.value).__name__
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'str', 'int'):
        return v.func.id
    if isinstance(v, ast.Name):
        a = f.node.args
        for p in a.args + a.kwonlyargs:
            if p.arg == v.id and p.annotation is not None:
                ns = {ANN[n.id] for n in ast.walk(p.annotation) if isinstance(n, ast.Name) and n.id in ANN}
                other = any(isinstance(n, ast.Name) and n.id not in ANN and n.id != 'Optional' for n in ast.walk(p.annotation))
                return ns.pop() if len(ns) == 1 and not other else None
        ds = dict(zip([p.arg for p in a.args[len(a.args) - len(a.defaults):]], a.defaults))
        ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return kind(ds[v.id], f) if v.id in ds and not isinstance(ds[v.id], ast.Name) else None
    return None


def tag_kind(e):
    """What the import and export of idpyoidc takes an entry in the table to stand for; None: left as it is."""
    if isinstance(e, (ast.List, ast.Dict)):
        return 'list' if isinstance(e, ast.List) else 'dict'
    if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value == '':
        return 'str'
    return None


def tables(ctx, done):
    for q in (CHAIN, CACHE, CONTEXT):
        cls = ctx.repo.cls(q)
        if not any(b.rpartition('.')[2] == 'ImpExp' for b in cls.all_ext_bases()):
            ctx.ob('state-dumped', q, None, 'it is not dumped and loaded the way it was')
            continue
        if any(cls.find(n) for n in ('dump', 'load', 'local_load_adjustments', 'dump_attr', 'load_attr')) or \
                cls.find_attr('special_load_dump')[0] is not None:
            ctx.ob('state-dumped', q, None, 'it has its own way of dumping and loading')
            continue
        table = table_of(ctx, cls, 'parameter')
        if table is None:
            ctx.ob('state-dumped', q, None, 'what is dumped is not in a table')
            continue
        has = state(ctx, cls)
        wanted = has if q != CONTEXT else {a: has.get(a, []) for a in CONTEXT_STATE}
        for a, given in sorted(wanted.items()):
            uniq(ctx, 'state-dumped', done, f'{q}.{a}', a in table, f'{a} is not among what is dumped: it is lost',
                 given[0][0] if given else None)
            if a not in table or q == CONTEXT:
                continue
            tk = tag_kind(table[a])
            for where, v, f in given:
                k = kind(v, f) if v is not None else None
                uniq(ctx, 'kind', done, f'{q}.{a}', not (tk and k) or tk == k,
                     f'{a} is a {k} but is dumped and loaded as a {tk}', where)


# ---------------------------------------------------------------------- the stores
def copy_of(t):
    """What something is a copy of."""
    while True:
        if t[0] == 'call' and t[1].rpartition('.')[2] in ('copy', 'deepcopy', 'dict') and t[2]:
            t = t[2][0][1]
        elif t[0] == 'dict' and t[1] is not None and not t[2]:
            t = t[1]
        else:
            return t


def everything(A, t, src):
    """Does t have all that src has? True / False / None"""
    t = copy_of(t)
    if t == src:
        return True
    if t[0] == 'dict' and t[1] is not None and t[1] == src and all(s[0] == 'upd' for s in t[2]):
        return None
    if t[0] == 'dict' and t[1] is None:
        if not t[2]:
            return False
        for s in t[2]:
            if s[0] == 'many' and s[2] == src:
                el = ('elem', s[1], src)
                for facts, ev, segs in A.alts[s[3]]:
                    sets = [g for g in segs if g[0] == 'set']
                    if not sets:
                        return None if any(opaque_about(f) for f in facts) else False
                    for g in sets:
                        v = copy_of(g[2])
                        if not (g[1][0] == 'elem' and g[1][1] == s[1]):
                            return False if g[1][0] == 'const' else None
                        if v[0] == 'dict' and v[1] is None and not v[2]:
                            return False
                        if not mentions(v, lambda x: x == ('item', src, el) or x[0] == 'elem' and x[1] == s[1]):
                            return False if v[0] == 'const' else None
                        if v[0] == 'item' and v != ('item', src, el):
                            return False
                        if v != ('item', src, el) and not (v[0] == 'elem' and v[1] == s[1]):
                            return everything(A, v, ('item', src, el))
                return True
        return None
    if t[0] in ('const', 'list') or t[0] == 'sym' and t != src:
        return False
    return None if mentions(t, src) else False


def opaque_about(f):
    return f[0][0] not in ('truthy', 'eq', 'in', 'lt', 'isnone')


def simple(ctx, done):
    db = DBS[1]
    me = ('attr', ('self', db), '_db')
    for name, json in (('dump', False), ('dumps', True)):
        R = ctx.run(f'{db}.{name}')
        for x, v in R.returns():
            t = v
            if json:
                if t[0] != 'call' or not t[1].endswith('dumps'):
                    uniq(ctx, 'all-dumped', done, R.qual, False if not mentions(t, store_of) else None,
                         'what is stored is not what is dumped', R.where(x))
                    continue
                t = t[2][0][1]
            uniq(ctx, 'all-dumped', done, R.qual, everything(R.A, t, me), 'what is stored is not all dumped', R.where(x), R.path(x))
    for name in ('load', 'loads'):
        R = ctx.run(f'{db}.{name}')
        for x, v in R.returns():
            ok, w = False, R.where(x)
            evs = [e for e in R.A.log if covers(e, x)]
            for e in evs:
                a = dict(e.args)
                t = None
                if e.kind == 'setattr' and e.name.rpartition('.')[2] == '_db':
                    t = a.get('value')
                elif e.kind == 'mut' and e.name == 'update' and a.get('target') == me:
                    t = arg(e.args, 0)
                elif e.kind == 'mut' and e.name == '[]=' and a.get('target') is not None and store_of(a['target']):
                    ok = loaded(R, e, a, me, name) if ok is False else ok
                    w = e.where
                    continue
                if t is None:
                    continue
                src = source(t, name)
                r = everything(R.A, t, src) if src is not None else None if mentions(t, INFO) and t != INFO else False
                ok = True if r is True else ok if ok is not False else r
                w = e.where
            t = R.A.freeze(x.st, x.st.over[me]) if me in x.st.over else None
            src = source(t, name) if t is not None else None
            if not ok and src is not None:
                ok = everything(R.A, t, src) or ok
            uniq(ctx, 'all-loaded', done, R.qual, ok, 'what was dumped is not all there after it has been loaded', w, R.path(x))


def covers(e, x):
    return all(x.st.facts.get(k) is v or e.loops for k, v in e.facts.items())


def source(t, name):
    """What is loaded: the argument itself, or what it is the JSON of."""
    if name == 'load':
        return INFO
    return next((s for s in subterms(t) if s[0] == 'call' and s[1].endswith('loads') and s[2] and s[2][0][1] == INFO), None)


def loaded(R, e, a, me, name):
    if len(e.loops) != 1:
        return None
    lid, dom = e.loops[0]
    src = source(dom, name)
    el = ('elem', lid, src)
    if src is None or dom != src or a.get('key') != el or any(mentions(f, el) for f in e.facts):
        return None
    return True if copy_of(a['value']) == ('item', src, el) else None


def file_of(t):
    """The name of the file that is open."""
    for s in subterms(t):
        if s[0] == 'call' and s[1].endswith('open') and s[2]:
            return s[2][0][1]
    return None


def line_form(t, el):
    """How a line is kept: 'bare' (without its end), 'record' (what it stands for) or 'line' (as it is)."""
    if t == el:
        return 'line'
    if t[0] == 'call' and t[1].rpartition('.')[2] in ('rstrip', 'strip') and dict(t[2]).get('self') == el:
        return 'bare'
    if t[0] == 'call' and t[1].endswith('loads') and mentions(t, el):
        return 'record'
    return None


def file_db(ctx, done):
    db = DBS[0]
    conf = ('attr', ('self', db), 'config')
    forms = set()
    R = ctx.run(db + '.dump')
    A = R.A
    for x, v in R.returns():
        w, p = R.where(x), R.path(x)
        t = copy_of(v)
        segs = [s for s in t[2] if s[0] == 'many' and s[2] == conf] if t[0] == 'dict' else []
        if not segs:
            uniq(ctx, 'all-dumped', done, R.qual, None if mentions(t, store_of) or t[0] == 'dict' and t[2] else False,
                 'what is stored is not dumped', w, p)
            continue
        for s in segs:
            el = ('elem', s[1], conf)
            for facts, ev, sub in A.alts[s[3]]:
                sets = [g for g in sub if g[0] == 'set']
                if not sets:
                    uniq(ctx, 'all-dumped', done, R.qual, None if any(opaque_about(f) for f in facts) else False,
                         'not every kind of trust mark is dumped', w, fpath(facts))
                    continue
                for g in sets:
                    if g[1] != el:
                        uniq(ctx, 'all-dumped', done, R.qual, None, 'what it is dumped under is not understood', w)
                        continue
                    ok, why = lines(A, g[2], ('item', conf, el), forms)
                    uniq(ctx, 'all-dumped', done, R.qual, ok, why, w, fpath(facts))
    R = ctx.run(db + '.load')
    A = R.A
    written = False
    for e in A.log:
        if e.kind != 'call' or not e.name.endswith('.write'):
            continue
        written = True
        name = file_of(dict(e.args).get('self') or NONE)
        txt = arg(e.args, 0)
        if name is None or txt is None or len(e.loops) < 2:
            ok = None if txt is None or mentions(txt, INFO) else False
            uniq(ctx, 'all-loaded', done, R.qual, ok, 'what is written is not what was dumped', e.where)
            continue
        (l0, d0), (l1, d1) = e.loops[-2:]
        el0, el1 = ('elem', l0, d0), ('elem', l1, d1)
        if d0 not in (conf, INFO) or not mentions(d1, INFO):
            uniq(ctx, 'all-loaded', done, R.qual, None, 'what is gone through is not understood', e.where)
            continue
        if name != ('item', conf, el0):
            uniq(ctx, 'all-loaded', done, R.qual, None if mentions(name, el0) else False,
                 'what was dumped is loaded as another kind of trust mark', e.where)
        d1 = d1[2][0][1] if d1[0] == 'call' and d1[1].rpartition('.')[2] in ('list', 'tuple') and d1[2] else d1
        if d1 != ('item', INFO, el0):
            uniq(ctx, 'all-loaded', done, R.qual,
                 False if d1[0] == 'slice' or mentions(d1, ('item', INFO, el0)) and d1[0] != 'call' else None,
                 'not all that was dumped is loaded', e.where)
        for a, val in e.facts.items():
            if mentions(a, el1):
                fine = a[0] == 'truthy' and val
                uniq(ctx, 'all-loaded', done, R.qual, True if fine else None if opaque_about((a, val)) else False,
                     'some of what was dumped is not loaded', e.where, fpath(e.facts.items()))
        bare = ends = rec = None
        if mentions(txt, el1):
            rec = any(s[0] == 'call' and s[1].endswith('dumps') for s in subterms(txt))
            ends = txt[0] == 'fstr' and txt[-1] == C('\n')
            if txt != el1 and not ends and txt[0] not in ('fstr', 'call'):
                continue
            for f in forms:
                bad = f == 'bare' and (rec or not ends) or f == 'record' and (not rec or not ends) or f == 'line' and (rec or ends)
                other = [w for w in A.log if w.kind == 'call' and w.name.endswith(('.write', '.writelines')) and w is not e
                         and w.where != e.where]
                uniq(ctx, 'all-loaded', done, R.qual, True if not bad else None if other else False,
                     'what is loaded does not become the lines that were dumped', e.where)
        else:
            other = [w for w in A.log if w.kind == 'call' and w.name.endswith('.write') and mentions(dict(w.args).get('0', NONE), INFO)]
            uniq(ctx, 'all-loaded', done, R.qual, True if other else False, 'something else is written', e.where)
    for e in A.log:
        if e.kind == 'call' and e.name.endswith('open'):
            mode = arg(e.args, 1, 'mode')
            ok = None if mode is not None and mode[0] != 'const' else bool(mode and set(mode[2]) & set('aw+x'))
            uniq(ctx, 'all-loaded', done, R.qual, ok, 'the file is not written to', e.where)
    if not written:
        other = any(e.kind == 'call' and (e.name.endswith(('writelines', 'dump', 'print', 'write_text')) or e.name.endswith('FileDB.add'))
                    for e in A.log)
        ctx.ob('all-loaded', R.qual, None if other else False, 'nothing is written')
    for name, inner in (('dumps', 'dump'), ('loads', 'load')):
        f = ctx.repo.func(f'{db}.{name}')
        R = ctx.run(f.qual, boundary=(f'{db}.{inner}',))
        cs = [e for e in R.A.log if e.kind == 'call' and e.name.rpartition('.')[2] == inner and 'FileDB' in e.name]
        js = [e for e in R.A.log if e.kind == 'call' and e.name.rpartition('.')[2] == name and 'json' in e.name]
        for x, v in R.returns():
            if name == 'dumps':
                ok = v[0] == 'call' and v[1].endswith('dumps') and v[2] and mentions(v[2][0][1], lambda t: t[0] == 'call' and
                                                                                  t[1].endswith('FileDB.dump'))
                uniq(ctx, 'all-dumped', done, R.qual, True if ok else None if cs else False,
                     'something else is dumped', R.where(x))
            else:
                given = [val for e in cs for k, val in e.args if k != 'self' and mentions(val, lambda y: y[0] == 'sym')]
                ok = any(mentions(val, lambda t: t[0] == 'call' and t[1].endswith('loads')) for val in given)
                uniq(ctx, 'all-loaded', done, R.qual, True if ok else None if given and js else False,
                     'something else is loaded', R.where(x))


def lines(A, t, name, forms):
    """Is it every line of the file? (answer, why not)"""
    if t[0] != 'list':
        return (None, 'what is dumped is not understood') if mentions(t, name) else (False, 'something else is dumped')
    if len(t) < 2:
        return False, 'nothing is dumped'
    if len(t) > 2 or t[1][0] != 'many':
        return None, 'what is dumped is not understood'
    _, lid, dom, aid = t[1]
    d = dom
    while d[0] in ('ctx',) or d[0] == 'call' and (d[1].rpartition('.')[2] in ('readlines', 'list', 'reversed', 'tuple')):
        d = d[1] if d[0] == 'ctx' else d[2][0][1]
    if not (d[0] == 'call' and d[1].endswith('open')):
        if d[0] in ('slice', 'item') and mentions(d, name):
            return False, 'not every line is dumped'
        return None, 'what is gone through is not understood'
    if d[2][0][1] != name:
        return (None if mentions(d[2][0][1], name[2]) else False), 'what is dumped is from another file'
    el = ('elem', lid, dom)
    for facts, ev, segs in A.alts[aid]:
        its = [s for s in segs if s[0] == 'item']
        if not its:
            empty = any(a[0] == 'truthy' and not v and mentions(a, el) and not mentions(a, lambda s: s[0] == 'call' and s[1].endswith('loads'))
                        for a, v in facts)
            if not empty:
                return (None if any(opaque_about(f) for f in facts) else False), 'not every line is dumped'
        for i in its:
            f = line_form(i[1], el)
            if f is None:
                return (None if mentions(i[1], el) else False), 'something else than the line is dumped'
            forms.add(f)
    return True, ''


def c37(ctx):
    done = set()
    ctx.part(tables, done)
    ctx.part(simple, done)
    ctx.part(file_db, done)
