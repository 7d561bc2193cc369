"""Where the set of trust anchors and their keys come from (C36)."""
import ast

from ..terms import subterms, show
from .base import AnchorMissing, C, FE, View, a_in, a_truthy, mentions, norm_of
from .chain import ADDERS, chain_run, KEYJAR, unsure, VERIFIER
from .collector import covered, fpath, on_path, uniq
from .marks import arg
from .metadata import CHAINS, last
from .ownership import analysed, MUTATORS

COLLECTOR = 'fedservice.entity.function.trust_chain_collector.TrustChainCollector'
ENTITY = 'fedservice.entity.FederationEntity'
ADD = (f'{COLLECTOR}.add_trust_anchor', f'{ENTITY}.add_trust_anchor')
MAKERS = ('fedservice.utils.make_federation_entity', 'fedservice.utils.make_federation_combo')
CONFIGURE = (f'{COLLECTOR}.__init__', f'{ENTITY}.trust_anchors') + MAKERS
NAME = 'trust_anchors'
# analysed by themselves
KNOWN = CHAINS + ('TrustChainCollector.get_entity_configuration', 'verify_delegation', 'get_verified_trust_anchor_statement', 'get_document',
                  'get_request_parameters', 'collect_tree', 'collect_branch', 'do_request')


def functions(repo):
    for m in repo.modules.values():
        yield from m.funcs.values()
        for c in m.classes.values():
            yield from c.methods.values()
            yield from c.setters.values()


def writes(f):
    """Where a function sets or changes what is called trust_anchors: [(node, how)]"""
    alias = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == NAME
             for t in n.targets if isinstance(t, ast.Name)}

    def is_set(e):
        return isinstance(e, ast.Attribute) and e.attr == NAME or isinstance(e, ast.Name) and e.id in alias
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == NAME and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n, 'set'
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_set(n.value):
            yield n, 'changed'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_set(n.func.value):
            yield n, 'changed'
        elif isinstance(n, ast.AugAssign) and is_set(n.target):
            yield n, 'changed'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1 and isinstance(
                n.args[1], ast.Constant) and n.args[1].value == NAME:
            yield n, 'set'


def callers(repo):
    """name -> functions in which it is used"""
    out = {}
    for f in functions(repo):
        for n in ast.walk(f.node):
            x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if x:
                out.setdefault(x, set()).add(f.qual)
    return out


def entitled(repo, f, used, depth=0):
    """It is one of the functions for setting trust anchors, or only they use it"""
    if f.qual in ADD + CONFIGURE:
        return True
    by = used.get(f.name, set()) - {f.qual}
    if f.cls and f.name.startswith('_'):
        # a helper of the class
        by = {q for q in by if any(q.startswith(c.qual + '.') for m in repo.modules.values() for c in m.classes.values() if c in f.cls.mro() or
                                   f.cls in c.mro())}
    if f.name.startswith('__') or not by or depth > 4:
        return False
    fs = {g.qual: g for g in functions(repo)}
    return all(entitled(repo, fs[q], used, depth + 1) for q in by)


def written(ctx):
    used = callers(ctx.repo)
    n = 0
    for f in functions(ctx.repo):
        ws = list(writes(f))
        if not ws:
            continue
        n += 1
        ok = entitled(ctx.repo, f, used)
        ctx.ob('set-by-configuration', f.qual, ok, 'the set of trust anchors is changed by something else than the configuration',
               f'{f.module.path}:{ws[0][0].lineno}', [f'line {w.lineno}: {ast.unparse(w)[:120]} is {how}' for w, how in ws])
    if not n:
        raise AnchorMissing(NAME)


def both_known(ctx, done):
    """Adding a trust anchor: name and keys"""
    for qual in ADD:
        R = ctx.run(qual)
        A, norm = R.A, norm_of(R.A)
        if R.limit:
            ctx.ob('name-and-keys', qual, None, 'exploration limit')
            continue
        ps = ctx.repo.func(qual).params()[1:]
        if len(ps) < 2:
            ctx.ob('name-and-keys', qual, None, 'the parameters are not known')
            continue
        eid, jwks = ('sym', ps[0]), ('sym', ps[1])
        names, keys, other = [], [], []
        for e in A.log:
            a = {k: norm(v) for k, v in e.args if isinstance(v, tuple)}
            if e.kind == 'mut' and is_anchors(a.get('target')):
                if e.name == '[]=' and a.get('key') == eid or e.name in ('update', 'setdefault') and mentions(tuple(a.values()), eid):
                    names.append(e)
                else:
                    other.append(e)
            elif e.kind == 'setattr' and e.name == NAME:
                (names if mentions(a['value'], eid) and mentions(a['value'], is_anchors) else other).append(e)
            elif e.kind in ('call', 'mut') and last_name(e) in ADDERS and jar(next(iter(a.values()), None)):
                i = a.get('issuer_id', a.get('1' if last_name(e) == 'import_jwks' else '0'))
                if i == eid and any(mentions(v, jwks) for v in a.values()):
                    keys.append(e)
        for e in other:
            uniq(ctx, 'name-and-keys', done, qual, False, 'something else than the trust anchor that is added is changed', e.where,
                 fpath(e.facts.items()))
        n = 0
        for x, v in R.returns():
            n += 1
            view = R.view(x)
            if keys and all(any(f[0] == 'in' and f[1] == eid for f in e.facts) for e in keys):
                uniq(ctx, 'name-and-keys', done, qual, False, 'the keys of an added trust anchor are not always made known', keys[0].where)
            there = view.know(a_in(eid, ('attr', FE, NAME))) is True
            for what, ok in (('name', True if there else covered(names, view)), ('keys', covered(keys, view))):
                uniq(ctx, 'name-and-keys', done, qual, ok, f'the {what} of the added trust anchor is not made known', R.where(x), R.path(x)[-6:])
        if not n:
            ctx.ob('name-and-keys', qual, False, 'no trust anchor can be added')


def last_name(e):
    return e.name.rpartition('.')[2]


def is_anchors(t):
    return isinstance(t, tuple) and t[:1] == ('attr',) and t[2] == NAME


def jar(t):
    """A key jar that is kept"""
    if not isinstance(t, tuple):
        return False
    return not (last(t) == 'KeyJar' or t[0] == 'fresh' or t[0] == 'extobj' and t[1].rpartition('.')[2] == 'KeyJar')


class Sliced:
    """Only what has to do with some attributes is left in a function"""

    def __init__(self, f, about):
        self.f, self.body = f, f.node.body
        keep = [st for st in self.body if self.relevant(st, about)]
        while True:
            need = {n.id for st in keep for n in ast.walk(st) if isinstance(n, ast.Name)}
            more = [st for st in self.body if st not in keep and any(
                isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in need for n in ast.walk(st))]
            if not more:
                break
            keep += more
        self.kept = [st for st in self.body if st in keep]

    def relevant(self, st, about):
        return any(isinstance(n, (ast.Return, ast.Raise)) or isinstance(n, ast.Name) and n.id in about or isinstance(
            n, ast.Attribute) and n.attr in about or isinstance(n, ast.Constant) and n.value in about for n in ast.walk(st))

    def __enter__(self):
        self.f.node.body = self.kept

    def __exit__(self, *exc):
        self.f.node.body = self.body


def configured(ctx, done):
    """The configured trust anchors, all of them and with their keys"""
    for qual in (f'{COLLECTOR}.__init__',) + MAKERS:
        try:
            with Sliced(ctx.repo.func(qual), (NAME, 'keyjar')):
                R = ctx.run(qual, boundary=('build_entity_config', 'FederationEntity', 'FederationCombo', 'instantiate', 'execute', 'ESCache'))
        except AnchorMissing:
            if qual in MAKERS:
                continue
            raise
        A, norm = R.A, norm_of(R.A)
        if R.limit:
            ctx.ob('as-configured', qual, None, 'exploration limit')
            continue
        conf = ('sym', NAME)
        sets, imports = [], []
        for e in A.log:
            a = {k: norm(v) for k, v in e.args if isinstance(v, tuple)}
            if e.kind == 'setattr' and e.name == NAME:
                sets.append((e, a['value']))
            elif e.kind in ('call', 'mut') and last_name(e) in ADDERS:
                imports.append((e, a))
        for e, v in sets:
            made = v == conf or last(v) == 'execute' and mentions(v, conf)
            uniq(ctx, 'as-configured', done, qual, True if made else None if any(y[0] in ('opaque', 'phi', 'lv', 'lo', 'dict', 'call') for y in subterms(
                v)) and mentions(v, conf) else False, 'the trust anchors are not those that are configured', e.where, fpath(e.facts.items()))
            if not made:
                continue
            best = False
            for i, a in imports:
                iss = a.get('issuer_id', a.get('1' if last_name(i) == 'import_jwks' else '0'))
                if iss is None or not (iss[0] == 'elem' and mentions(iss, v) and any(
                        y[0] == 'item' and y[1] == v and y[2] == iss for t in a.values() for y in subterms(t))):
                    continue
                if not jar(next(iter(a.values()))):
                    continue
                extra = [f for f, w in i.facts.items() if mentions(f, iss) and f[0] not in ('truthy', 'none')]
                if any(f[0] == 'in' and f[1] == iss for f in extra):
                    continue
                best = None if extra and best is False else True if not extra else best
            uniq(ctx, 'as-configured', done, qual, best, 'the keys of a configured trust anchor are not made known', e.where, fpath(e.facts.items()))
        n = 0
        for x, v in R.returns():
            n += 1
            view = R.view(x)
            if view.know(a_truthy(conf)) is False:
                continue
            uniq(ctx, 'as-configured', done, qual, covered([e for e, _ in sets], view), 'the configured trust anchors are not used',
                 R.where(x), R.path(x)[-6:])
        if not n:
            ctx.ob('as-configured', qual, None, 'it never ends')


def own_set(ctx):
    """What one entity is told is not told to all that are configured from the same trust anchors"""
    fl = analysed(ctx)
    seen = {}
    for f, n, at, v in fl.stored:
        if at == NAME:
            seen.setdefault(f.qual, []).append((f, n, v))
    for f in functions(ctx.repo):
        if f.qual in MAKERS and f.qual not in seen:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == NAME and isinstance(n.ctx, ast.Store):
                    v = fl.set_to.get((f.qual, n.lineno, n.col_offset))
                    if v is not None:
                        seen.setdefault(f.qual, []).append((f, n, v))
    for q, found in seen.items():
        if q == f'{ENTITY}.trust_anchors':
            continue
        bad = [(f, n, o) for f, n, v in found for o, a, d in v if d == 0]
        ctx.ob('own-set', q, not bad, 'it is the object that was handed over, which others may have too',
               f'{found[0][0].module.path}:{found[0][1].lineno}', [f'line {n.lineno}: {o[0]} {o[1]}' for f, n, o in bad])
    if not seen:
        raise AnchorMissing(NAME)


def keys_elsewhere(ctx, done):
    """Keys put into the key jar of the federation entity by something else are not those of a trust anchor"""
    n = 0
    for f in functions(ctx.repo):
        if not f.module.name.startswith('fedservice.entity') or f.qual in ADD + CONFIGURE or f.name == '__init__':
            continue
        if not any(isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', '')) in (
                'import_jwks', 'add_kb', 'add_keys', 'add_url', 'load_keys', 'import_jwks_as_json', 'import_jwks_from_file') for x in ast.walk(f.node)):
            continue
        n += 1
        R = chain_run(ctx) if f.cls and f.cls.qual == VERIFIER else ctx.run(f.qual, boundary=tuple(x for x in KNOWN if x.rpartition('.')[2] != f.name))
        norm = norm_of(R.A)
        if R.limit:
            ctx.ob('keys-elsewhere', f.qual, None, 'exploration limit')
            continue
        ctx.ob('keys-elsewhere', f.qual, True, 'nothing else is added')
        for e in R.A.log:
            name = last_name(e)
            if e.kind not in ('call', 'mut') or name not in ADDERS:
                continue
            args = [(k, norm(v)) for k, v in e.args if isinstance(v, tuple)]
            if not args or args[0][1] != KEYJAR:
                continue
            a = dict(args[1:])
            iss = a.get('issuer_id', a.get('0'))
            view = View(R.A, list(e.facts.items()))
            ok = None
            if iss is not None:
                absent = view.know(a_in(iss, KEYJAR)) is False or view.any(
                    lambda f_, v: f_[0] == 'completed' and not v and f_[1][0] == 'call' and f_[1][1].endswith('get_issuer_keys') and mentions(
                        f_[1], iss) and mentions(f_[1], KEYJAR))
                ta = view.know(a_in(iss, ('attr', FE, NAME))) is False
                ok = True if ta or absent else None if unsure(view, iss) else False
            uniq(ctx, 'keys-elsewhere', done, f'{f.qual}:{name}', ok, f'keys may be added for a trust anchor ({show(iss)[:80] if iss else "?"})', e.where,
                 fpath(e.facts.items()))
    if not n:
        ctx.ob('keys-elsewhere', 'fedservice.entity', True, 'keys are never added')


def c36(ctx):
    done = set()
    ctx.part(written)
    ctx.part(both_known, done)
    ctx.part(configured, done)
    ctx.part(own_set)
    ctx.part(keys_elsewhere, done)
