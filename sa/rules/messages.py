"""C33 and the message class part of C08 (fedservice.message)."""
import ast

from .abstract import *
from .collector import uniq

M = 'fedservice.message.'


def spec_of(repo, mod, e, env, seen):
    """A claim table -> {claim: required} (None: not known); '' stands for the claims of a library class."""
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = spec_of(repo, mod, v, env, seen)
                if s is None:
                    return None
                out.update(s)
            elif isinstance(k, ast.Constant):
                out[k.value] = required(repo, mod, v)
            else:
                return None
        return out
    if isinstance(e, ast.Name):
        if e.id in env:
            return dict(env[e.id]) if env[e.id] is not None else None
        r = repo.resolve(mod, e.id)
        if r and r[0] == 'assign':
            return spec_of(repo, r[2], r[1], {}, seen)
        return None
    if isinstance(e, ast.Attribute) and e.attr == 'c_param':
        r = repo.resolve_expr(mod, e.value)
        return message_spec(repo, r[1], seen) if r and r[0] == 'class' else {'': True}
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'deepcopy'):
            return spec_of(repo, mod, f.value if not e.args else e.args[0], env, seen)
        if isinstance(f, ast.Name) and f.id in ('dict', 'deepcopy', 'copy'):
            out = {}
            for a in e.args:
                s = spec_of(repo, mod, a, env, seen)
                if s is None:
                    return None
                out.update(s)
            for k in e.keywords:
                if k.arg is None:
                    s = spec_of(repo, mod, k.value, env, seen)
                    if s is None:
                        return None
                    out.update(s)
                else:
                    out[k.arg] = required(repo, mod, k.value)
            return out
        return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = spec_of(repo, mod, e.left, env, seen), spec_of(repo, mod, e.right, env, seen)
        return None if a is None or b is None else {**a, **b}
    return None


def required(repo, mod, e):
    """Is it the description of a claim that must be there?"""
    if isinstance(e, ast.Tuple) and len(e.elts) > 1:
        return e.elts[1].value if isinstance(e.elts[1], ast.Constant) else None
    r = repo.resolve_expr(mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r and r[0] == 'assign':
        return required(repo, r[2], r[1])
    n = r[1].rpartition('.')[2] if r and r[0] == 'ext' else ''
    return True if 'REQUIRED' in n else False if 'OPTIONAL' in n else None


def message_spec(repo, c, seen=()):
    """The claims of a message class: {claim: required}; None when the table is built in a way not understood."""
    if c.qual in seen:
        return None
    seen = tuple(seen) + (c.qual,)
    env = {}
    for st in c.node.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in ts:
                if isinstance(t, ast.Name) and st.value is not None:
                    env[t.id] = spec_of(repo, c.module, st.value, env, seen) if t.id == 'c_param' or \
                        isinstance(st.value, (ast.Dict, ast.Call)) else None
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env:
                    d = env[t.value.id]
                    if d is not None and isinstance(t.slice, ast.Constant):
                        d[t.slice.value] = required(repo, c.module, st.value)
                    else:
                        env[t.value.id] = None
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, ast.BitOr):
            a, b = env.get(st.target.id), spec_of(repo, c.module, st.value, env, seen)
            env[st.target.id] = None if a is None or b is None else {**a, **b}
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and env.get(t.value.id) is not None:
                    if isinstance(t.slice, ast.Constant):
                        env[t.value.id].pop(t.slice.value, None)
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and isinstance(st.value.func.value, ast.Name):
            n, f = st.value.func.value.id, st.value.func.attr
            d = env.get(n)
            if d is None:
                continue
            if f == 'update':
                for a in st.value.args:
                    s = spec_of(repo, c.module, a, env, seen)
                    if s is None:
                        env[n] = d = None
                        break
                    d.update(s)
                if d is not None:
                    for k in st.value.keywords:
                        if k.arg:
                            d[k.arg] = required(repo, c.module, k.value)
            elif f == 'pop' and st.value.args and isinstance(st.value.args[0], ast.Constant):
                d.pop(st.value.args[0].value, None)
        elif isinstance(st, (ast.For, ast.If, ast.While, ast.Try, ast.With)):
            for t in ast.walk(st):
                if isinstance(t, ast.Name) and t.id == 'c_param':
                    env['c_param'] = None
    if 'c_param' in env:
        return env['c_param']
    for b in c.mro()[1:]:
        if hasattr(b, 'node'):
            return message_spec(repo, b, seen)
    return {'': True}


def requires(ctx, rule, cls, names):
    c = ctx.repo.cls(cls)
    spec = message_spec(ctx.repo, c)
    for n in names:
        ok = None if spec is None else spec.get(n, False)
        ctx.ob(rule, f'{cls}:{n}', ok if ok is None else bool(ok), f'{n} is not required')


def known_checks(ctx, rule, cls, done, also=None):
    """A class that has a check of its own does what the library does as well."""
    c = ctx.repo.cls(cls)
    f = c.find('verify')
    if f is None:
        ctx.ob(rule, cls, True, 'checked by the library')
        return
    R = ctx.run(f.qual, boundary=('MetadataPolicy.verify',), self_cls=cls) if f.qual != cls + '.verify' else \
        ctx.run(f.qual, boundary=('MetadataPolicy.verify',))
    me = None
    if R.limit:
        ctx.ob(rule, cls, None, 'exploration limit')
        return
    for x, v in R.returns():
        view = R.view(x)
        me = x.st.env.get('self', me)
        ok = view.any(lambda a, w: a[0] == 'checked' and w and a[1][0] == 'self')
        uniq(ctx, rule, done, f.qual, bool(ok), 'the claims are not checked by the library', R.where(x), R.path(x))


def selfs(R):
    return ('self', R.qual.rpartition('.')[0])


def c33(ctx):
    done = set()
    for cls, names in (('EntityStatement', ('iss', 'sub', 'iat', 'exp')), ('TrustMark', ('iss', 'sub', 'iat', 'id')),
                       ('ResolveRequest', ('sub', 'anchor')), ('TrustMarkRequest', ('trust_mark_id', 'sub')),
                       ('ResolveResponse', ('metadata',)), ('HistoricalKeysResponse', ('iss', 'iat', 'jwks')),
                       ('AuthorizationServerMetadata', ('issuer',)), ('OauthClientInformationResponse', ('client_id',)),
                       ('RegistrationResponse', ('client_id',))):
        requires(ctx, 'required', M + cls, names)
        known_checks(ctx, 'checks', M + cls, done)
    # a secret expires
    R = ctx.run(M + 'OauthClientInformationResponse.verify')
    for x, v in R.returns():
        view = R.view(x)
        me = selfs(R)
        sec, exp = (('item', me, C(k)) for k in ('client_secret', 'client_secret_expires_at'))
        ok = any(view.know(l) is False for l in (a_in(C('client_secret'), me), a_truthy(sec))) or \
            view.know(a_none(sec)) is True or view.know(a_in(C('client_secret_expires_at'), me)) is True or \
            view.know(a_none(exp)) is False
        if not ok:
            ok = None if view.opaque([sec, exp]) else False
        uniq(ctx, 'secret-expires', done, R.qual, ok, 'a client secret without expiration time is not refused', R.where(x),
             R.path(x))
    # a trust mark is about the entity
    R = ctx.run(M + 'TrustMark.verify')
    for x, v in R.returns():
        view = R.view(x)
        e, s = ('item', ('sym', 'kwargs'), C('entity_id')), ('item', selfs(R), C('sub'))
        ee = [e, ('sym', 'entity_id')]
        ok = view.know(a_in(C('entity_id'), ('sym', 'kwargs'))) is False or any(
            view.know(a_none(y)) is True or view.know(a_truthy(y)) is False or view.know(a_eq(y, s)) is True for y in ee)
        if not ok:
            ok = None if view.opaque(ee) else False
        uniq(ctx, 'subject', done, R.qual, ok, 'a trust mark for another entity is not refused', R.where(x), R.path(x))
    # a status request says which trust mark it is about
    c = ctx.repo.cls(M + 'TrustMarkStatusRequest')
    spec = message_spec(ctx.repo, c)
    R = ctx.run(M + 'TrustMarkStatusRequest.verify') if c.find('verify') is not None and \
        c.find('verify').cls is c else None
    if R is None:
        ok = spec is not None and spec.get('trust_mark')
        uniq(ctx, 'status-request', done, c.qual, True if ok else False, 'a request without parameters is not refused')
        return
    for x, v in R.returns():
        view = R.view(x)
        s = selfs(R)

        def there(k):
            i = ('item', s, C(k))
            return view.know(a_in(C(k), s)) is True or view.know(a_truthy(i)) is True or view.know(a_none(i)) is False
        ok = there('trust_mark') or there('sub') and (there('trust_mark_id') or there('id'))
        if not ok:
            ok = None if view.opaque([s]) else False
        uniq(ctx, 'status-request', done, R.qual, ok, 'a request that lacks parameters is not refused', R.where(x),
             R.path(x))


# ---------------------------------------------------------------------- C08 (messages)
def crit_in(view, s, c, what, extra, known):
    """Nothing critical is unknown, or there is nothing extra."""
    if view.know(a_truthy(extra)) is False or view.know(a_eq(('len', extra), C(0))) is True:
        return True, ''
    if view.know(a_in(C(what), s)) is False or view.know(a_none(c)) is True:
        return True, ''
    for a, v in view.facts.items():
        if a[0] == 'subset' and v and mentions(a[1], c):
            if a[1][0] in ('diff', 'symdiff'):
                return False, f'{show(a[1])[:60]} is compared to what is known'
            if known(a[2]):
                return True, ''
            return False, f'{what} is compared to {show(a[2])[:60]}'
        if a[0] == 'truthy' and not v and mentions(a[1], c) and a[1] != c and a[1][0] in ('diff', 'inter'):
            return True, ''
    if view.opaque([c]):
        return None, ''
    if view.know(a_truthy(c)) is False:
        return False, f'an empty {what} is not refused'
    return False, f'an unknown {what} extension is not refused'


def c08m(ctx):
    done = set()
    for cls, claim, src, kn in (('EntityStatement', 'crit', None, 'known_extensions'),
                                ('Policy', 'policy_language_crit', 'kwargs', 'known_policy_extensions')):
        R = ctx.run(M + cls + '.verify', boundary=('MetadataPolicy.verify',))
        me = selfs(R)
        s = me if src is None else ('sym', src)
        c = ('item', s, C(claim))
        extra = None
        for e in R.A.log:
            if e.kind == 'call' and e.name.endswith('.extra'):
                extra = ('call', e.name, e.args)
        n = 0
        for x, v in R.returns():
            n += 1
            view = R.view(x)
            ok, why = crit_in(view, s, c, claim, extra or ('sym', '$none'),
                              lambda t: mentions(t, C(kn)) or t == ('sym', kn))
            if ok is False and extra is None:
                ok = None
            uniq(ctx, 'message-crit', done, R.qual, ok, why, R.where(x), R.path(x))
        if not n:
            ctx.ob('message-crit', R.qual, None, 'no accepting path')
    # the policies in a statement are checked with what is critical in the statement
    R = ctx.run(M + 'EntityStatement.verify', boundary=('MetadataPolicy.verify',))
    me = selfs(R)
    mp, pc = ('item', me, C('metadata_policy')), ('item', me, C('policy_language_crit'))
    for x, v in R.returns():
        view = R.view(x)
        if any(view.know(a_in(C(k), me)) is False or view.know(a_truthy(t)) is False or view.know(a_none(t)) is True
               for k, t in (('metadata_policy', mp), ('policy_language_crit', pc))):
            continue
        ok = view.any(lambda a, w: a[0] == 'checked' and w and mentions(a[1], mp) and any(
            k == 'policy_language_crit' and mentions(y, pc) for k, y in a[3]))
        ok = ok or view.any(lambda a, w: a[0] in ('subset', 'forall') and w and mentions(a, pc)) and None
        uniq(ctx, 'policy-checked', done, R.qual, ok if ok in (True, None) else False,
             'critical policy operators are not checked', R.where(x), R.path(x))
    # every policy is
    R = ctx.run(M + 'MetadataPolicy.verify', boundary=('Policy.verify',))
    for x, v in R.returns():
        ok, seen = None, False
        for lid, dom, alts in foralls(R.A, x.st.facts.items()):
            for d, ev, _ in alts:
                inner = foralls(R.A, d)
                for lid2, dom2, alts2 in inner or [(lid, dom, alts)]:
                    if any(a[0] == 'checked' and w for d2, e2, _ in alts2 for a, w in d2):
                        seen = True
                        ok = ok is not False and all(any(a[0] == 'checked' and w and any(
                            k.startswith('**') or k == 'policy_language_crit' for k, y in a[3]) for a, w in d2)
                            for d2, e2, _ in alts2)
                if not inner and seen is False and any(
                        any(a[0] == 'checked' for a, w in d2) for d0, e0, _ in alts for _, _, al in foralls(R.A, d0)
                        for d2, _, _ in al):
                    ok = False
        if ok is None and any(e.kind == 'call' and e.loops for e in R.A.log):
            ok = False if any(info.get('iter') is not None for info in R.A.loopinfo.values()) else None
        uniq(ctx, 'all-policies', done, R.qual, ok, 'not every policy is checked', R.where(x), R.path(x))
