"""What a client makes of the responses it gets (C34)."""
from ..terms import subst, subterms, show
from .base import AnchorMissing, C, NOW, View, a_eq, a_in, a_lt, a_none, a_truthy, mentions, neg, norm_of
from .anchors import on_path
from .collector import fpath, uniq
from .marks import arg, unexpired
from .metadata import last
from .registration import calls, value_of

CLIENT = 'fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity'
STORES = ('get_set', 'get')
ERROR = 'is_error_message'
RANDOM = ('create_key', 'create_state', 'rndstr', 'token_urlsafe', 'token_hex', 'uuid4')


def is_states(t):
    """The store of what is known about the authorizations that are under way."""
    return t is not None and t[0] == 'attr' and t[2] == 'cstate'


def of_state(t, of=None):
    """What is stored for a state: (state, claim) when t is one claim of it"""
    if t[0] == 'call' and last(t) == 'get_claim' and is_states(arg(t[2], -1, 'self')):
        return arg(t[2], 0, 'key'), arg(t[2], 1, 'claim')
    if t[0] in ('item', 'get') and len(t) > 2:
        if stored(t[1]):
            return stored(t[1]), t[2]
    return None


def stored(s):
    """The state that it is everything that is stored for"""
    if s[0] == 'call' and last(s) in STORES and is_states(arg(s[2], -1, 'self')):
        return arg(s[2], 0, 'key')
    if s[0] in ('item', 'get') and len(s) > 2 and is_states(s[1]):
        return s[2]
    return None


def provider(t):
    """Is it the name of the provider that the client uses?"""
    def ctx(s):
        return s[0] in ('attr', 'up', 'call') and (s[-1] == 'context' or last(s) == 'get_context')

    def field(s, name):
        if s[0] == 'attr' and s[2] == name and ctx(s[1]):
            return True
        return s[0] == 'call' and last(s) == 'get' and ctx(arg(s[2], -1, 'self') or C('')) and arg(s[2], 0) == C(name) or \
            s[0] in ('item', 'get') and ctx(s[1]) and s[2] == C(name)
    if field(t, 'issuer'):
        return True
    return t[0] in ('item', 'get') and t[2] == C('issuer') and (field(t[1], 'provider_info') or field(t[1], 'metadata'))


def not_error(view, r):
    """Is it known not to be an error: True / False / None (there is a condition on it that is not understood)"""
    for a, v in view.facts.items():
        if a[0] == 'truthy' and a[1][0] == 'call' and last(a[1]) == ERROR and r in [x for k, x in a[1][2]] and not v:
            return True
    if view.know(a_in(C('error'), r)) is False or view.know(neg(a_truthy(('item', r, C('error'))))) is True:
        return True
    return None if not is_error(view, r) and view.opaque([r]) else False


def is_error(view, r):
    return any(a[0] == 'truthy' and a[1][0] == 'call' and last(a[1]) == ERROR and r in [x for k, x in a[1][2]] and v
               for a, v in view.facts.items()) or view.know(a_in(C('error'), r)) is True


def bound(view, p, given):
    """Is the state of the response bound to the provider that is used?"""
    states = (('item', p, C('state')), ('get', p, C('state')), ('item', given, C('state')))
    isses = []
    for a in view.facts:
        for t in subterms(a):
            s = of_state(t)
            if s and s[1] == C('iss') and s[0] in states and t not in isses:
                isses.append(t)
        if a[0] == 'in' and a[1] == C('iss') and of_state(('item', a[2], a[1])):
            t = ('item', a[2], a[1])
            if of_state(t)[0] in states and t not in isses:
                isses.append(t)
    if not isses:
        return False, 'what the state was bound to is not looked at'
    unk = False
    for i in isses:
        for a, v in view.facts.items():
            if a[0] == 'eq' and v and i in a[1:] and any(provider(t) for t in a[1:]):
                return True, ''
            if a[0] == 'none' and v and provider(a[1]) and view.know(a_in(C('iss'), i[1])) is False:
                return True, ''
        unk = unk or view.opaque([i])
        unk = unk or any(a[0] == 'eq' and v and i in a[1:] for a, v in view.facts.items())
    return None if unk else False, 'the state of the response need not be bound to the provider that is used'


def issuer_there(e):
    """Where nothing is said about the provider there is nothing to bind to"""
    return [(a, v) for a, v in e.facts.items() if a[0] == 'in' and a[1] == C('issuer') and provider(('item', a[2], a[1])) and v]


def accepted(ctx, done):
    qual = f'{CLIENT}.finalize_auth'
    R = ctx.run(qual)
    if R.limit:
        ctx.ob('from-the-issuer', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    given = ('sym', ctx.repo.func(qual).params()[1])
    parsed = {norm(('call', e.name, e.args)) for e in calls(R, 'parse_response')}
    n = 0
    for x, v in R.returns():
        n += 1
        view = R.view(x)
        v = norm(v)
        if any(is_error(view, p) for p in parsed) or v[0] == 'const' and v[2] is None:
            uniq(ctx, 'from-the-issuer', done, qual, True, '')
            continue
        if not (v[0] == 'call' and last(v) == 'parse_response'):
            uniq(ctx, 'from-the-issuer', done, qual, None if mentions(v, lambda t: t[0] == 'call') else False,
                 'something else than the verified response is returned', R.where(x), R.path(x))
            continue
        ok, why = bound(view, v, given)
        uniq(ctx, 'from-the-issuer', done, qual, ok, why, R.where(x), R.path(x))
    for e in calls(R, 'update', 'set', 'update_service_context'):
        a = {k: norm(t) for k, t in e.args}
        if e.name.rpartition('.')[2] != 'update_service_context' and not is_states(a.get('self')):
            continue
        view = View(R.A, list(e.facts.items()), norm)
        n += 1
        p = [t for t in a.values() if t[0] == 'call' and last(t) == 'parse_response'] or [
            t for t in subterms(tuple(a.values())) if t[0] == 'call' and last(t) == 'parse_response']
        if not p:
            continue
        if is_error(view, p[0]):
            uniq(ctx, 'nothing-kept', done, qual, True, '')
            continue
        ok, why = bound(view, p[0], given)
        uniq(ctx, 'nothing-kept', done, qual, ok, f'{e.name.rpartition(".")[2]}: {why}', e.where, fpath(e.facts.items()))
    if not n:
        raise AnchorMissing(qual)


def asked(ctx, done):
    """An authorization request: its state is new and is bound to the provider"""
    qual = f'{CLIENT}.init_authorization'
    R = ctx.run(qual, boundary=('_get_response_type', '_get_response_mode'))
    if R.limit:
        ctx.ob('new-state', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    binds = []
    for e in calls(R, 'set', 'update', 'create_state'):
        a = {k: norm(t) for k, t in e.args}
        if is_states(a.get('self')):
            name = e.name.rpartition('.')[2]
            key = ('call', e.name, e.args) if name == 'create_state' else arg(e.args, 0, 'key')
            iss = arg(e.args, -1, 'iss') if name == 'create_state' else value_of(norm(arg(e.args, 1, 'info') or C('')), 'iss')
            binds.append((norm(key), norm(iss) if iss else None, e))
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        req = [t for t in subterms(norm(v)) if t[0] == 'call' and last(t) == 'get_request_parameters']
        for t in req[:1]:
            n += 1
            given = arg(t[2], 0, 'request_args')
            s = value_of(given, 'state') if given else None
            if s is None:
                uniq(ctx, 'new-state', done, qual, None if given and given[0] != 'dict' else False, 'the request has no state of its own', R.where(x),
                     R.path(x))
                continue
            new = s[0] == 'call' and last(s) in RANDOM
            if not new:
                uniq(ctx, 'new-state', done, qual, None if s[0] == 'call' else False, f'the state is not a new one: {show(s)[:100]}', R.where(x),
                     R.path(x))
                continue
            uniq(ctx, 'new-state', done, qual, True, '')
            here = [(i, e, on_path(e, view.plus(issuer_there(e)))) for k, i, e in binds if k == s]
            ok = True if any(o and i is not None and provider(i) for i, e, o in here) else None if any(
                o is not False and not (i is None or i[0] in ('const', 'sym')) for i, e, o in here) else False
            uniq(ctx, 'state-bound', done, qual, ok, 'the state is not bound to the provider that is asked', R.where(x), R.path(x))
    if not n:
        raise AnchorMissing(qual)


def answered(ctx, done):
    """Error messages are not returned as responses"""
    for name in ('get_tokens', 'refresh_access_token', 'get_user_info'):
        qual = f'{CLIENT}.{name}'
        R = ctx.run(qual, boundary=('do_request',))
        if R.limit:
            ctx.ob('no-error', qual, None, 'exploration limit')
            continue
        norm = norm_of(R.A)
        n = 0
        for x, v in R.returns():
            n += 1
            v = norm(v)
            if not (v[0] == 'call' and last(v) == 'do_request'):
                uniq(ctx, 'no-error', done, qual, None if mentions(v, lambda t: t[0] == 'call') else True, 'not recognised', R.where(x))
                continue
            ok = not_error(R.view(x), v)
            uniq(ctx, 'no-error', done, qual, ok, 'an error message is returned as if it were the response', R.where(x), R.path(x))
        if not n:
            raise AnchorMissing(qual)
        if name == 'get_tokens':
            for e in calls(R, 'do_request'):
                given = arg(e.args, 1, 'request_args')
                given = norm(given) if given else None
                state = ('sym', ctx.repo.func(qual).params()[1])
                c = value_of(given, 'code') if given else None
                s = of_state(c) if c else None
                ok = s == (state, C('code')) or c == ('const', 'NoneType', None)
                if not ok:
                    ok = None if given is None or c is not None and s is None and mentions(c, state) else False
                uniq(ctx, 'code-of-state', done, qual, ok, 'the code is not the one that was received for this state', e.where)


def finalized(ctx, done):
    qual = f'{CLIENT}.finalize'
    R = ctx.run(qual, boundary=('finalize_auth', 'get_tokens', 'get_user_info', 'get_access_and_id_token'))
    if R.limit:
        ctx.ob('no-tokens-for-error', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    resp = {norm(('call', e.name, e.args)) for e in calls(R, 'finalize_auth')}
    if not resp:
        raise AnchorMissing('finalize_auth')
    n = 0

    def right(view, t):
        """tokens: those of this response"""
        for c in subterms(t):
            if c[0] == 'call' and last(c) == 'get_access_and_id_token':
                if arg(c[2], 0, 'authorization_response') not in resp:
                    return False
        return not_error(view, next(iter(resp)))
    for x, v in R.returns():
        n += 1
        v, view = norm(v), R.view(x)
        got = [t for t in (value_of(v, k) for k in ('token', 'id_token', 'userinfo')) if t is not None]
        if any(is_error(view, r) for r in resp) and not got and v[0] == 'dict':
            uniq(ctx, 'no-tokens-for-error', done, qual, True, '')
            continue
        ok = not_error(view, next(iter(resp)))
        if ok is True:
            oks = [right(view, t) for t in got]
            ok = False if False in oks else None if None in oks else True
        uniq(ctx, 'no-tokens-for-error', done, qual, ok, 'tokens that are not from an accepted response', R.where(x), R.path(x))
    for e in calls(R, 'get_access_and_id_token', 'get_user_info', 'get_tokens'):
        view = View(R.A, list(e.facts.items()), norm)
        ok = not_error(view, next(iter(resp)))
        uniq(ctx, 'no-tokens-for-error', done, qual, ok, 'tokens are asked for though the response is an error', e.where, fpath(e.facts.items()))


def doubt(view, state):
    """Is there a condition, on something else than what is stored for the state, that is not understood?"""
    return any(mentions(subst(a, lambda t: C('') if stored(t) else t), state) for a in view.facts)


def alive(ctx, done):
    qual = f'{CLIENT}.has_active_authentication'
    R = ctx.run(qual)
    norm = norm_of(R.A)
    n = 0
    state = ('sym', ctx.repo.func(qual).params()[1])
    for x, v in R.returns():
        n += 1
        v, view = norm(v), R.view(x)
        if v[0] == 'const' and not v[2]:
            uniq(ctx, 'not-expired', done, qual, True, '')
            continue
        toks = [t for a in view.facts for t in subterms(a) if of_state(t) == (state, C('__verified_id_token'))]
        if v[0] != 'const':
            uniq(ctx, 'not-expired', done, qual, None, 'the answer is not understood', R.where(x))
            continue
        if not toks:
            uniq(ctx, 'not-expired', done, qual, None if doubt(view, state) else False, 'no ID token of this state is looked at', R.where(x), R.path(x))
            continue
        oks = [lasts(view, ('item', t, C('exp')), False) for t in toks]
        ok = True if True in oks else None if None in oks else False
        uniq(ctx, 'not-expired', done, qual, ok, 'an authentication that has expired is reported as active', R.where(x), R.path(x))
    qual = f'{CLIENT}.get_valid_access_token'
    R = ctx.run(qual)
    norm = norm_of(R.A)
    state = ('sym', ctx.repo.func(qual).params()[1])
    for x, v in R.returns():
        v, view = norm(v), R.view(x)
        toks = [t for t in subterms(v) if of_state(t) == (state, C('access_token'))]
        if not toks:
            uniq(ctx, 'not-expired', done, qual, True if v[0] == 'const' else None, 'the answer is not understood', R.where(x))
            continue
        n += 1
        exps = {('item', t[1], C('__expires_at')) for t in toks if t[0] in ('item', 'get')} | {
            t for a in view.facts for t in subterms(a) if of_state(t) == (state, C('__expires_at'))}
        oks = [lasts(view, t, True) for t in exps]
        ok = True if True in oks else None if None in oks else False
        uniq(ctx, 'not-expired', done, qual, ok, 'an access token that has expired is returned', R.where(x), R.path(x))
    if not n:
        raise AnchorMissing(qual)


def lasts(view, e, open_ended):
    if view.know(a_lt(NOW, e)) is True or open_ended and view.know(neg(a_lt(e, NOW))) is True:
        return True
    if open_ended and (view.know(a_in(C('__expires_at'), e[1])) is False or view.know(neg(a_truthy(e))) is True or view.know(a_none(e)) is True):
        return True
    return None if view.opaque([e, e[1]]) else False


def c34(ctx):
    done = set()
    for f in (accepted, asked, answered, finalized, alive):
        ctx.part(f, done)
