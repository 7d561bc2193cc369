"""What a client takes as the response of a provider, and what it makes of it (C44)."""
from .abstract import *
from .collector import fpath
from .collector import uniq
from .metadata import last
from .superiors import args_of

AC = 'fedservice.appclient.ClientEntity'
SA = 'fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity'
FC = 'fedservice.entity.client.FederationClient'
STATE = ('sym', 'state')
VID = C('__verified_id_token')
AUTHZ = ('sym', 'authorization_response')


def ob(ctx, R, seen, rule, q, x, view, ok, why):
    uniq(ctx, rule, seen, q, ok, why, R.where(x), None if ok is True else fpath(view.facts.items()))


def names(a):
    return ('x',) + tuple(y for y in a if isinstance(y, tuple))


def unclear(view, t):
    """Is there a condition about `t` that is not understood?"""
    if says(view, t) is not None:
        return False
    return any(a[0] not in ('in', 'none', 'truthy', 'completed', 'isinst', 'eq', 'lt') and mentions(names(a), lambda y: y == t)
               for a in view.facts) or view.opaque([t])


def status_of(view):
    """-> True: successful, False: not known to be"""
    for a, w in view.facts.items():
        def is_status(t):
            return t[0] == 'attr' and t[2] == 'status_code'
        if a[0] == 'in' and w and is_status(a[1]):
            c = a[2]
            if c[0] == 'list' and all(s[0] == 'item' and s[1][0] == 'const' and 200 <= s[1][2] < 300 for s in c[1:]) or show(c) in (
                    'SUCCESSFUL',):
                return True
        if a[0] == 'eq' and w and any(is_status(t) for t in a[1:]):
            o = [t for t in a[1:] if t[0] == 'const']
            if o and isinstance(o[0][2], int) and 200 <= o[0][2] < 300:
                return True
        if a[0] == 'lt' and len(a[1]) == 1 and is_status(a[1][0][0]):
            k = a[1][0][1]
            if w and k == 1 and -a[2] <= 300 or not w and k == -1 and a[2] < 300:
                return True
    return False


def is_error(view, v):
    """Does it say that it is an error? None: not known"""
    if v[0] == 'dict':
        for s in reversed(v[2]):
            if s[0] == 'set' and s[1] in (C('error'), C('http_response')):
                return True
            if s[0] not in ('set',) or s[1][0] != 'const':
                return None
        if v[1] is None:
            return False
        return is_error(view, v[1])
    if v[0] == 'call' and last(v) == 'error_msg':
        return True if 'error' in args_of(v) else None
    if v[0] == 'call' and last(v) == 'httpc':
        return True
    if says(view, v) or view.know(a_in(C('error'), v)) is True or view.know(a_truthy(('item', v, C('error')))) is True or view.know(
            a_truthy(('get', v, C('error'), NONE))) is True:
        return True
    return None


def says(view, v):
    """-> what is_error_message has said"""
    for a, w in view.facts.items():
        if a[0] == 'truthy' and a[1][0] == 'call' and last(a[1]) == 'is_error_message' and view.norm(args_of(a[1]).get(
                '0', args_of(a[1]).get('msg', NONE))) == v:
            return w


def no_error(view, v):
    return says(view, v) is False or view.know(a_in(C('error'), v)) is False or view.know(a_truthy(('get', v, C('error'), NONE))) is False


def responses(ctx):
    """Only what comes with a successful status is the response that was asked for."""
    n = 0
    for cls in (AC, FC):
        q = cls + '.get_response'
        R = ctx.run(q, boundary=('parse_response', 'httpc'))
        seen = set()
        norm = norm_of(R.A)
        if R.limit:
            ctx.ob('only-successful', q, None, 'exploration limit')
            continue
        for x, v in R.returns():
            view = R.view(x)
            t = norm(v)
            n += 1
            good = status_of(view)
            if good:
                ok = True
                if t[0] == 'call' and last(t) in ('from_json', 'from_urlencoded', 'deserialize', 'loads') or t[0] == 'dict' and t[
                        1] is not None and t[1][0] == 'call' and last(t[1]) in ('from_json', 'from_urlencoded', 'loads'):
                    ok = True if is_error(view, t) else False
                ob(ctx, R, seen, 'verified-by-the-service', q, x, view, ok, f'{show(t)[:80]} is the response')
            else:
                e = is_error(view, t)
                ob(ctx, R, seen, 'only-successful', q, x, view, e if e else None if unclear(view, t) else False,
                   f'{show(t)[:80]} is the response, whatever the status')
    q = AC + '.service_request'
    R = ctx.run(q, boundary=('get_response', 'update_service_context'))
    seen = set()
    norm = norm_of(R.A)
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('update_service_context'):
            d = {k: norm(w) for k, w in e.args}
            r = d.get('0', d.get('resp', d.get('response', NONE)))
            view = View(R.A, list(e.facts.items()), norm) if not isinstance(e.facts, list) else View(R.A, e.facts, norm)
            n += 1
            ok = no_error(view, r) or (None if unclear(view, r) else False)
            uniq(ctx, 'errors-change-nothing', seen, q, ok, 'an error message changes what the client knows', e.where, fpath(e.facts.items()))
            ok = view.know(a_in(C('http_response'), r)) is False or (None if unclear(view, r) else False)
            uniq(ctx, 'redirects-change-nothing', seen, q, ok, 'a redirect changes what the client knows', e.where, fpath(e.facts.items()))
    for x, v in R.returns():
        t = norm(v)
        ok = True if t[0] == 'call' and last(t) in ('get_response', 'get_response_ext') else None
        ob(ctx, R, seen, 'response-returned', q, x, R.view(x), ok, f'{show(t)[:80]} is returned')
    if not n:
        ctx.ob('only-successful', AC, None, 'there is no response that is recognised')


def asked(t):
    """-> (service, arguments) of a request"""
    if t[0] != 'call' or last(t) != 'do_request':
        return None, {}
    d = args_of(t)
    s = d.get('request_type', d.get('0', NONE))
    return (s[2] if s[0] == 'const' else '?'), d


def get(t, k):
    if t is None or t[0] != 'dict' or t[1] is not None:
        return None
    for s in reversed(t[2]):
        if s[0] == 'set' and s[1] == C(k):
            return s[2]
        if s[0] not in ('set',):
            return None
    return NONE


def session_value(t, k):
    """Is it the value of the session? -> the key of the session"""
    if t is not None and t[0] in ('item', 'get') and len(t) > 2 and t[2] == C(k) and t[1][0] == 'call' and last(t[1]) in ('get_set', 'get'):
        d = args_of(t[1])
        return d.get('0', d.get('key'))


def requests(ctx):
    """Tokens and user info are asked for with what belongs to the session, an error is no answer."""
    GA = ('do_request', 'get_client_authn_method', 'get_set')
    for name, service in (('get_tokens', 'accesstoken'), ('refresh_access_token', 'refresh_token'), ('get_user_info', 'userinfo')):
        q = f'{SA}.{name}'
        R = ctx.run(q, boundary=GA)
        seen = set()
        norm = norm_of(R.A)
        if R.limit:
            ctx.ob('errors-are-raised', q, None, 'exploration limit')
        for x, v in R.returns():
            view = R.view(x)
            t = norm(v)
            s, d = asked(t)
            if s is None:
                ob(ctx, R, seen, 'of-the-session', q, x, view, None, f'{show(t)[:80]} is returned')
                continue
            ob(ctx, R, seen, 'errors-are-raised', q, x, view, no_error(view, t) or (None if unclear(view, t) else False),
               'an error message is returned as if it were the answer')
            ob(ctx, R, seen, 'of-the-session', q, x, view, s == service, f'the service asked is {s}')
            w = d.get('state')
            ob(ctx, R, seen, 'of-the-session', q, x, view, w == STATE or (None if w is None or not understood(w) else False),
               f'it is asked for in the session {show(w) if w else "?"}')
            ra = d.get('request_args')
            if service == 'accesstoken':
                for k in ('code', 'redirect_uri'):
                    w = get(ra, k)
                    who = session_value(w, k)
                    ok = True if who == STATE else None if w is None or who is None and not understood(w) else False
                    ob(ctx, R, seen, 'of-the-session', q, x, view, ok, f'{k} is {show(w)[:60] if w else "?"}')
                w = get(ra, 'grant_type')
                ob(ctx, R, seen, 'of-the-session', q, x, view, True if w == C('authorization_code') else None if w is None else False,
                   f'the grant type is {show(w)[:40] if w else "?"}')
            if service == 'userinfo':
                w = get(ra, 'access_token')
                given = ('sym', 'access_token')
                who = session_value(w, 'access_token')
                k = view.know(a_truthy(given))
                ok = k is not False if w == given else k is False if who == STATE else None if w is None or who is None and not understood(
                    w) else False
                ob(ctx, R, seen, 'of-the-session', q, x, view, ok, f'the access token is {show(w)[:60] if w else "?"}')


def understood(t):
    return not mentions(t, lambda y: y[0] in ('opaque', 'lo', 'phi', 'many'))


def collected(ctx):
    """The tokens are those of the responses, an ID token is one that has been verified."""
    q = SA + '.get_access_and_id_token'
    R = ctx.run(q, boundary=('get_tokens', 'get_set'))
    seen = set()
    norm = norm_of(R.A)
    if R.limit:
        ctx.ob('id-token-verified', q, None, 'exploration limit')
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        if t[0] != 'dict':
            continue
        n += 1

        def source(w):
            """-> is it from the authorization response, or from the tokens of the session?"""
            if w == AUTHZ or w[0] == 'call' and last(w) == 'get_set' and args_of(w).get('0', args_of(w).get('key')) == STATE:
                return True
            if w[0] == 'call' and last(w) == 'get_tokens':
                s = args_of(w).get('state', args_of(w).get('0'))
                return s == STATE or s == ('item', AUTHZ, C('state')) or (None if s is None or not understood(s) else False)
            return None if not understood(w) or w[0] == 'call' else False
        for k, key, rule in (('id_token', VID, 'id-token-verified'), ('access_token', C('access_token'), 'access-token-received')):
            w = get(t, k)
            if w is None:
                ok = None
            elif w == NONE:
                ok = True
            elif w[0] in ('item', 'get') and w[2][0] == 'const':
                ok = False if w[2] != key else source(w[1])
            else:
                ok = None if not understood(w) or w[0] == 'call' else False
            ob(ctx, R, seen, rule, q, x, view, ok, f'{k} is {show(w)[:80] if w else "?"}')
    if not n:
        ctx.ob('id-token-verified', q, None, 'no tokens are returned')


def final(ctx):
    """The result of an authentication is made of the responses of that authentication."""
    q = SA + '.finalize'
    R = ctx.run(q, boundary=('finalize_auth', 'get_access_and_id_token', 'get_user_info', 'userinfo_in_id_token', 'bind_key'))
    seen = set()
    norm = norm_of(R.A)
    if R.limit:
        ctx.ob('one-authentication', q, None, 'exploration limit')
    n = 0

    def authz(t):
        return t[0] == 'call' and last(t) == 'finalize_auth'

    def state(t):
        return t[0] in ('item', 'get') and len(t) > 2 and t[2] == C('state') and authz(t[1])

    def token(t, k):
        if t[0] not in ('item', 'get') or t[2] != C(k) or t[1][0] != 'call' or last(t[1]) != 'get_access_and_id_token':
            return False
        d = args_of(t[1])
        s = d.get('state', d.get('1'))
        return authz(d.get('authorization_response', d.get('0', NONE))) and (s is None or state(s))
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        if t[0] != 'dict':
            ob(ctx, R, seen, 'one-authentication', q, x, view, None, f'{show(t)[:80]} is returned')
            continue
        if get(t, 'error') not in (NONE, None):
            ok = all(get(t, k) == NONE for k in ('userinfo', 'token', 'id_token'))
            ob(ctx, R, seen, 'errors-only', q, x, view, ok, 'an error comes with tokens or user info')
            continue
        n += 1
        auth = [y for a in view.facts for y in subterms(names(a)) if isinstance(y, tuple) and y and y[0] == 'call' and authz(y)]
        ok = any(no_error(view, y) for y in auth)
        ob(ctx, R, seen, 'errors-only', q, x, view, ok or (None if any(unclear(view, y) for y in auth) else False),
           'an authorization error is not reported as that')
        for k, what in (('id_token', 'id_token'), ('token', 'access_token')):
            w = get(t, k)
            ok = None if w is None else True if w == NONE or token(w, what) else None if not understood(w) else False
            ob(ctx, R, seen, 'one-authentication', q, x, view, ok, f'{k} is {show(w)[:80] if w else "?"}')
        w = get(t, 'state')
        ob(ctx, R, seen, 'one-authentication', q, x, view, None if w is None else state(w) or (None if not understood(w) else False),
           f'the state is {show(w)[:80] if w else "?"}')
        w = get(t, 'userinfo')
        if w is None:
            ok = None
        elif w in (NONE, ('dict', None, ())):
            ok = True
        elif w[0] == 'call' and last(w) == 'get_user_info':
            d = args_of(w)
            s, a = d.get('state', d.get('0', NONE)), d.get('access_token', d.get('1', NONE))
            ok = state(s) and (a == NONE or token(a, 'access_token'))
        elif w[0] == 'call' and last(w) == 'userinfo_in_id_token':
            d = args_of(w)
            ok = token(d.get('id_token', d.get('0', d.get('self', NONE))), 'id_token')
        else:
            ok = None if not understood(w) else False
        ob(ctx, R, seen, 'one-authentication', q, x, view, ok, f'the user info is {show(w)[:100] if w else "?"}')
    if not n:
        ctx.ob('one-authentication', q, None, 'no result is recognised')


def valid(ctx):
    """What has expired is not valid."""
    q = SA + '.get_valid_access_token'
    R = ctx.run(q, boundary=('get_set',))
    seen = set()
    norm = norm_of(R.A)
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        tok = [y for y in subterms(t) if y[0] in ('item', 'get') and len(y) > 2 and y[2] == C('access_token')]
        if not tok:
            ob(ctx, R, seen, 'token-not-expired', q, x, view, None if t[0] != 'const' else True, f'{show(t)[:60]} is returned')
            continue
        n += 1
        who = session_value(tok[0], 'access_token')
        ob(ctx, R, seen, 'of-the-session', q, x, view, who == STATE or (None if who is None else False), 'the token is that of the session')
        ok = expiry(view, lambda y: y[0] in ('item', 'get') and len(y) > 2 and y[2] == C('__expires_at'), True)
        ob(ctx, R, seen, 'token-not-expired', q, x, view, ok, 'an access token that has expired is valid')
    q2 = SA + '.has_active_authentication'
    R = ctx.run(q2, boundary=('get_set',))
    norm = norm_of(R.A)
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        if t in (FALSE, NONE):
            continue
        n += 1
        if t == TRUE:
            ok = expiry(view, lambda y: y[0] in ('item', 'get') and len(y) > 2 and y[2] == C('exp') and mentions(y[1], lambda z: z == VID), False)
        else:
            ok = False if t[0] in ('item', 'get', 'attr', 'const') else None
        ob(ctx, R, seen, 'token-not-expired', q2, x, view, ok, 'an authentication is active whose ID token has expired')
    if not n:
        ctx.ob('token-not-expired', q, None, 'no token is recognised')


def expiry(view, is_exp, forever):
    """Is it known that the time has not passed (or, with `forever`, that there is none)?"""
    about = False
    for a, w in view.facts.items():
        if a[0] == 'lt':
            now = [k for t, k in a[1] if t[0] == 'now']
            exp = [k for t, k in a[1] if is_exp(t)]
            if not exp:
                continue
            if len(a[1]) == 2 and len(now) == 1:
                if w and now[0] == 1 and exp[0] == -1 and a[2] >= 0 or not w and now[0] == -1 and exp[0] == 1 and a[2] <= 0:
                    return True
            else:
                about = True
            continue
        if not mentions(names(a), is_exp) and a[0] != 'in':
            continue
        if forever and (a[0] in ('truthy', 'none') and w == (a[0] == 'none') and is_exp(a[1]) or a[0] == 'in' and a[1] == C(
                '__expires_at') and not w or a[0] == 'eq' and w and C(0) in a[1:]):
            return True
        if a[0] not in ('truthy', 'none', 'in', 'eq'):
            about = True
    return None if about else False


def c44(ctx):
    for f in (responses, requests, collected, final, valid):
        ctx.part(f)
