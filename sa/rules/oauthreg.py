"""What clients are registered with, and what is left when they could not be (C40)."""
from .base import *
from .abstract import about
from .collector import fpath
from .collector import uniq
from .marks import arg
from .metadata import args_of
from .metadata import last
from .registration import calls

OA = 'fedservice.appserver.oauth2.registration.Registration'
OI = 'fedservice.appserver.oidc.registration.Registration'
CDB = ('attr', ('up', 'context', ''), 'cdb')
REQ = ('sym', 'request')
VERIFIED = ('redirect_uris', 'policy_uri', 'logo_uri', 'tos_uri')


def final(R, x):
    """What is in the client database when it is over"""
    t = R.A.freeze(x.st, CDB)
    return None if t == CDB else t


def stripped(t):
    while t[0] in ('dict', 'fresh', 'deep') and isinstance(t[1], tuple) or last(t) in ('copy', 'deepcopy', 'dict') and args_of(t):
        t = t[1] if t[0] in ('dict', 'fresh', 'deep') else args_of(t)[0][1]
    return t


def was_there(view, key):
    """Was there something about the client in the database before?"""
    for a, w in view.facts.items():
        if a[0] == 'in' and a[1] == key and a[2] == CDB and not w:
            return False
        if a[0] in ('none', 'truthy') and a[1][0] in ('item', 'get') and a[1][1:3] == (CDB, key):
            return w == (a[0] == 'truthy')
    return True if view.know((('in', key, CDB), True)) else None


def refused(view, t):
    """Is this the reply to a client that cannot be registered?"""
    for a, w in view.facts.items():
        if a[0] == 'isinst' and a[1] == t:
            return w
        if a[0] == 'in' and a[1] == C('error') and a[2] == t or a[0] in ('truthy',) and a[1] == ('item', t, C('error')):
            return w
    return None


def whole(ctx, done):
    """A client is registered or it is not."""
    qual = f'{OA}.client_registration_setup'
    R = ctx.run(qual, boundary=('do_client_registration', 'filter_client_request', 'add_client_secret'))
    if R.limit:
        ctx.ob('all-or-nothing', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    for x in R.exits:
        view = R.view(x)
        t = final(R, x)
        ok = True
        if t is not None and (t[0] != 'dict' or t[1] != CDB):
            ok = None
        elif t is not None:
            seen = set()
            for seg in reversed(t[2]):
                if seg[0] not in ('set', 'del'):
                    ok = worst_of(ok, None)
                    break
                key = norm(seg[1])
                if key in seen:
                    continue
                seen.add(key)
                ok = worst_of(ok, left(view, norm, x, key, seg))
        uniq(ctx, 'all-or-nothing', done, qual, ok, 'a client that could not be registered is left in the client database, or another '
             'registration is lost', R.where(x), R.path(x))


def worst_of(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def left(view, norm, x, key, seg):
    if seg[0] == 'del':
        there = was_there(view, key)
        return not there if there is not None else None
    v = norm(seg[2])
    if v[0] in ('item', 'get') and v[1] == CDB and v[2] == key:
        return True
    v = stripped(v)
    if last(v) != 'do_client_registration':
        return None if mentions(v, lambda y: last(y) == 'do_client_registration' or y[0] in ('phi', 'lo')) else False
    r = refused(view, v)
    return None if r is None and view.any(lambda a, w: a[0] not in ('completed', 'forall', 'exists', 'in') and mentions(a, v)) else r is False


def whole_op(ctx, done):
    """The same for the OP"""
    qual = f'{OI}.non_fed_process_request'
    outer = 'idpyoidc.server.oidc.registration.Registration.process_request'
    R = ctx.run(qual, changes=((outer, CDB),))
    if R.limit:
        ctx.ob('all-or-nothing', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    key = ('item', ('sym', 'req'), C('client_id'))
    n = 0
    for x in R.exits:
        if x.kind == 'exc':
            continue
        view = R.view(x)
        t = R.A.freeze(x.st, CDB)
        v = norm(R.value(x))
        while v[0] in ('dict', 'fresh') and isinstance(v[1], tuple):
            v = v[1]
        if t == CDB:
            continue
        n += 1
        if view.know((('in', C('client_id'), ('sym', 'req')), True)) is False:  # is given one that nobody knows
            continue
        ok = None
        if t[0] == 'dict' and t[1] == CDB and len(t[2]):
            seg = t[2][-1]
            if view.any(lambda a, w: w and a[0] == 'in' and a[1] == C('response_args') and last(a[2]) == 'process_request'
                        or not w and a[0] == 'in' and a[1] == C('error') and last(a[2]) == 'process_request'
                        or a[0] == 'isinst' and not w and last(a[1]) == 'process_request'):
                ok = True if seg[0] == 'upd' else False
            elif seg[0] == 'del' and norm(seg[1]) == key:
                there = was_there(view, key)
                ok = None if there is None else not there
            elif seg[0] == 'set' and norm(seg[1]) == key:
                w = norm(seg[2])
                ok = True if w[0] in ('item', 'get') and w[1:3] == (CDB, key) and was_there(view, key) is not False else False
            elif seg[0] == 'upd':
                ok = True if unchanged(view, key) else None if view.any(
                    lambda a, w: mentions(a, lambda y: y[0] == 'call' and last(y) == 'changed') and not mentions(a, key)) else False
        uniq(ctx, 'all-or-nothing', done, qual, ok, 'a client that could not be registered is left in the client database, or another '
             'registration is lost', R.where(x), R.path(x))
    if not n:
        ctx.ob('all-or-nothing', qual, None, 'nothing is registered')


def unchanged(view, key):
    """Is what the database has about the client the same as before?"""
    def now(t):
        return t[0] in ('item', 'get') and t[1] != CDB and t[2] == key and mentions(t[1], lambda y: y[0] == 'call' and last(y) == 'changed') \
            or t[0] in ('call', 'dict') and mentions(t, lambda y: y[0] == 'call' and last(y) == 'changed')
    none = view.any(lambda a, w: w and a[0] == 'none' and now(a[1]) or not w and a[0] == 'in' and a[1] == key and now(a[2])
                    or a[0] == 'truthy' and not w and now(a[1]))
    return none or view.any(lambda a, w: w and a[0] == 'eq' and any(now(y) for y in a[1:3]) or not w and a[0] == 'in' and a[1] == C(
        'client_id') and a[2] == ('sym', 'req') or a[0] in ('none', 'truthy') and a[1] == ('item', ('sym', 'req'), C('client_id')) and w == (
        a[0] == 'none'))


# ---------------------------------------------------------------------- redirect URIs
def redirects(ctx, done):
    """The redirect URIs of a client are such that it may have them."""
    qual = f'{OA}.verify_redirect_uris'
    R = ctx.run(qual, boundary=('split_uri',))
    if R.limit:
        ctx.ob('redirect', qual, None, 'exploration limit')
        return
    A = R.A
    norm = norm_of(A)
    req = ('sym', ctx.repo.func(qual).params()[0])
    dom = ('item', req, C('redirect_uris'))
    typ = ('item', req, C('application_type'))
    n = 0
    for x, v in R.returns():
        base = R.view(x).facts.items()
        for e, facts, lids in each(A, v, base):
            n += 1
            view = View(A, list(facts))
            e = norm(e) if e else None
            uri = [y for y in subterms(e) if y[0] == 'elem' and norm(y[2]) == dom] if e else []
            if e is None or e[0] != 'tuple' or not uri:
                uniq(ctx, 'redirect', done, qual, None if e is None or about(e) or e[0] == 'all' else False,
                     'a redirect URI is none of those in the request', R.where(x), fpath(facts))
                continue
            uniq(ctx, 'redirect', done, qual, permitted(view, norm, uri[0], req, typ), 'a redirect URI is accepted that the client must not have',
                 R.where(x), fpath(facts))
    if not n:
        ctx.ob('redirect', qual, None, 'nothing is accepted')


def permitted(view, norm, uri, req, typ):
    def part(t, name):
        t = norm(t)
        return t[0] == 'attr' and t[2] == name and last(t[1]) in ('urlparse', 'urlsplit') and norm(args_of(t[1])[0][1]) == uri

    def one_of(name, values):
        for a, w in view.facts.items():
            if not w:
                continue
            if a[0] == 'eq' and any(part(y, name) for y in a[1:3]) and any(y in map(C, values) for y in a[1:3]):
                return True
            if a[0] == 'in' and part(a[1], name) and a[2][0] in ('list', 'set', 'tuple') and all(
                    y[0] != 'const' or y[2] in values for y in subterms(a[2])) and not about(a[2]):
                return True
        return False

    def none_of(name, values):
        got = set()
        for a, w in view.facts.items():
            if not w and a[0] == 'eq' and any(part(y, name) for y in a[1:3]):
                got |= {y[2] for y in a[1:3] if y[0] == 'const'}
            if not w and a[0] == 'in' and part(a[1], name):
                got |= {y[2] for y in subterms(a[2]) if y[0] == 'const'}
        return set(values) <= got

    def kind(name):
        for a, w in view.facts.items():
            if a[0] == 'eq' and C(name) in a[1:3] and any(norm(y) == typ for y in a[1:3]):
                return w
            if a[0] == 'in' and a[1] == C('application_type') and a[2] == req and not w:
                return name == 'web'
        return None
    if view.any(lambda a, w: a[0] in ('truthy', 'in') and mentions(a, uri) and mentions(a, lambda y: y[0] in ('phi', 'lo')) or a[0] == 'truthy'
                and a[1][0] == 'call' and last(a[1]) not in ('split_uri', 'urlparse', 'urlsplit', 'startswith')):
        return None
    if kind('native'):
        return none_of('scheme', ('http', 'https')) or one_of('scheme', ('http',)) and one_of('hostname', ('localhost', '127.0.0.1'))
    if kind('web') is None and kind('native') is None:
        return None
    if not one_of('scheme', ('http', 'https')) or not view.any(lambda a, w: not w and a[0] == 'truthy' and part(a[1], 'fragment') or w and (
            a[0] == 'eq' and C('') in a[1:3] and any(part(y, 'fragment') for y in a[1:3]))):
        return False
    if kind('web') is False:
        return True
    code = ('list', ('item', C('code')))
    return one_of('scheme', ('https',)) or view.any(lambda a, w: w and a[0] == 'eq' and code in a[1:3] and any(
        norm(y) == ('item', req, C('response_types')) for y in a[1:3]))


# ---------------------------------------------------------------------- what is registered
def there(view, key):
    """Is a claim in the request?"""
    k = C(key)
    for a, w in view.facts.items():
        if a == ('in', k, REQ) and not w:
            return False
        if a[0] in ('none', 'truthy') and a[1][0] in ('item', 'get') and a[1][1:3] == (REQ, k) and w == (a[0] == 'none'):
            return False
    return True if view.know(('in', k, REQ)) is True or view.any(lambda a, w: w and a[0] == 'truthy' and a[1] == ('item', REQ, k)) else None


def registered(ctx, done):
    """What is registered of URIs"""
    qual = f'{OA}.do_client_registration'
    R = ctx.run(qual, boundary=('verify_redirect_uris', 'split_uri', 'verify_url', 'import_client_keys', 'add_client_secret'), max_states=60000,
                budget=300.0)
    if R.limit:
        ctx.ob('uris', qual, None, 'exploration limit')
        return
    A = R.A
    norm = norm_of(A)
    memo, seen = {}, set()

    def n(t):
        if t not in memo:
            memo[t] = norm(t)
        return memo[t]
    for x in R.exits:
        if x.kind == 'exc':
            continue
        v = R.value(x)
        if v[0] == 'fresh':
            v = v[1]
        if v[0] != 'dict':
            continue
        facts = x.st.facts
        view = Facts(facts)
        last_set = {}
        for seg in v[2]:
            if seg[0] in ('set', 'del') and seg[1][0] == 'const':
                last_set[seg[1][2]] = seg[2] if seg[0] == 'set' else None
        for key in ('redirect_uris', 'post_logout_redirect_uri', 'request_uris') + VERIFIED[1:]:
            val = last_set.get(key)
            if val is None and key not in ('redirect_uris', 'post_logout_redirect_uri', 'request_uris'):
                continue
            if val is None:
                t = there(view, key)
                if key in last_set or t is False or t is None:
                    continue
                ok = False
            else:
                ok = right(A, n, view, key, n(val), facts)
            if ok is not True or (key, val) not in seen:
                seen.add((key, val))
                uniq(ctx, 'uris', done, qual, ok, f'{key} is registered without having been verified', R.where(x), fpath(facts.items()))


class Facts:
    def __init__(self, facts):
        self.facts = facts

    def know(self, a):
        return self.facts.get(a)

    def any(self, pred):
        return any(pred(a, w) for a, w in self.facts.items())


def right(A, n, view, key, val, facts):
    it = ('item', REQ, C(key))

    def clean(uri, part):
        return any(not w and a[0] == 'truthy' and a[1][0] == 'attr' and a[1][2] == part and last(a[1][1]) in ('urlparse', 'urlsplit') and n(
            args_of(a[1][1])[0][1]) == uri for a, w in facts_of(view))

    def facts_of(v):
        return v.facts.items()
    if key == 'redirect_uris':
        if last(val) == 'verify_redirect_uris':
            return arg(args_of(val), 0, 'registration_request') == REQ
        if mentions(val, it) and not any(mentions(a, lambda y: last(y) in ('urlparse', 'urlsplit')) for e, f, lids in each(
                A, val, tuple(facts.items())) for a, w in f if mentions(a, lambda y: y[0] == 'elem' and n(y[2]) == it)):
            return False
        return None if about(val) and val != it else False
    if key == 'post_logout_redirect_uri':
        return clean(it, 'fragment')
    if key == 'request_uris':
        ok = True
        for e, f, lids in each(A, val, tuple(facts.items())):
            if e is None or e[0] == 'all':
                ok = worst_of(ok, False if e and e[1] == it else None)
                continue
            v2 = Facts(dict(f))
            uri = [y for y in subterms(n(e)) if y[0] == 'elem' and n(y[2]) == it]
            ok = worst_of(ok, None if not uri else any(not w and a[0] == 'truthy' and a[1][0] == 'attr' and a[1][2] == 'query' and last(
                a[1][1]) in ('urlparse', 'urlsplit') and n(args_of(a[1][1])[0][1]) == uri[0] for a, w in f))
        return ok
    if view.any(lambda a, w: w and a[0] == 'truthy' and last(a[1]) == 'verify_url' and n(args_of(a[1])[0][1]) == it):
        return True
    return None if view.any(lambda a, w: last(a[1]) == 'verify_url' and about(args_of(a[1])[0][1]) and args_of(a[1])[0][1][0] not in (
        'item', 'get') if a[0] == 'truthy' and w else False) else False


# ---------------------------------------------------------------------- what is supported
def supported(ctx, done):
    qual = f'{OA}.match_claim'
    R = ctx.run(qual)
    norm = norm_of(R.A)
    p = ctx.repo.func(qual).params()
    claim, val = (('sym', y) for y in [q for q in p if q != 'self'][:2])
    info = ('attr', ('up', 'context', ''), 'provider_info')
    pref = ('attr', ('attr', ('up', 'context', ''), 'claims'), 'register2preferred')

    for x, v in () if R.limit else R.returns():
        view = R.view(x)
        v = norm(v)
        k = view.know((('in', claim, pref), True))
        keys = (('item', pref, claim),) if k else (claim,) if k is False else (('item', pref, claim), ('get', pref, claim, claim))
        mine = [('item', info, y) for y in keys]
        while v[0] in ('set', 'sorted'):
            v = v[1]
        if v == NONE:
            ok = True
        elif v == val:
            ok = view.any(lambda a, w: not w and a[0] == 'in' and a[1] in keys and a[2] == info or w and a[0] == 'in' and a[1] == val and
                          norm(a[2]) in mine and not view.any(lambda b, u: not u and b[0] == 'isinst' and b[1] == a[2]) or w and a[0] == 'eq' and val in a[1:3] and any(y in mine for y in a[1:3])
                          or w and a[0] == 'subset' and a[1] == val and norm(a[2]) in mine)
            if not ok and view.any(lambda a, w: mentions(a, val) and a[0] not in ('isinst', 'in', 'eq', 'truthy')):
                ok = None
        elif v[0] == 'inter':
            ok = val in v[1:] and any(y in mine for y in v[1:]) or None
        elif v[0] == 'list' and (es := list(each(R.A, v, tuple(view.facts.items())))) and all(e and e[0] == 'elem' for e, f, l in es):
            ok = all(norm(e[2]) == val and any(w and a[0] == 'in' and a[1] == e and norm(a[2]) in mine for a, w in f) or norm(
                e[2]) in mine and any(w and a[0] == 'in' and a[1] == e and norm(a[2]) == val for a, w in f) for e, f, l in es)
        else:
            ok = None if about(v) and v not in mine else False
        uniq(ctx, 'supported', done, qual, ok, 'a value is accepted that is not supported', R.where(x), R.path(x))
    qual = f'{OA}.filter_client_request'
    R = ctx.run(qual, boundary=('match_claim',))
    A = R.A
    norm = norm_of(A)
    req = ('sym', [q for q in ctx.repo.func(qual).params() if q != 'self'][0])
    for x, v in () if R.limit else R.returns():
        ok = None
        if v[0] == 'dict' and v[1] is None:
            ok = True
            for seg in v[2]:
                if seg[0] != 'many':
                    ok = worst_of(ok, None if seg[0] == 'upd' and seg[1] != req else False)
                    continue
                for facts, ev, segs in A.alts[seg[3]]:
                    view = View(A, list(facts))
                    for s in segs or ():
                        got = passed(view, norm, s, pref) if s[0] == 'set' else None
                        ok = worst_of(ok, got)
        elif v == req or v[0] == 'dict' and v[1] == req:
            ok = None if v != req and len(v[2]) else False
        uniq(ctx, 'supported', done, qual, ok, 'a claim is accepted without having been matched with what is supported', R.where(x), R.path(x))


def passed(view, norm, s, pref):
    k, v = norm(s[1]), norm(s[2])
    if last(v) == 'match_claim':
        return True if arg(args_of(v), 0, 'claim') == k else False
    if view.know((('in', k, pref), True)) is False:
        return True
    return None if view.any(lambda a, w: mentions(a, k) and a[0] not in ('truthy', 'in', 'eq', 'none', 'isinst', 'forall')) else False


def setup(ctx, done):
    """What a client is registered with is the filtered request."""
    qual = f'{OA}.client_registration_setup'
    R = ctx.run(qual, boundary=('do_client_registration', 'filter_client_request', 'add_client_secret'))
    if R.limit:
        ctx.ob('filtered', qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    n = 0
    for e in calls(R, 'do_client_registration'):
        n += 1
        d = dict(e.args)
        view = View(R.A, list(e.facts.items()))
        path = fpath(e.facts.items())
        t = norm(d.get('request', NONE))
        while t[0] in ('dict', 'fresh') and isinstance(t[1], tuple) and (t[0] == 'fresh' or all(s[0] == 'del' for s in t[2])):
            t = t[1]
        uniq(ctx, 'filtered', done, qual, last(t) == 'filter_client_request' and norm(arg(args_of(t), 0, 'request') or NONE) == REQ or (
            False if t == REQ else None), 'a client is registered with something that has not been compared with what is supported', e.where, path)
        uniq(ctx, 'checked', done, qual, view.any(lambda a, w: w and a[0] == 'checked' and a[1] == REQ), 'a client is registered with metadata '
             'that has not been checked', e.where, path)
        ign = d.get('ignore', NONE)
        ok = None
        if ign[0] in ('list', 'set', 'tuple'):
            got = {y[2] for y in subterms(ign) if y[0] == 'const'}
            ok = True if got >= set(VERIFIED) else None if about(ign) else False
        elif ign == NONE:
            ok = False
        uniq(ctx, 'ignored', done, qual, ok, 'URIs are registered without having been verified', e.where, path)
    if not n:
        ctx.ob('filtered', qual, None, 'nothing is registered')
    for e in R.A.log:
        if e.kind == 'call' and last(('call', e.name, ())) == 'add_symmetric':
            d = dict(e.args)
            who = [norm(v) for k, v in e.args if k != 'self'][:1]
            cid = [norm(dict(c.args).get('client_id', NONE)) for c in calls(R, 'do_client_registration')
                   if all(e.facts.get(a, w) == w for a, w in c.facts.items())]
            uniq(ctx, 'own-secret', done, qual, None if not who or not cid else who[0] in cid,
                 'the secret of a client is kept as that of another one', e.where, fpath(e.facts.items()))


def c40(ctx):
    done = set()
    for f in (whole, whole_op, redirects, registered, supported, setup):
        ctx.part(f, done)
