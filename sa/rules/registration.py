"""Explicit and automatic registration at the OP/AS (C21, C22)."""
import ast

from .base import *
from .abstract import about
from .collector import fpath
from .collector import uniq
from .marks import arg
from .metadata import CHAINS
from .metadata import args_of
from .metadata import chain_of
from .metadata import chains_of
from .metadata import from_metadata
from .metadata import last
from .metadata import same
from .metadata import worst

EXPLICIT = ('fedservice.appserver.oidc.registration.Registration',
            'fedservice.appserver.oauth2.registration.Registration')
AUTOMATIC = ('fedservice.appserver.oidc.authorization.Authorization',
             'fedservice.appserver.oauth2.authorization.Authorization',
             'fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization')
REGISTER = ('non_fed_process_request', 'step2_process_request', 'client_registration_setup')
KEYS = ('get_keys', 'import_client_keys')
EDGE = CHAINS + REGISTER + KEYS + ('verify_self_signed_signature', 'create_entity_statement', 'save_trust_chains',
                                   'store_trust_chains', 'get_authority_hints', 'get_stored_trust_chains',
                                   'get_trust_chains', 'new_cookie')


def params(ctx, qual):
    """The names of the parameters, without self."""
    f = ctx.repo.func(qual).node
    return [a.arg for a in f.args.args if a.arg not in ('self', 'cls')]


def calls(R, *names):
    """The distinct events that are calls of one of these."""
    seen = set()
    for e in R.A.log:
        if e.kind == 'call' and e.name.rpartition('.')[2] in names:
            k = (e.name, e.args, frozenset(e.facts.items()), e.where)
            if k not in seen:
                seen.add(k)
                yield e


def request_values(S, t):
    """Does it carry anything that the request says about itself, i.e. values in its metadata?"""
    if t[0] in ('item', 'get'):
        if t[:2] in (('item', S), ('get', S)) and t[2] == C('metadata') or t[1] == ('item', S, C('metadata')) or t[1] == ('get', S, C('metadata')):
            return True
        return request_values(S, t[1])
    if t[0] == 'keys' or t[0] == 'call' and last(t) in ('keys', 'set', 'len', 'list') and len(t[2]) == 1:
        return False
    if t[0] == 'dict':
        return bool(t[1]) and request_values(S, t[1]) or any(request_values(S, s[-1]) for s in t[2] if s[0] in (
            'set', 'upd') and isinstance(s[-1], tuple)) or any(request_values(S, s[2]) for s in t[2] if s[0] == 'many' and isinstance(
                s[2], tuple))
    if t[0] == 'call':
        return any(request_values(S, v) for k, v in t[2] if isinstance(v, tuple) and k != 'self')
    return False


def registered(A, view, t, who, S=None):
    """Is it the verified metadata of the entity, with nothing but its identifier added? True / False / None"""
    t = norm_of(A)(t)
    r = None
    if t[0] == 'dict':
        r = registered(A, view, t[1], who, S) if isinstance(t[1], tuple) and t[1] not in (NONE, ('dict', None, ())) \
            else True
        for s in t[2]:
            if s[0] == 'set':
                if s[1] == C('client_id'):
                    r = worst(r, is_who(view, s[2], who, S))
                elif s[2][0] == 'const':
                    continue
                elif S is not None and s[2] != S and part_of(s[2], S):
                    r = False
                else:
                    r = worst(r, from_metadata(A, view, s[2], who))
            elif s[0] == 'upd':
                r = worst(r, registered(A, view, s[1], who, S))
            elif s[0] != 'del':
                r = worst(r, None)
    elif t[0] in ('call', 'new') and any(k == '**' for k, v in t[2]):
        for k, v in t[2]:
            if k == 'self':
                continue
            if k == '**':
                r = worst(True if r is None else r, registered(A, view, v, who, S))
            elif k == 'client_id':
                r = worst(True if r is None else r, is_who(view, v, who, S))
            else:
                r = worst(r, None)
    elif last(t) in ('copy', 'deepcopy', 'to_dict', 'dict') and len(t[2]) == 1:
        r = registered(A, view, t[2][0][1], who, S)
    else:
        r = from_metadata(A, view, t, who)
    if S is not None and request_values(S, t):
        return False
    return r


def part_of(t, S):
    while t[0] in ('item', 'get'):
        t = t[1]
    return t == S


def named(t):
    """Is the client identifier among what is registered set, whatever the metadata has?"""
    if t[0] == 'dict':
        return any(s[0] == 'set' and s[1] == C('client_id') or s[0] == 'upd' and named(s[1]) for s in t[2]) or isinstance(
            t[1], tuple) and named(t[1])
    if t[0] in ('call', 'new'):
        return any(k == 'client_id' or k == '**' and named(v) or len(t[2]) == 1 and isinstance(v, tuple) and named(v) for k, v in t[2])
    return False


def nameless(A, view, e, t, ok, *who):
    """Registered as whoever the metadata says that it is?"""
    if ok is not True or named(t) or last(('call', e.name, ())) != 'non_fed_process_request':
        return ok
    if any(k in ('new_id', '**') and v not in (C(False), ('sym', 'kwargs')) for k, v in e.args):
        return None
    return None if any(mentions(norm_of(A)(v), lambda y: y in who) and v != t for k, v in e.args if isinstance(v, tuple) and norm_of(A)(v) != t) \
        or t[0] not in ('dict', 'call', 'new') else False


def from_chain(y):
    """The identifier that the metadata in a trust chain has"""
    if y[0] in ('item', 'get') and y[2] == C('client_id'):
        y = y[1]
        while y[0] in ('item', 'get'):
            y = y[1]
        return y[0] == 'attr' and y[2] == 'metadata'
    if last(y) == 'get' and arg([(k, v) for k, v in y[2] if k != 'self'], 0, 'key') == C('client_id'):
        return from_chain(('item', dict(y[2]).get('self', NONE), C('client_id')))
    return False


def is_who(view, t, who, S=None):
    """As same, but other identifiers are not mistaken for something that is not understood."""
    r = same(view, t, who)
    if r is None and t is not None:
        if t[0] == 'attr' and t[2] in ('anchor', 'entity_id') or t[0] == 'up' or t[0] in ('item', 'get') and t[2][0] == \
                'const' and t[2] not in (C('sub'), C('iss')) and (t[1] == S or S is not None and request_values(S, t)):
            return False
        if from_chain(t):
            return False
    return r


def about_request(t):
    """An unverified reading of a token"""
    return mentions(t, lambda y: y[0] == 'payload')


def subject(S):
    return ('item', S, C('sub')), ('item', S, C('iss'))


def is_subject(view, t, S):
    """The subject of the request, which is the one who issued it."""
    sub, iss = subject(S)
    return worst(*[True if t in (sub, iss) or t in (('get', S, C('sub')), ('get', S, C('iss'))) else is_who(view, t, sub, S)])


def explicit(ctx, done, cls):
    qual = cls + '.process_request'
    req = ('sym', params(ctx, qual)[0])
    R = ctx.run(qual, boundary=EDGE)
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('explicit', qual, None, 'exploration limit')
        return
    S = None
    for e in calls(R, 'verify_self_signed_signature'):
        v = arg([a for a in e.args if a[0] != 'self'], 0, 'statement')
        if v is not None and norm(v) == req:
            S = ('call', e.name, e.args)
            break
    sinks = [(e, arg([a for a in e.args if a[0] != 'self'], 0, 'req', 'request')) for e in calls(R, *REGISTER)]
    if not sinks:
        ctx.ob('verified-metadata', qual, None, 'nothing is registered')
        return
    if S is None:
        lax = any(about_request(norm(x)) for e, x in sinks if x is not None)
        ctx.ob('request-verified', qual, False if lax else None, 'the signature on the request is not verified',
               sinks[0][0].where)
        return
    for e, x in sinks:
        view = View(A, list(e.facts.items()))
        if x is None:
            uniq(ctx, 'verified-metadata', done, qual, None, 'what is registered is not known', e.where, fpath(e.facts.items()))
            continue
        x = norm(x)
        uniq(ctx, 'request-verified', done, qual, False if about_request(x) else True,
             'registration on behalf of an unverified request', e.where, fpath(e.facts.items()))
        sub, iss = subject(S)
        ok = registered(A, view, x, sub, S)
        if ok is not True and ok is not None and registered(A, view, x, iss, S) and view.know(a_eq(sub, iss)) is True:
            ok = True
        ok = nameless(A, view, e, x, ok, sub, iss)
        uniq(ctx, 'verified-metadata', done, qual, ok,
             'what is registered is not the policy adjusted metadata of the one who asks', e.where, fpath(e.facts.items()))
    # the response
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        msg = value_of(v, 'response_msg')
        n += 1
        if msg is None:
            left = v[0] != 'dict' and any(y[0] == 'call' and last(y) in REGISTER for y in [v]) and view.know(
                a_in(C('response_args'), v)) is not False
            plain = v[0] == 'dict' and v[1] and last(v[1]) in REGISTER and view.know(a_in(C('response_args'), v[1]))
            gone = any(s[0] == 'del' for s in v[2]) if v[0] == 'dict' else False
            ok = False if left or plain is True and not gone else (True if v[0] == 'call' else None)
            uniq(ctx, 'signed-response', done, qual, ok, 'the response is not an entity statement', R.where(x), R.path(x))
            continue
        if last(msg) != 'create_entity_statement':
            uniq(ctx, 'signed-response', done, qual, None if about(msg) and msg[0] != 'dict' else False,
                 'the response is not an entity statement', R.where(x), R.path(x))
            continue
        a = args_of(msg)
        by = arg(a, 0, 'iss')
        to = arg(a, 1, 'sub')
        aud = arg(a, 3, 'aud')
        own = by is not None and mine(by)
        uniq(ctx, 'signed-response', done, qual, own, 'the issuer of the response is not the OP/AS itself',
             R.where(x), R.path(x))
        for what, y in (('subject', to), ('audience', aud)):
            ok = False if y is None else is_subject(view, listed(y), S)
            uniq(ctx, 'response-to-requester', done, qual, ok, f'the {what} of the response is not the one who asked',
                 R.where(x), R.path(x))
        ta = arg(a, 9, 'trust_anchor_id')
        used = [norm(z) for e, z in sinks if z is not None]
        uniq(ctx, 'trust-anchor-named', done, qual, anchor_of_used(A, view, ta, used),
             'the response does not name the trust anchor of the trust chain that was used', R.where(x), R.path(x))
        md = arg(a, 9, 'metadata')
        if md is not None and request_values(S, norm(md)):
            uniq(ctx, 'signed-response', done, qual, False, 'the response repeats what the request says',
                 R.where(x), R.path(x))
    if not n:
        ctx.ob('signed-response', qual, None, 'nothing is returned')


def listed(t):
    """The one thing in a list with one thing"""
    if t[0] == 'list' and len(t[1]) == 1 and t[1][0][0] == 'item':
        return t[1][0][1]
    return t


def mine(t):
    """Is it my own entity identifier?"""
    if t == ('up', 'attribute', 'entity_id'):
        return True
    if t[0] == 'attr' and t[2] == 'entity_id':
        return True if t[1][0] in ('up', 'self', 'attr', 'fed', 'top') or not about(t[1]) else None
    if t[0] == 'const' or mentions(t, lambda y: last(y) == 'verify_self_signed_signature'):
        return False
    return None


def anchor_of_used(A, view, ta, used):
    """Is it the trust anchor of the trust chain that the registered metadata was taken from?"""
    if ta is None or ta == C('') or ta == NONE:
        return False
    ta = norm_of(A)(ta)
    chains = [z for u in used for z in subterms(u) if z[0] == 'attr' and z[2] == 'metadata']
    if ta[0] == 'attr' and ta[2] == 'anchor':
        if any(z[1] == ta[1] for z in chains):
            return True
        return None if about(ta) and not chains else False
    if ta[0] == 'item' and ta[1][0] == 'attr' and ta[1][2] == 'iss_path' and ta[2] == C(-1):
        return True if any(z[1] == ta[1][1] for z in chains) else None
    if ta[0] == 'call' and last(ta) == 'verify_self_signed_signature' or mentions(
            ta, lambda y: last(y) == 'verify_self_signed_signature') and not mentions(ta, lambda y: y[0] == 'attr'):
        return False
    return None


def value_of(t, key):
    """The value of a key in a dictionary"""
    if t[0] == 'dict':
        for s in reversed(t[2]):
            if s[0] == 'set' and s[1] == C(key):
                return s[2]
            if s[0] != 'set' and s[0] != 'del':
                return None
    return None


def is_cdb(t):
    """The client database"""
    while t[0] in ('dict', 'fresh') and t[1]:
        t = t[1]
    return t[0] == 'attr' and t[2] == 'cdb'


def handed_over(ctx, done):
    """What is registered, and under which identifier, is what non_fed_process_request got."""
    qual = EXPLICIT[0] + '.non_fed_process_request'
    req = ('sym', params(ctx, qual)[0])
    R = ctx.run(qual)
    n = 0
    for e in calls(R, 'process_request', 'client_registration_setup'):
        n += 1
        a = [(k, norm_of(R.A)(v)) for k, v in e.args if isinstance(v, tuple)]
        got = [v for k, v in a]
        uniq(ctx, 'same-metadata', done, qual, req in got or (None if any(mentions(v, req) for v in got) else False),
             'something else than the verified metadata is registered', e.where, fpath(e.facts.items()))
        new = dict(a).get('new_id')
        view = View(R.A, list(e.facts.items()))
        if new is None:
            given = view.know(a_in(C('new_id'), ('sym', 'kwargs')))
            uniq(ctx, 'own-identifier', done, qual, given, 'a client is registered under some other identifier', e.where,
                 fpath(e.facts.items()))
        elif new[0] == 'const' and new[2]:
            uniq(ctx, 'own-identifier', done, qual, False, 'a client is registered under some other identifier', e.where,
                 fpath(e.facts.items()))
        else:
            uniq(ctx, 'own-identifier', done, qual, True, '', e.where)
    if not n:
        ctx.ob('same-metadata', qual, None, 'registration is not done here')


def setup(ctx, done):
    """One identifier is used all through the registration of an OAuth2 client."""
    qual = EXPLICIT[1] + '.client_registration_setup'
    R = ctx.run(qual, boundary=('do_client_registration', 'filter_client_request', 'add_client_secret'))
    A = R.A
    norm = norm_of(A)
    n = 0
    if R.limit:
        ctx.ob('one-identifier', qual, None, 'exploration limit')
        return
    for e in A.log:
        a = dict((k, norm(v)) for k, v in e.args if isinstance(v, tuple))
        cid = None
        if e.kind == 'mut' and e.name == '[]=' and is_cdb(a['target']):
            cid = a['key']
        elif e.kind == 'call' and e.name.rpartition('.')[2] in ('do_client_registration', 'add_client_secret'):
            cid = arg([x for x in a.items() if x[0] != 'self'], 1, 'client_id')
        elif e.kind == 'call' and e.name.rpartition('.')[2] == 'add_symmetric':
            cid = arg([x for x in a.items() if x[0] != 'self'], 0, 'issuer_id')
        if cid is None:
            continue
        n += 1
        view = View(A, list(e.facts.items()))
        new = view.know(a_truthy(('sym', 'new_id')))
        req = ('sym', params(ctx, qual)[0])
        from_req = cid[0] in ('item', 'get') and cid[2] == C('client_id') and mentions(cid[1], req)
        made = cid[0] == 'call' and not from_req and any(k == 'reserved' for k, v in cid[2])
        ok = True if from_req and new is False or made and new is True else None if about(cid) else False
        if cid[0] in ('item', 'get') and cid[2] != C('client_id') and cid[2][0] == 'const' and mentions(cid[1], req):
            ok = False
        if made and new is False or from_req and new is True:
            ok = False
        uniq(ctx, 'one-identifier', done, f'{qual} {e.name}', ok, 'not the identifier of the client', e.where,
             fpath(e.facts.items()))
    if not n:
        ctx.ob('one-identifier', qual, None, 'nothing is stored')


def client_keys(ctx, done):
    """Syntactic: the function has too many paths, and what is asked for does not depend on them."""
    qual = EXPLICIT[1] + '.do_client_registration'
    f = ctx.repo.func(qual)
    names = params(ctx, qual)
    changed = {t.id for t in ast.walk(f.node) if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del))}
    n = 0
    for c in ast.walk(f.node):
        if not isinstance(c, ast.Call) or getattr(c.func, 'id', getattr(c.func, 'attr', '')) != 'import_client_keys':
            continue
        n += 1
        given = dict(enumerate(c.args))
        given.update({k.arg: k.value for k in c.keywords})
        for i, name, want, why in ((0, 'information', names[0], "the keys are someone else's"),
                                   (2, 'entity_id', names[1], 'the keys are stored for someone else')):
            v = given.get(name, given.get(i))
            if isinstance(v, ast.Name) and v.id not in changed:
                ok = v.id == want
            else:
                ok = False if isinstance(v, ast.Constant) else None
            uniq(ctx, 'keys-of-the-client', done, qual, ok, why, f'{f.module.path}:{c.lineno}')
    if not n:
        ctx.ob('keys-of-the-client', qual, None, 'no keys are imported')


def c21(ctx):
    done = set()
    for cls in EXPLICIT:
        ctx.part(explicit, done, cls)
    for f in (handed_over, setup, client_keys):
        ctx.part(f, done)


# ---------------------------------------------------------------------- C22
def automatic(ctx, done, cls):
    qual = cls + '.do_automatic_registration'
    who = ('sym', params(ctx, qual)[0])
    R = ctx.run(qual, boundary=EDGE)
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('verified-chain', qual, None, 'exploration limit')
        return
    n = 0
    for e in calls(R, *REGISTER):
        n += 1
        view = View(A, list(e.facts.items()))
        x = arg([a for a in e.args if a[0] != 'self'], 0, 'req', 'request')
        ok = registered(A, view, x, who) if x is not None else None
        if ok is True:
            ok = nameless(A, view, e, norm(x), ok, who)
        uniq(ctx, 'verified-chain', done, qual, ok if ok in (True, False) else None,
             'what is registered does not come from a verified trust chain of the client', e.where, fpath(e.facts.items()))
        cid = client_id_of(norm(x)) if x is not None else None
        if cid and cid[0] == 'item' and cid[2] == C('client_id') and same(view, cid, who) is not True and mentions(
                cid[1], lambda y: y[0] == 'attr' and y[2] == 'metadata'):
            cid = False
        uniq(ctx, 'own-identifier', done, qual, False if cid is False else None if cid is None else is_who(view, cid, who),
             'the client is registered under another identifier', e.where, fpath(e.facts.items()))
    if not n:
        ctx.ob('verified-chain', qual, None, 'nothing is registered')
    for e in calls(R, *KEYS):
        view = View(A, list(e.facts.items()))
        a = [x for x in e.args if x[0] != 'self']
        md, kj, to = arg(a, 0, 'metadata', 'information'), arg(a, 1, 'keyjar'), arg(a, 2, 'entity_id')
        uniq(ctx, 'verified-keys', done, qual, registered(A, view, md, who) if md is not None else None,
             'keys are imported that do not come from a verified trust chain of the client', e.where,
             fpath(e.facts.items()))
        uniq(ctx, 'keys-of-the-client', done, qual, is_who(view, norm(to), who) if to is not None else None,
             'the keys are stored under another identifier', e.where, fpath(e.facts.items()))
    for e in A.log:
        # keys that are imported directly
        name = e.name.rpartition('.')[2]
        if e.kind not in ('call', 'mut') or name not in ('add_url', 'import_jwks', 'add_kb', 'add_keys', 'import_jwks_as_json',
                                                         'add_symmetric', 'load_keys'):
            continue
        view = View(A, list(e.facts.items()))
        vs = [norm(v) for k, v in e.args if isinstance(v, tuple) and k not in ('self', 'target', 'keyjar')]
        to = who in vs or any(is_who(view, v, who) is True for v in vs)
        src = [from_metadata(A, view, v, who) for v in vs if v != who]
        ok = worst(True if to else False, True if True in src else worst(None, *src))
        uniq(ctx, 'verified-keys', done, qual, ok, 'keys are not those in a verified trust chain of the client', e.where,
             fpath(e.facts.items()))
    for e in calls(R, 'store_trust_chains'):
        view = View(A, list(e.facts.items()))
        a = [x for x in e.args if x[0] != 'self']
        to, tc = arg(a, 0, 'entity_id'), arg(a, 1, 'chains')
        ok = worst(is_who(view, norm(to), who), chains_of(A, view, norm(tc), who)) if to and tc else None
        uniq(ctx, 'verified-chain', done, qual, ok if ok in (True, False) else False if ok == 'provided' else None,
             'the trust chains that are stored are not verified ones of the client', e.where, fpath(e.facts.items()))
    m = 0
    for x, v in R.returns():
        m += 1
        v = norm(v)
        view = R.view(x)
        made = v == NONE or any(last(y) in REGISTER for y in subterms(v))
        uniq(ctx, 'refused-otherwise', done, qual, True if made else None if about(v) else False,
             'an identifier is returned though nothing has been registered', R.where(x), R.path(x))
    if not m:
        ctx.ob('refused-otherwise', qual, None, 'nothing is returned')


def client_id_of(t):
    """The client identifier in what is registered: a term, False if there is none, None if unknown"""
    if t[0] == 'dict':
        for s in reversed(t[2]):
            if s[0] == 'set' and s[1] == C('client_id'):
                return s[2]
            if s[0] not in ('set', 'del'):
                return None
        return client_id_of(t[1]) if t[1] else False
    if t[0] in ('call', 'new'):
        d = dict(t[2])
        if 'client_id' in d:
            return d['client_id']
        if '**' in d:
            return client_id_of(d['**'])
        if len(t[2]) == 1 and last(t) in ('copy', 'deepcopy', 'dict'):
            return client_id_of(t[2][0][1])
    if t[0] == 'item' and t[1][0] == 'attr' and t[1][2] == 'metadata':
        return False
    return None


def auto_call(t, cid):
    """The result of the automatic registration of the client"""
    return last(t) == 'do_automatic_registration' and arg(args_of(t), 0, 'client_entity_id', 'entity_id') == cid


def authenticated(ctx, done, cls):
    """An unknown client has been registered before anything is made of its request."""
    qual = cls + '.client_authentication'
    req = ('sym', params(ctx, qual)[0])
    cid = ('item', req, C('client_id'))
    R = ctx.run(qual, boundary=('do_automatic_registration', 'get_endpoint'))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('registered-first', qual, None, 'exploration limit')
        return
    for e in calls(R, 'do_automatic_registration'):
        who = arg([x for x in e.args if x[0] != 'self'], 0, 'client_entity_id', 'entity_id')
        view = View(A, list(e.facts.items()))
        tc = arg([x for x in e.args if x[0] != 'self'], 1, 'provided_trust_chain')
        uniq(ctx, 'registered-first', done, qual, is_who(view, norm(who), cid) if who is not None else None,
             'somebody else is registered', e.where, fpath(e.facts.items()))
    n = 0
    for e in calls(R, 'client_authentication'):
        if e.name.startswith(cls):
            continue
        n += 1
        view = View(A, list(e.facts.items()))
        reg = [y for a, w in view.facts.items() for y in subterms(a) if last(y) == 'do_automatic_registration']
        ok = False
        if any(auto_call(norm(y), cid) for y in reg):
            ys = [y for y in reg if auto_call(norm(y), cid)]
            ok = any(view.know(a_none(y)) is False or view.know(a_truthy(y)) is True for y in ys)
            ok = ok or (None if unsure(view, ys) else False)
        elif known_client(view, cid):
            ok = True
        elif unsure(view, [cid]):
            ok = None
        uniq(ctx, 'registered-first', done, qual, ok, 'a client that is not known and has not been registered', e.where,
             fpath(e.facts.items()))
    if not n:
        ctx.ob('registered-first', qual, None, 'clients are not authenticated here')
    for x, v in R.returns():
        v = norm(v)
        if value_of(v, 'error') is not None:
            ok = True
        elif last(v) == 'client_authentication' and not v[1].startswith(cls):
            ok = True
        else:
            ok = None if about(v) and v[0] not in ('dict', 'sym') and v != req else False
        uniq(ctx, 'authenticated', done, qual, ok, 'a client is let in without the authentication of clients', R.where(x), R.path(x))


def known_client(view, cid):
    """There is information about it in the client database."""
    for a, w in view.facts.items():
        if a[0] in ('none', 'truthy') and a[1][0] in ('item', 'get') and is_cdb(a[1][1]) and a[1][2] == cid and \
                w is (a[0] == 'truthy'):
            return True
        if a[0] == 'in' and w and is_cdb(a[2]) and a[1] == cid:
            return view.know(a_none(('item', a[2], cid))) is not True and view.know(
                a_truthy(('item', a[2], cid))) is not False
    return False


def unsure(view, terms):
    return view.any(lambda a, w: a[0] not in ('in', 'none', 'truthy', 'eq', 'completed') and any(
        mentions(a, t) for t in terms) or a[0] == 'truthy' and a[1][0] == 'call' and last(
        a[1]) != 'do_automatic_registration' and any(mentions(a, t) for t in terms))


def keys_found(ctx, done, cls):
    """Keys of an issuer are looked for by registering that issuer."""
    qual = cls + '.find_client_keys'
    iss = ('sym', params(ctx, qual)[0])
    R = ctx.run(qual, boundary=('do_automatic_registration',))
    norm = norm_of(R.A)
    n = 0
    for e in calls(R, 'do_automatic_registration'):
        n += 1
        a = [x for x in e.args if x[0] != 'self']
        who, tc = arg(a, 0, 'client_entity_id', 'entity_id'), arg(a, 1, 'provided_trust_chain')
        uniq(ctx, 'keys-of-the-client', done, qual, is_who(View(R.A, list(e.facts.items())), norm(who), iss),
             'somebody else is registered', e.where, fpath(e.facts.items()))
    if not n:
        ctx.ob('keys-of-the-client', qual, None, 'nothing is registered')


def imports(ctx, done, qual):
    """Keys are stored under the identifier that was given and are those that are in the metadata."""
    p = params(ctx, qual)
    md, to = ('sym', p[0]), ('sym', p[2])
    R = ctx.run(qual, boundary=('get_verified_jwks',))
    norm = norm_of(R.A)
    n = 0
    for e in R.A.log:
        name = e.name.rpartition('.')[2]
        if e.kind not in ('call', 'mut') or name not in ('add_url', 'import_jwks', 'add', 'add_kb', 'add_keys',
                                                         'import_jwks_as_json', 'load_keys'):
            continue
        n += 1
        vs = [norm(v) for k, v in e.args if isinstance(v, tuple) and k not in ('self', 'target', 'keyjar')]
        rest = [v for v in vs if v != to]
        uniq(ctx, 'keys-of-the-client', done, f'{qual} {name}', to in vs or (None if any(mentions(v, to) for v in vs)
                                                                            else False),
             'the keys are stored under another identifier', e.where, fpath(e.facts.items()))
        uniq(ctx, 'verified-keys', done, f'{qual} {name}', all(v[0] == 'const' or mentions(v, md) for v in rest) or (
            None if any(about(v) for v in rest) else False), 'the keys are not those in the metadata', e.where,
            fpath(e.facts.items()))
    if not n:
        ctx.ob('keys-of-the-client', qual, None, 'no keys are stored')


def c22(ctx):
    done = set()
    for cls in AUTOMATIC:
        ctx.part(automatic, done, cls)
        ctx.part(authenticated, done, cls)
        ctx.part(keys_found, done, cls)
    ctx.part(imports, done, 'fedservice.appserver.import_client_keys')
    ctx.part(imports, done, 'fedservice.entity.utils.get_keys')


# ---------------------------------------------------------------------- C23
CLIENT = ('fedservice.appclient.oidc.registration.Registration', 'fedservice.appclient.oauth2.registration.Registration')
ME = ('up', 'attribute', 'entity_id')


def me(t):
    return t == ME or t[0] == 'attr' and t[2] == 'entity_id' and t[1][0] in ('FE', 'self', 'up')


def led_to(A, view, t, ta):
    """Trust chains that are known to lead to the trust anchor: the list they are taken from.  None if not restricted"""
    norm = norm_of(A)
    t = norm(t)
    if t[0] != 'list':
        return None
    doms = set()
    for val, facts, lids in each(A, t):
        if not lids or val[0] != 'elem' and not (val[0] == 'item' and val[1][0] == 'elem'):
            return None
        e = norm(val)
        if view.plus(facts).know(a_eq(('attr', e, 'anchor'), ta)) is not True:
            return None
        doms.add(norm(lids[-1][1]))
    return doms.pop() if len(doms) == 1 else None


def filtered(A, view, t):
    """As led_to, the list it is made from, whatever the condition."""
    doms = set()
    for val, facts, lids in each(A, t):
        if not lids:
            return t
        doms.add(norm_of(A)(lids[-1][1]))
    return doms.pop() if len(doms) == 1 else t


def nonempty(view, n):
    """Is the number known to be positive?"""
    for a, w in view.facts.items():
        if a[0] == 'eq' and n in a[1:]:
            o = a[1] if a[2] == n else a[2]
            if o[0] == 'const' and isinstance(o[2], int) and (w and o[2] > 0 or not w and o[2] == 0):
                return True
        if a[0] == 'lt' and w and a[2] == n and a[1][0] == 'const' and a[1][2] >= 0:
            return True
        if a[0] == 'lt' and not w and a[1] == n and a[2][0] == 'const' and a[2][2] > 0:
            return True
    return False


def anchored(A, view, ta, good, value=None):
    """There is one among the trust chains for which good() holds that leads to the trust anchor.  True / False / None"""
    norm = norm_of(A)
    r = None
    facts = list(view.facts.items())
    terms = [y for a, w in facts for y in subterms(a)] + (list(subterms(value)) if value is not None else [])
    seen = False
    for a, w in facts:
        if a[0] == 'eq' and w and ta in a[1:]:
            o = a[1] if a[2] == ta else a[2]
            if o[0] == 'attr' and o[2] == 'anchor' and o[1][0] in ('elem', 'item'):
                src = norm(o[1][2] if o[1][0] == 'elem' else o[1][1])
                if good(src):
                    return True
                r = False
        if a[0] == 'in' and w and a[1] == ta and a[2][0] == 'list':
            for val, fs, lids in each(A, a[2]):
                val = norm(val)
                if lids and val[0] == 'attr' and val[2] == 'anchor' and val[1][0] == 'elem' and good(norm(lids[-1][1])):
                    return True
        if a[0] == 'truthy' and w and a[1][0] == 'list':
            src = led_to(A, view, a[1], ta)
            if src is not None and good(src):
                return True
    for y in terms:
        if y[0] == 'len' and view.any(lambda a, w: a[0] in ('eq', 'lt') and mentions(a, y)):
            src = led_to(A, view, y[1], ta)
            if src is not None and good(src) and nonempty(view, y):
                return True
        if y[0] == 'item' and y[1][0] == 'list':
            src = led_to(A, view, y[1], ta)
            if src is not None and good(src):
                return True
    # something else that is done with the trust chains?
    for a, w in facts:
        if a[0] in ('in', 'none', 'len', 'completed'):
            continue
        if a[0] == 'truthy' and (good(a[1]) or a[1][0] in ('list', 'item')):
            continue
        if a[0] in ('eq', 'lt') and any(y[0] == 'len' for y in a[1:] if isinstance(y, tuple)):
            continue
        if a[0] == 'forall' and led_to(A, view, ('list', ('many', a[1], a[2], a[3])), ta) is None and not good(norm(a[2])):
            continue
        if any(good(y) for y in subterms(a)):
            return None
    return False


def response(ctx, done, cls):
    qual = cls + '.parse_federation_registration_response'
    resp = ('sym', params(ctx, qual)[0])
    R = ctx.run(qual, boundary=('verify_self_signed_signature', 'get_federation_entity') + CHAINS)
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('response', qual, None, 'exploration limit')
        return
    S = None
    for e in calls(R, 'verify_self_signed_signature'):
        v = arg([a for a in e.args if a[0] != 'self'], 0, 'statement')
        if v is not None and norm(v) == resp:
            S = ('call', e.name, e.args)
    n = 0
    for x, v in R.returns():
        v = norm(v)
        if v[0] == 'const' and not v[2] or v == NONE:
            continue
        n += 1
        view = R.view(x)
        at, path = R.where(x), R.path(x)
        if S is None or not view.any(lambda a, w: mentions(a, S)):
            lax = mentions(v, lambda y: y[0] == 'payload') or view.any(lambda a, w: mentions(a, lambda y: y[0] == 'payload'))
            uniq(ctx, 'response-verified', done, qual, False if lax else None, 'the signature of the response is not verified',
                 at, path)
            continue
        uniq(ctx, 'response-verified', done, qual, True, '', at)
        ta = ('item', S, C('trust_anchor_id'))
        tas = (ta, ('get', S, C('trust_anchor_id')))
        ok = view.any(lambda a, w: a[0] == 'in' and w and a[1] in tas and configured_anchors(a[2]))
        if not ok:
            ok = None if view.any(lambda a, w: a[0] in ('eq', 'forall', 'truthy') and any(mentions(a, t) for t in tas) and
                                  mentions(a, lambda y: y[0] == 'attr' and y[2] == 'trust_anchors')) else False
        uniq(ctx, 'configured-anchor', done, qual, ok, 'the trust anchor that the response names is not one I have been '
             'configured with', at, path)
        if service(view, v):
            continue
        iss = ('item', S, C('iss'))

        def of_op(t):
            return chains_of(A, view, t, iss, False) is True or op_provided(A, view, t, iss)

        def of_me(t):
            return own_with(A, t, resp)

        uniq(ctx, 'op-is-trusted', done, qual, anchored(A, view, ta, of_op), 'the issuer of the response has no verified '
             'trust chain to that trust anchor', at, path)
        uniq(ctx, 'end-of-own-chain', done, qual, anchored(A, view, ta, of_me, v),
             "the response is not verified at the end of the client's own trust chain to that trust anchor", at, path)
        b = v
        while b[0] == 'item' or last(b) in ('get', 'copy', 'deepcopy', 'dict') and b[2]:
            b = b[1] if b[0] == 'item' else b[2][0][1]
        ok = None
        if request_values(S, v) or mentions(v, lambda y: y[0] == 'attr' and y[2] in ('verified_chain', 'chain')):
            ok = False
        elif b[0] == 'attr' and b[2] == 'metadata':
            ok = own_chain(A, view, b[1])
        uniq(ctx, 'policies-applied', done, qual, ok, 'the client goes by something else than the policy adjusted metadata '
             'in its own trust chain', at, path)
        if ok is True:
            uniq(ctx, 'chain-to-that-anchor', done, qual, chain_to(A, view, b[1], tas), 'the metadata is that of a trust chain of the '
                 'client that need not lead to the trust anchor in the response', at, path)
    if not n:
        ctx.ob('response-verified', qual, None, 'nothing is returned')
    for e in A.log:
        if e.kind != 'setattr' or e.name != 'registration_response':
            continue
        v = norm(dict(e.args)['value'])
        ok = False if S is not None and (request_values(S, v) or v == S) or v == resp else True if any(
            y[0] == 'attr' and y[2] == 'metadata' for y in subterms(v)) else None
        uniq(ctx, 'policies-applied', done, qual, ok, 'the client remembers something else than the policy adjusted metadata', e.where,
             fpath(e.facts.items()))


def op_provided(A, view, t, iss):
    t = norm_of(A)(t)
    if last(t) != 'verify_trust_chains':
        return False
    c = arg(args_of(t), 1, 'chains')
    return bool(c) and c[0] == 'item' and last(c[1]) == 'collect_trust_chains' and arg(
        args_of(c[1]), 1, 'entity_id') == iss


def own_with(A, t, resp):
    """My own trust chains with the response at the end"""
    t = norm_of(A)(t)
    while last(t) == 'apply_policies':
        t = norm_of(A)(arg(args_of(t), 1, 'trust_chains'))
    if last(t) != 'verify_trust_chains':
        return False
    a = args_of(t)
    c = arg(a, 1, 'chains')
    if not c or c[0] != 'item' or last(c[1]) != 'collect_trust_chains':
        return False
    who = arg(args_of(c[1]), 1, 'entity_id')
    return who is not None and me(who) and any(v == resp for k, v in a if k not in ('unit', 'chains'))


def own_chain(A, view, t):
    """One of my own trust chains, with the policies applied"""
    norm = norm_of(A)
    t = norm(t)
    if last(t) == 'pick_trust_chain':
        t = ('item', arg(args_of(t), 0, 'trust_chains'), C(0))
    if t[0] not in ('item', 'elem'):
        return None
    x = norm(t[1] if t[0] == 'item' else t[2])
    done = any(last(y) == 'apply_policies' for y in (x, filtered(A, view, x)))
    x = filtered(A, view, x)
    while last(x) == 'apply_policies':
        x = filtered(A, view, norm(arg(args_of(x), 1, 'trust_chains')))
    n = last(x)
    if n == 'verify_trust_chains' and not done and not any(
            e.kind == 'call' and e.name.rpartition('.')[2] == 'apply_policies' for e in A.log):
        return False
    who = None
    if n == 'get_verified_trust_chains':
        who = arg(args_of(x), 1, 'entity_id')
    elif n == 'verify_trust_chains':
        c = arg(args_of(x), 1, 'chains')
        if c and c[0] == 'item' and last(c[1]) == 'collect_trust_chains':
            who = arg(args_of(c[1]), 1, 'entity_id')
    if who is None:
        return None
    return True if me(who) else False if who[0] == 'item' and last(who[1]) == 'verify_self_signed_signature' else None


def chain_to(A, view, t, tas):
    """Does the trust chain lead to the trust anchor?"""
    norm = norm_of(A)
    t = norm(t)
    if any(view.know(a_eq(('attr', t, 'anchor'), ta)) is True for ta in tas):
        return True
    if last(t) == 'pick_trust_chain':
        t = ('item', arg(args_of(t), 0, 'trust_chains'), C(0))
    if t[0] not in ('item', 'elem'):
        return None
    x = norm(t[1] if t[0] == 'item' else t[2])
    while last(x) == 'apply_policies':
        x = norm(arg(args_of(x), 1, 'trust_chains'))
        if any(view.know(a_eq(('attr', ('item', x, t[2]), 'anchor'), ta)) is True for ta in tas if t[0] == 'item'):
            return True
    if any(led_to(A, view, x, ta) is not None for ta in tas):
        return True
    if last(x) in ('get_verified_trust_chains', 'verify_trust_chains') and not view.any(lambda a, w: any(
            y[0] == 'attr' and y[2] in ('anchor', 'iss_path', 'verified_chain') and mentions(y[1], x) for y in subterms(a))):
        stop = arg(args_of(x), 9, 'stop_at')
        return False if stop is None or stop not in tas else None
    return None


def configured_anchors(t):
    while t[0] in ('keys', 'set', 'deep') or t[0] == 'call' and last(t) in ('keys', 'list') and t[2]:
        t = t[1] if t[0] != 'call' else t[2][0][1]
    return t[0] == 'attr' and t[2] == 'trust_anchors'


def service(view, v):
    """It is what the metadata verification service, that has been configured, says."""
    return last(v) == 'metadata_verifier' and view.know(a_truthy(v)) is True


def c23(ctx):
    done = set()
    for cls in CLIENT:
        ctx.part(response, done, cls)
