"""Federation requests ask the party concerned, and no one else, for what the caller wants (C43)."""
from .abstract import *
from .collector import fpath
from .collector import uniq
from .metadata import last
from .superiors import args_of
from .superiors import in_cache

CL = 'fedservice.entity.client.'
CONFIG = CL + 'entity_configuration.EntityConfiguration.get_request_parameters'
STATEMENT = CL + 'entity_statement.EntityStatement.get_request_parameters'
LIST = CL + 'list.List.get_request_parameters'
RESOLVE = CL + 'resolve.Resolve.get_request_parameters'
STATUS = CL + 'trust_mark_status.TrustMarkStatus.get_request_parameters'
HOLDERS = CL + 'trust_mark_list.TrustMarkList.get_request_parameters'
MARK = CL + 'trust_mark.TrustMark'
CLIENT = CL + 'FederationClient.'
ARGS, KW = ('sym', 'request_args'), ('sym', 'kwargs')
FILTERS = ('entity_type', 'trust_marked', 'trust_mark_id', 'intermediate')


def some(ctx, what, n):
    if not n:
        ctx.ob('request-understood', what, None, 'there is none that is recognised')


def item(t, k):
    return ('item', t, C(k))


def url_of(v):
    """-> the URL of what get_request_parameters returns"""
    if v[0] != 'dict' or v[1] is not None:
        return None
    for s in reversed(v[2]):
        if s[0] != 'set':
            return None
        if s[1] == C('url'):
            return s[2]


def split(u):
    """-> (endpoint, the dictionary that is the query)"""
    if u[0] == 'call' and last(u) == 'request':
        d = args_of(u)
        e = d.get('0', d.get('location'))
        return (e, d.get('self')) if e is not None else None
    if u[0] == 'fstr':
        p = [x for x in u[1:] if x != C('')]
        if len(p) == 1:
            return p[0], None
        if len(p) == 3 and p[1] == C('?') and p[2][0] == 'call' and last(p[2]) == 'urlencode':
            q = args_of(p[2]).get('0')
            return (p[0], q) if q is not None else None
        return None
    if u[0] in ('sym', 'item', 'get') or u[0] == 'call' and last(u) == 'get_verified_endpoint':
        return u, None


def query(A, q, view):
    """-> ({name: value}, base term or None), None: not recognised"""
    if q is None:
        return {}, None
    if q[0] == 'sym':
        return {}, q
    def made(t):
        ok = t[0] == 'call' and t[1].endswith(('Message', 'Request')) and all(k.isidentifier() for k, _ in t[2])
        return dict(t[2]) if ok else None
    if q[0] != 'dict':
        r = made(q)
        return None if r is None else (r, None)
    base = q[1]
    r = made(base) if base is not None else None
    if r is not None:
        base = None
    else:
        r = {}
    for s in q[2]:
        if s[0] == 'set' and s[1][0] == 'const':
            r[s[1][2]] = s[2]
        elif s[0] == 'del' and s[1][0] == 'const' and base is None:
            r.pop(s[1][2], None)
        elif s[0] == 'many' and s[2] in (ARGS, KW):
            r[None] = s
        elif s[0] == 'upd' and s[1] == ARGS and base is None:
            base = ARGS
        else:
            return None
    return r, base


def carries(A, seg, name):
    """Does the filtered copy of what is given have `name`, and with its value? None: not recognised.
    name=None: any other name"""
    el = None
    res = set()
    for facts, _, segs in A.alts[seg[3]]:
        el = ('elem', seg[1], seg[2])
        ok = True
        fs = facts.items() if hasattr(facts, 'items') else facts
        for atom, val in fs:
            if atom[0] == 'eq' and el in atom[1:]:
                o = [x for x in atom[1:] if x != el]
                if len(o) != 1 or o[0][0] != 'const':
                    return None
                if (o[0][2] == name) is not val:
                    ok = False
            elif a_truthy(('item', seg[2], el))[0] == atom:
                ok = ok and val is True
            elif mentions(('x',) + tuple(y for y in atom if isinstance(y, tuple)), lambda y: y == el):
                return None
        if not ok:
            continue
        if not segs:
            res.add(False)
        elif len(segs) == 1 and segs[0][0] == 'set' and segs[0][1] in (el, C(name)) and segs[0][2] == ('item', seg[2], el):
            res.add(True)
        elif segs[0][0] == 'set' and not mentions(segs[0][2], lambda y: y[0] in ('call', 'opaque', 'lo')):
            return False if name is not None else True
        else:
            return None
    return res.pop() if len(res) == 1 else None


def mangled(t):
    """Is it something given, changed?"""
    if t[0] != 'call' or last(t) not in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'removesuffix'):
        return False
    w = args_of(t).get('self')
    return w is not None and (w[0] == 'sym' or w[0] == 'item' and w[1] in (ARGS, KW))


def given(view, t):
    """Is `t`, if it is an item, there and has it a value?"""
    return view.know(a_truthy(t))


def absent(view, t):
    """Is it known that there is no `t`, or that it is empty? False: no one has looked"""
    if view.know(a_truthy(t)) is False or view.know(a_none(t)) is True:
        return True
    if t[0] == 'item' and (view.know(a_in(t[2], t[1])) is False or view.know(a_truthy(t[1])) is False):
        return True
    about = {t, t[1]} if t[0] == 'item' else {t}
    for a in view.facts:
        w = ('x',) + tuple(y for y in a if isinstance(y, tuple))
        if mentions(w, lambda y: y in about) and (a[0] in ('forall', 'exists', 'opaque') or mentions(
                w, lambda y: y[0] in ('opaque', 'lo', 'elem', 'many'))):
            return None
    return False


def requests_of(ctx, qual, boundary):
    """-> (result, [(exit, view, endpoint, names, base)]), what is not recognised is reported as such"""
    R = ctx.run(qual, boundary=boundary)
    out = []
    if R.limit:
        ctx.ob('request-understood', qual, None, 'exploration limit')
        return R, out
    norm = norm_of(R.A)
    for x, v in R.returns():
        view = R.view(x)
        u = url_of(v)
        s = split(norm(u)) if u is not None else None
        q = query(R.A, s[1], view) if s else None
        out.append((x, view, s[0] if s else None, q))
    return R, out


def check(ctx, R, seen, rule, qual, x, view, ok, why):
    uniq(ctx, rule, seen, qual, ok, why, R.where(x), None if ok is True else fpath(view.facts.items()))


def sources(u):
    """-> what the location is computed from"""
    return {args_of(t).get('0', args_of(t).get('url')) for t in subterms(u) if t[0] == 'call' and last(t) in ('urlparse', 'urlsplit')}


def configuration(ctx):
    """The entity configuration is where the entity concerned publishes it."""
    R = ctx.run(CONFIG, boundary=('urlparse', 'urlsplit', 'topmost_unit'))
    seen = set()
    norm = norm_of(R.A)
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        u = url_of(v)
        u = norm(u) if u is not None else None
        if u is None:
            check(ctx, R, seen, 'configuration-of-the-entity', CONFIG, x, view, None, 'the request is not recognised')
            continue
        n += 1
        src = sources(u)
        if not src and u[0] == 'fstr':
            src = {p for p in u[1:] if p[0] != 'const'}
        ra = view.know(a_truthy(ARGS))
        order = [item(ARGS, k) for k in ('entity_id', 'iss')] if ra else [item(KW, k) for k in ('entity_id', 'iss')]
        asked = next((t for t in order if given(view, t)), None)
        if asked == order[1] and absent(view, order[0]) is False:
            check(ctx, R, seen, 'configuration-of-the-entity', CONFIG, x, view, False,
                  f'{show(order[1])} is used whether or not {show(order[0])} is there')
        elif asked is None:
            free = [absent(view, order[0]), absent(view, order[1]) or (view.know(a_in(order[0][2], order[0][1])) is True)]
            inside = all(mentions(s, lambda y: y == ('TOP',) or y[0] in ('lo', 'FE', 'self')) for s in src)
            ok = None if len(src) != 1 or None in free else all(free) and (inside or None)
            if ok is True and ra is None:
                ok = False
            check(ctx, R, seen, 'configuration-of-the-entity', CONFIG, x, view, ok,
                  'no entity is asked for: it is my own configuration' if ok else
                  f'whatever entity is asked for, the location is computed from {", ".join(sorted(show(s) for s in src))[:80]}')
        else:
            ok = True if src == {asked} else False if src and not any(
                not mangled(s) and mentions(s, lambda y: y == asked or y[0] in ('lo', 'opaque', 'call')) for s in src) else None
            check(ctx, R, seen, 'configuration-of-the-entity', CONFIG, x, view, ok,
                  f'the location is computed from {show(asked)}' if ok else
                  f'asked for {show(asked)}, the location is computed from {", ".join(sorted(show(s) for s in src))[:80]}')
        tenant = view.know(a_truthy(('sym', 'tenant')))
        parts = u[1:] if u[0] == 'fstr' else ()
        shape = [p[2] if p[0] == 'const' else '<' + p[2] + '>' if p[0] == 'attr' and p[1][0] == 'call' else '?' for p in parts]
        text = ''.join(map(str, shape))
        want = '<scheme>://<netloc>' + ('<path>' if tenant else '') + '/.well-known/openid-federation'
        ok = True if text == want else None if '?' in text or not parts or tenant is None else False
        check(ctx, R, seen, 'well-known-location', CONFIG, x, view, ok,
              f'{want} of the entity' if ok else f'the location is {text}, not {want}')
    some(ctx, 'the requests for entity configurations', n)


def statement(ctx):
    """A statement is asked for from the one that is to make it, with the issuer's name and that of the subject."""
    ISS, SUB, EP = (('sym', n) for n in ('issuer', 'subject', 'fetch_endpoint'))
    R, rows = requests_of(ctx, STATEMENT, ('request', 'do_request', 'urlencode'))
    seen = set()
    for x, view, e, q in rows:
        if e is None or q is None or q[1] is not None or None in q[0]:
            check(ctx, R, seen, 'statement-about-the-subject', STATEMENT, x, view, None, 'the request is not recognised')
            continue
        names = q[0]
        bad = None
        und = False
        for k, w in names.items():
            if k not in ('iss', 'sub'):
                bad = f'{k} is asked for too'
            elif w != (ISS if k == 'iss' else SUB):
                bad = f'{k} is {show(w)}'
                und = not mangled(w) and mentions(w, lambda y: y[0] in ('call', 'opaque', 'lo'))
        if 'iss' not in names and absent(view, ISS) is not True:
            bad, und = 'the issuer is not named', absent(view, ISS) is None
        elif 'sub' not in names and 'iss' in names and absent(view, SUB) is not True:
            bad, und = 'the subject is not named', absent(view, SUB) is None
        check(ctx, R, seen, 'statement-about-the-subject', STATEMENT, x, view, (None if und else False) if bad else True,
              bad or 'issuer and subject are those asked for')
        ep = view.know(a_truthy(EP))
        if e == EP:
            ok, why = (True if ep is not False else False), 'the fetch endpoint given'
        elif absent(view, EP) is not True:
            ok, why = absent(view, EP), 'if a fetch endpoint is given it is not the one used'
        elif e[0] == 'item' and e[1][0] == 'item' and e[1][1][0] == 'item' and e[2] == C('federation_fetch_endpoint') and e[1][
                2] == C('federation_entity') and e[1][1][2] == C('metadata'):
            ec = e[1][1][1]
            who = in_cache(ec)
            if who is None and ec[0] == 'call' and last(ec) == 'do_request':
                d = args_of(ec)
                s = d.get('0', d.get('request_type', d.get('service')))
                who = d.get('entity_id') if s == C('entity_configuration') else C('?')
            ok = None if who is None else who == ISS
            why = 'the fetch endpoint of the issuer' if ok else f'the fetch endpoint is that of {show(who) if who else "?"}'
        else:
            ok = False if not mentions(e, lambda y: y[0] in ('opaque', 'lo', 'get')) and e[0] != 'call' else None
            why = f'it is sent to {show(e)[:80]}'
        check(ctx, R, seen, 'statement-by-the-issuer', STATEMENT, x, view, ok, why)
    some(ctx, 'the requests for entity statements', len(rows))


def endpoint(ctx, R, seen, qual, x, view, e, names, or_else=None):
    """It is sent to the first of the endpoints given (`names`), or else to `or_else`"""
    first = next((t for t in names if given(view, t)), None)
    before = [absent(view, t) for t in (names[:names.index(e)] if e in names else names)]
    if first not in (None, e):
        pass
    elif False in before:
        check(ctx, R, seen, 'endpoint-of-the-party', qual, x, view, False, f'{show(e)[:60]} is used, whatever endpoint is given')
        return
    if e in names:
        ok = first in (None, e) and (None not in before or None)
        why = 'the endpoint given' if ok else f'{show(first) if first else "?"} is given, {show(e)} is used'
    elif first is not None:
        ok = False if not mentions(e, lambda y: y[0] in ('opaque', 'lo', 'phi')) else None
        why = f'{show(first)} is given, {show(e)[:60]} is used'
    else:
        ok, why = or_else(e) if or_else else (None, 'where it is sent is not recognised')
    check(ctx, R, seen, 'endpoint-of-the-party', qual, x, view, ok, why)


def listing(ctx):
    """The list is asked for with the filters given, and from the entity concerned."""
    R, rows = requests_of(ctx, LIST, ('urlencode', 'get_verified_endpoint', 'request'))
    seen = set()

    def verified(e):
        if e[0] != 'call' or last(e) != 'get_verified_endpoint':
            return None, 'where it is sent is not recognised'
        d = args_of(e)
        if d.get('entity_id') != ('sym', 'entity_id'):
            return False, f'the endpoint of {show(d.get("entity_id", NONE))}'
        if d.get('endpoint_name') != C('federation_list_endpoint'):
            return False, f'the endpoint is {show(d.get("endpoint_name", NONE))}'
        return True, 'the verified list endpoint of the entity asked'
    for x, view, e, q in rows:
        if e is None or q is None or q[1] is not None:
            check(ctx, R, seen, 'filters-as-given', LIST, x, view, None, 'the request is not recognised')
            continue
        bad, und = None, False
        for k in FILTERS:
            vs = (item(KW, k), ('sym', k))
            have = next((t for t in vs if given(view, t)), None)
            if None in q[0]:
                c = carries(R.A, q[0][None], k)
                if c is not True:
                    bad, und = f'{k} is not asked for', und or c is None
            elif k in q[0]:
                if q[0][k] not in vs:
                    bad = f'{k} is {show(q[0][k])}'
                    und = und or not mangled(q[0][k]) and mentions(q[0][k], lambda y: y[0] in ('call', 'opaque', 'lo', 'elem'))
            elif have is not None:
                bad = f'{k} is given, but not asked for'
            elif not any(absent(view, t) is True for t in vs):
                bad, und = f'{k} is not asked for if it is given', und or absent(view, vs[0]) is None
        extra = sorted(k for k in q[0] if k is not None and k not in FILTERS)
        if extra:
            bad = f'{", ".join(extra)} is no filter'
        check(ctx, R, seen, 'filters-as-given', LIST, x, view, (None if und else False) if bad else True,
              bad or 'the filters are those given')
        endpoint(ctx, R, seen, LIST, x, view, e, (('sym', 'endpoint'),), verified)
    some(ctx, 'the requests for lists of subordinates', len(rows))


def copies(ctx, qual, names, own=()):
    """The request has what the caller gives of `names`."""
    R, rows = requests_of(ctx, qual, ('urlencode', 'request'))
    seen = set()
    TM = item(ARGS, 'trust_mark')
    for x, view, e, q in rows:
        if e is None or q is None:
            check(ctx, R, seen, 'question-as-given', qual, x, view, None, 'the request is not recognised')
            continue
        d, base = q
        if 'trust_mark' in own and view.know(a_in(C('trust_mark'), ARGS)) is True:
            got = d.get('trust_mark')
            ok = True if got == TM or base == ARGS else None if None in d or got is not None and mentions(
                got, lambda y: y[0] in ('call', 'opaque')) else False
            check(ctx, R, seen, 'question-as-given', qual, x, view, ok, 'it is about the trust mark given' if ok else
                  'it is not about the trust mark given')
            ok = True if e == ('item', ('payload', TM), C('iss')) or e in (('sym', 'fetch_endpoint'), item(KW, 'endpoint')) else None
            check(ctx, R, seen, 'endpoint-of-the-party', qual, x, view, ok, 'it is sent to the issuer of the trust mark')
            continue
        bad, und = None, False
        for k in names:
            if base == ARGS and k not in d:
                continue
            if None in d and k not in d:
                c = carries(R.A, d[None], k) if d[None][2] == ARGS else None
                if c is not True:
                    bad, und = f'{k} is not asked for', und or c is None
            elif k in d:
                if d[k] != item(ARGS, k):
                    bad, und = f'{k} is {show(d[k])}', und or not mangled(d[k]) and mentions(d[k], lambda y: y[0] in ('call', 'opaque', 'lo', 'get'))
            elif absent(view, item(ARGS, k)) is not True:
                bad = f'{k} is not asked for if it is given'
                und = und or absent(view, item(ARGS, k)) is None
        check(ctx, R, seen, 'question-as-given', qual, x, view, (None if und else False) if bad else True,
              bad or 'what is asked for is what is given')
        eps = (('sym', 'endpoint'),) if qual == RESOLVE else (('sym', 'fetch_endpoint'), item(KW, 'endpoint'))
        endpoint(ctx, R, seen, qual, x, view, e, eps,
                 lambda t: (None if mentions(t, lambda y: y[0] in ('call', 'opaque', 'lo', 'phi')) else False, f'it is sent to {show(t)[:60]}'))
    some(ctx, 'the requests of ' + qual.split('.')[-2], len(rows))


def resolve(ctx):
    """What is to be resolved is what is given; there is no request that is incomplete."""
    copies(ctx, RESOLVE, ('sub', 'anchor', 'type'))
    R = ctx.run(RESOLVE, boundary=('request', 'verify'))
    seen = set()
    for x, v in R.returns():
        view = R.view(x)
        done = [a for a, val in view.facts.items() if val is True and (
            a[0] == 'checked' and a[2][0] == 'const' and str(a[2][2]).endswith('ResolveRequest') or
            a[0] == 'completed' and mentions(a[1], lambda y: y[0] == 'call' and last(y) == 'verify'))]
        ok = True if done else None
        if not done and not any(e.kind == 'call' and e.name.endswith('verify') for e in R.A.log):
            ok = False
            both = all(view.know(a_in(C(k), ARGS)) is True or view.know(a_truthy(item(ARGS, k))) for k in ('sub', 'anchor'))
            ok = True if both else False
        check(ctx, R, seen, 'question-is-complete', RESOLVE, x, view, ok,
              'the request is verified' if ok else 'the request is sent whether or not it names subject and trust anchor')


def mark(ctx):
    """A trust mark is asked for at the endpoint of its issuer, by the name of the trust mark."""
    q = MARK + '.construct_request'
    R = ctx.run(q)
    seen = set()
    norm = norm_of(R.A)
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        d = query(R.A, t, view)
        ok = None if d is None else True if d[1] == ARGS and not d[0] or d[0].get('trust_mark_id') == item(ARGS, 'trust_mark_id') else \
            False if d[1] is None and None not in d[0] and 'trust_mark_id' not in d[0] else None
        check(ctx, R, seen, 'question-as-given', q, x, view, ok, 'the request has the arguments given')
        k = view.know(a_in(C('trust_mark_id'), ARGS)) is True or view.know(a_truthy(item(ARGS, 'trust_mark_id'))) is True
        check(ctx, R, seen, 'question-is-complete', q, x, view, k or False,
              'there is a trust mark id' if k else 'there need not be a trust mark id')
    q = MARK + '.get_endpoint'
    R = ctx.run(q, boundary=('get_verified_trust_chains', 'get_trust_chains', 'store_trust_chains'))
    seen = set()
    norm = norm_of(R.A)
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        t = norm(v)
        if t in (C(''), NONE):
            continue
        n += 1
        calls = [y for y in subterms(t) if y[0] == 'call' and last(y) in ('get_verified_trust_chains', 'get_trust_chains')]
        who = {args_of(y).get('entity_id') for y in calls}
        iss = {w for w in who if w is not None and w[0] == 'attr' and w[2] == 'issuer' and w[1][0] == 'attr' and w[1][2] == 'context'}
        ok = None if not calls else who == iss
        check(ctx, R, seen, 'endpoint-of-the-party', q, x, view, ok, 'the verified metadata of the issuer' if ok else
              f'the metadata is that of {", ".join(sorted(show(w) for w in who if w))[:80]}')
        if calls:
            name = t[2] if t[0] in ('item', 'get') and len(t) > 2 else None
            ok = None if name is None or name[0] != 'const' else name == C('federation_trust_mark_endpoint')
            check(ctx, R, seen, 'endpoint-of-the-party', q + ' (name)', x, view, ok, f'the endpoint is {show(name) if name else "?"}')
    some(ctx, 'the requests for trust marks', n)


def transport(ctx):
    """The client sends what the service has composed, to where the service says, and gives back what comes back."""
    self_ = ('self', CLIENT[:-1])
    SERVICE = ('item', ('attr', self_, 'service'), ('sym', 'request_type'))
    for name, inner, want in (
            ('do_request', ('service_request', 'get_request_parameters'), 'service_request'),
            ('service_request', ('get_response', 'update_service_context'), 'get_response'),
            ('get_response', ('parse_request_response',), 'httpc')):
        q = CLIENT + name
        R = ctx.run(q, boundary=inner)
        seen = set()
        norm = norm_of(R.A)
        n = 0
        for e in R.A.log:
            if e.kind != 'call':
                continue
            f = e.name.split('.')[-1]
            d = {k: norm(w) for k, w in e.args}
            d.pop('headers', None)
            spec = None
            if f == 'get_request_parameters':
                spec = {'self': SERVICE, 'request_args': ARGS, '**': KW}
            elif f == 'service_request':
                spec = {'service': SERVICE}
                if 'url' in d:
                    ok = d['url'][0] in ('item', 'get') and d['url'][2] == C('url') or None
                    ok = ok and mentions(d['url'], lambda y: y[0] == 'call' and last(y) == 'get_request_parameters') or None
                else:
                    ok = True if '**' in d and mentions(d['**'], lambda y: y[0] == 'call' and last(y) == 'get_request_parameters') else None
                uniq(ctx, 'sent-as-composed', seen, q, ok, 'what the service has composed is sent', e.where)
            elif f in ('get_response', 'get_response_ext'):
                for i, k in enumerate(('service', 'url', 'method', 'body')):
                    if str(i) in d:
                        d[k] = d[str(i)]
                spec = {k: ('sym', k) for k in ('service', 'url', 'method', 'body')}
            elif f == 'httpc':
                for i, k in enumerate(('method', 'url')):
                    if str(i) in d:
                        d[k] = d[str(i)]
                spec = {k: ('sym', k) for k in ('method', 'url')}
                if d.get('data') not in (('sym', 'body'), item(KW, 'data'), NONE, ('get', KW, C('data'), NONE)):
                    spec['data'] = ('sym', 'body')
            elif f == 'parse_request_response':
                spec = {'service': ('sym', 'service')}
                r = d.get('reqresp')
                ok = None if r is None else r[0] == 'call' and last(r) == 'httpc'
                uniq(ctx, 'response-to-the-request', seen, q, ok, 'it is the response to the request that is parsed', e.where)
            if not spec:
                continue
            n += 1
            for k, w in spec.items():
                got = d.get(k)
                ok = True if got == w else False if got is not None and mangled(got) else None if got is None or mentions(
                    got, lambda y: y[0] in ('opaque', 'lo', 'phi', 'call')) or got[0] == 'dict' else False
                uniq(ctx, 'sent-as-composed', seen, f'{q} -> {f}', ok,
                     f'{k} is {show(w)}' if ok else f'{k} is {show(got) if got is not None else "missing"}, not {show(w)}', e.where)
        if name != 'get_response':
            for x, v in R.returns():
                view = R.view(x)
                t = norm(v)
                if t[0] == 'call' and last(t) in (want, want + '_ext'):
                    ok = True
                elif t == NONE:
                    info = [a for a, val in view.facts.items() if val is False and a[0] == 'truthy' and a[1][0] == 'call'
                            and last(a[1]) == 'get_request_parameters']
                    ok = bool(info) or (False if name == 'service_request' else None)
                else:
                    ok = None
                check(ctx, R, seen, 'response-to-the-request', q, x, view, ok,
                      'it is the response to the request that is returned' if ok else f'{show(t)[:80]} is returned')
        if R.limit:
            ctx.ob('sent-as-composed', q, None, 'exploration limit')
        some(ctx, 'the steps of ' + name, n)


def c43(ctx):
    for f in (configuration, statement, listing, resolve, mark, transport):
        ctx.part(f)
    ctx.part(copies, STATUS, ('sub', 'trust_mark_id', 'iat'), ('trust_mark',))
    ctx.part(copies, HOLDERS, ('trust_mark_id',))
