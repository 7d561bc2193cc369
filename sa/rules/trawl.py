"""Going down the federation tree (C42)."""
from .abstract import *
from .collector import fpath
from .collector import uniq
from .metadata import last
from .paths import left_early
from .paths import rounds
from .superiors import args_of
from .superiors import missing
from .superiors import understood

QUAL = 'fedservice.entity.FederationEntity.trawl'
SUP, SUB, TYPE, SEEN = (('sym', n) for n in ('superior', 'subordinate', 'entity_type', 'seen'))
MD = C('metadata')


def request(t):
    """-> (service, arguments) of a request"""
    if t[0] != 'call' or last(t) != 'do_request':
        return None, {}
    d = args_of(t)
    d.update({k: w for k, w in (('service', d.get('0')),) if w is not None})
    s = d.get('service', d.get('request_type', NONE))
    return (s[2] if s[0] == 'const' else '?'), d


def is_config(t):
    """Is it the entity configuration of the subordinate? None: not recognised"""
    if t[0] == 'item' and len(t) == 3 and mentions(t[1], lambda y: y[0] == 'attr' and y[2] == 'config_cache') and not mentions(
            t[1], lambda y: y[0] == 'item'):
        return t[2] == SUB
    s, d = request(t)
    if s == 'entity_configuration':
        return d.get('entity_id') == SUB
    if s is not None:
        return False
    return None


def asks(t, **kw):
    """Is it the list of the subordinates that is asked for? None: no list"""
    s, d = request(t)
    if s != 'list':
        return None
    rest = {k: w for k, w in d.items() if k not in ('self', '0', 'service', 'entity_id') and w not in (NONE, C(''), FALSE)}
    return d.get('entity_id') == SUB and rest == kw


def walk(ctx):
    R = ctx.run(QUAL, boundary=('trawl', 'do_request'))
    done = set()
    A, norm = R.A, norm_of(R.A)
    if R.limit:
        ctx.ob('not-visited-again', QUAL, None, 'exploration limit')
        return
    n = 0
    for e in A.log:
        if e.kind == 'call' and e.name.endswith('.trawl'):
            n += 1
            d = {k: norm(w) for k, w in e.args}
            step(ctx, R, e, d, done)
        elif e.kind == 'call' and e.name.endswith('do_request'):
            t = ('call', e.name, tuple((k, norm(w)) for k, w in e.args))
            s, d = request(t)
            view = View(A, list(e.facts.items()))
            if s == 'entity_statement':
                ok = d.get('issuer') == SUP and d.get('subject') == SUB
                uniq(ctx, 'stated-by', done, QUAL, ok or (None if not understood(d.get('issuer', NONE)) or not understood(
                    d.get('subject', NONE)) else False), f'the statement by {show(d.get("issuer", NONE))[:60]} about '
                    f'{show(d.get("subject", NONE))[:60]} is asked for', e.where)
            elif s == 'entity_configuration':
                ok = d.get('entity_id') == SUB
                uniq(ctx, 'configuration-of', done, QUAL, ok or (None if not understood(d.get('entity_id', NONE)) else False),
                     f'the configuration of {show(d.get("entity_id", NONE))[:60]} is asked for', e.where)
                uniq(ctx, 'stated-first', done, QUAL, stated(view), 'the configuration of an entity is fetched though no '
                     'statement by the superior about it has been seen', e.where, fpath(e.facts.items()))
    if not n:
        ctx.ob('not-visited-again', QUAL, True if R.returns() else None, 'nothing further down is visited')
    for x, v in R.returns():
        found(ctx, R, x, norm(v), done)
    # there may be no metadata as federation entity
    fed = C('federation_entity')
    views = [R.view(x) for x, v in R.returns()]
    for t in {t for w in views for a in w.facts for t in subterms(a) if t[0] == 'item' and len(t) == 3 and t[2] == fed}:
        if t[1][0] == 'item' and t[1][2] == MD and is_config(t[1][1]):
            ok = any(w.know(a_in(fed, t[1])) is False for w in views)
            uniq(ctx, 'not-a-federation-entity', done, QUAL, ok,
                 'an entity without metadata as federation entity is not provided for')


def stated(view):
    """The superior has made a statement about the subordinate."""
    for a, w in view.facts.items():
        if a[0] == 'eq' and w and SUB in a[1:]:
            for t in subterms(a):
                if t[0] == 'item' and len(t) == 3 and t[2] == C('sub') and request(t[1])[0] == 'entity_statement':
                    return True
    return None if view.opaque([SUB]) else False


def step(ctx, R, e, d, done):
    """A visit further down: the path gets longer, is bounded, and does not have the entity already."""
    A = R.A
    view = View(A, list(e.facts.items()))
    who = d.get('subordinate', NONE)
    fresh = view.know(a_none(SEEN)) is True or view.know(a_truthy(SEEN)) is False
    s = d.get('seen', NONE)
    segs = s[1:] if s[0] == 'list' else ()
    grown = ('item', SUB) in segs and (fresh or ('all', SEEN) in segs)
    if not grown and s[0] not in ('list', 'sym', 'const'):
        grown = None
    uniq(ctx, 'path-grows', done, QUAL, grown if grown is None else bool(grown),
         f'the path handed on is {show(s)[:80]}: the entity is not added to it', e.where, fpath(e.facts.items()))
    before = fresh or view.know(a_in(SUB, SEEN)) is False
    now = view.know(a_in(who, s)) is False or view.know(a_in(who, SEEN)) is False and view.know(a_eq(who, SUB)) is False
    ok = before or now
    if not ok and view.opaque([SEEN]):
        ok = None
    uniq(ctx, 'not-visited-again', done, QUAL, ok, 'an entity that is on the path already is visited again', e.where,
         fpath(e.facts.items()))
    lens = [C(0), C(1)] if fresh else [mk_lin({('len', SEEN): 1}, k) for k in (0, 1)]
    lens += [('len', s)] + [mk_lin({('len', ('list',)): 1}, 0)]
    lim = [t for a, w in view.facts.items() if a[0] == 'lt' for t in subterms(a) if t[0] == 'sym' and t != SEEN]
    ok = False
    m = None
    for t in lim:
        for l in lens:
            if view.know(a_lt(l, t)) is True or view.know(neg(a_lt(t, l))) is True:
                ok, m = True, t
    if not ok:  # a limit that is a number
        for l in lens[1:] if not fresh else []:
            if any(a[0] == 'lt' and mentions(a, lambda t: t == ('len', SEEN)) for a in view.facts):
                ok = True
    if ok and m is not None:
        p = d.get(m[1])
        more = p is not None and to_lin(p) is not None and to_lin(p)[0] == {m: 1} and to_lin(p)[1] > 0
        if p is not None and p != m and not (p[0] == 'const') and not (to_lin(p) and to_lin(p)[0] == {m: 1} and to_lin(p)[1] < 0):
            ok = False if more else None
    if ok is False and view.opaque([SEEN]):
        ok = None
    uniq(ctx, 'path-bounded', done, QUAL, ok, 'the length of the path is not bounded', e.where, fpath(e.facts.items()))
    # where it goes
    ok = who[0] == 'elem' and asks(who[2], intermediate=TRUE)
    uniq(ctx, 'intermediates', done, QUAL, ok or (None if who[0] == 'elem' and asks(who[2]) is None else False),
         f'{show(who)[:100]} is visited as an intermediate', e.where)
    w = d.get('superior', NONE)
    uniq(ctx, 'superior-of', done, QUAL, w == SUB or (None if not understood(w) and w[0] != 'elem' else False),
         f'{show(w)[:80]} is taken as the superior', e.where)
    w = d.get('entity_type', NONE)
    uniq(ctx, 'type', done, QUAL, w == TYPE or (None if not understood(w) else False), f'the type is {show(w)[:60]}', e.where)


def has_type(view):
    """Has the subordinate metadata of the type?"""
    for a, w in view.facts.items():
        if a[0] == 'in' and a[1] == TYPE and a[2][0] == 'item' and a[2][2] == MD and is_config(a[2][1]):
            return w
    return None


def is_list(view, t):
    """Is the answer known to be a list, and not an error message?"""
    for a, w in view.facts.items():
        if a[0] == 'isinst' and view.norm(a[1]) == t:
            if a[2] in ('list', 'tuple', 'set'):
                return w
            return not w
        if a[0] in ('in', 'truthy') and a[1 if a[0] == 'truthy' else 2] in (t, ('item', t, C('error')), ('get', t, C('error'), NONE)):
            if a[0] == 'in' and a[1] == C('error') or a[0] == 'truthy' and a[1] != t:
                return not w
    return None


def answered(ctx, done, view, t, where, path):
    k = is_list(view, t)
    uniq(ctx, 'answer-is-a-list', done, QUAL, k if k is not None else None if view.opaque([t]) else False,
         f'an error message is taken as a list: {show(t)[:100]}', where, path)


def no_list(view):
    """It does not say where subordinates are listed."""
    def md(t):
        return t[0] in ('item', 'get') and t[2] == MD and bool(is_config(t[1]))
    for a, w in view.facts.items():
        if a[0] == 'in' and not w:
            if a[1] == C('federation_entity') and md(a[2]):
                return True
            if a[1] == C('federation_list_endpoint') and mentions(a[2], md):
                return True
        if a[0] in ('truthy', 'none') and w == (a[0] == 'none') and mentions(a[1], md) and mentions(a[1], lambda t: t in (
                C('federation_entity'), C('federation_list_endpoint'))):
            return True
    return False


def found(ctx, R, x, v, done):
    A, norm = R.A, norm_of(R.A)
    view = R.view(x)
    where, path = R.where(x), R.path(x)
    if v in (NONE, C(''), FALSE):
        v = ('list',)
    if v[0] == 'call':
        v = ('list', ('all', v))
    if v[0] == 'lo' and any(kept is False for _, _, _, _, kept in rounds(A, v)):
        uniq(ctx, 'nothing-left-out', done, QUAL, False, 'what has been found before is left out', where, path)
        return
    for dom in {norm(t[2]) for a in view.facts for t in subterms(a) if t[0] == 'elem'}:
        if asks(dom, intermediate=TRUE) and left_early(A, view, dom):
            uniq(ctx, 'nothing-left-out', done, QUAL, False, 'not all intermediates are gone through', where, path)
    if v[0] not in ('list',):
        uniq(ctx, 'found', done, QUAL, None, f'{show(v)[:80]} is returned', where)
        return
    skipped = view.know(a_in(SUB, SEEN)) is True or view.any(lambda a, w: a[0] == 'lt' and mentions(a, lambda t: t == (
        'len', SEEN) or t[0] == 'sym' and t[1].startswith('max'))) and not mentions_config(view)
    own = lists = below = False
    for s in v[1:]:
        t = norm(s[1]) if s[0] in ('item', 'all') else NONE
        if s[0] == 'item' and (t == SUB or t[0] == 'item' and len(t) == 3 and t[2] in (C('sub'), C('iss')) and is_config(t[1])):
            own = True
            h = has_type(view)
            uniq(ctx, 'has-type', done, QUAL, h is True or (None if h is None and view.opaque([TYPE]) else False),
                 'an entity is reported that does not have metadata of the type', where, path)
        elif s[0] == 'all' and asks(t) is not None:
            lists = True
            ok = asks(t, entity_type=TYPE)
            uniq(ctx, 'lists', done, QUAL, ok, f'what {show(t)[:120]} lists is reported', where, path)
            answered(ctx, done, view, t, where, path)
        elif s[0] == 'all' and t[0] == 'call' and last(t) == 'trawl':
            below = True
        elif s[0] == 'many':
            dom = norm(s[2])
            got = asks(dom)
            if got is None:
                part = dom[0] in ('slice', 'item') and asks(norm(dom[1])) is not None
                uniq(ctx, 'found', done, QUAL, False if part else None, f'something for each of {show(dom)[:80]} is reported', where)
                continue
            inter = asks(dom, intermediate=TRUE)
            answered(ctx, done, view, dom, where, path)
            typed = asks(dom, entity_type=TYPE)
            def each_of(t):
                return t[0] == 'elem' and t[1] == s[1]
            for d, ev, segs in A.alts[s[3]]:
                for g in segs or ():
                    t = norm(g[1]) if g[0] in ('item', 'all') else norm(g[2]) if g[0] == 'many' else NONE
                    if t[0] == 'call' and last(t) == 'trawl':
                        below = True
                        uniq(ctx, 'found', done, QUAL, bool(inter), 'not the intermediates are gone through', where, path)
                    elif t[0] == 'elem':
                        lists = True
                        uniq(ctx, 'lists', done, QUAL, bool(typed), f'what {show(dom)[:120]} lists is reported', where, path)
                    else:
                        uniq(ctx, 'found', done, QUAL, None, f'{show(t)[:80]} is reported', where)
                if not segs:
                    w = view.plus(d)
                    empty = any(missing(w, t) for a, _ in d for t in subterms(a) if t[0] == 'call' and last(t) == 'trawl')
                    el = ('elem', s[1], s[2])
                    onp = any(z and (a[0] == 'in' and each_of(a[1]) and mentions(a[2], SEEN) or a[0] == 'eq' and SUB in a[1:] and any(
                        each_of(t) for t in a[1:])) for a, z in d)
                    uniq(ctx, 'nothing-left-out', done, QUAL, empty or onp or (None if w.opaque([el]) else False),
                         'an intermediate is left out', where, [show_atom(*f)[:200] for f in d])
        else:
            uniq(ctx, 'found', done, QUAL, None if not understood(t) or s[0] == 'all' and t[0] != 'const' else False,
                 f'{show(t)[:80]} is reported', where, path)
    if skipped:
        return
    # nothing is left out
    h = has_type(view)
    if not own:
        uniq(ctx, 'nothing-left-out', done, QUAL, h is False or (None if opaque(view) else False), 'an entity is left out that has metadata of the type', where, path)
    if not lists:
        got = none_got(view, 'list', entity_type=TYPE)
        uniq(ctx, 'nothing-left-out', done, QUAL, no_list(view) or got or (None if opaque(view) else False),
             'what the entity lists is left out', where, path)
    if not below:
        got = none_got(view, 'list', intermediate=TRUE)
        uniq(ctx, 'nothing-left-out', done, QUAL, no_list(view) or got or (None if opaque(view) else False),
             'what is below the intermediates is left out', where, path)
    for lid, dom, alts in foralls(A, x.st.facts.items()):
        pass


def opaque(view):
    """Is there a condition that is not understood? What the answers to requests are like is."""
    def f(t):
        return ('sym', '$answer') if request(t)[0] in ('list', 'entity_statement', 'entity_configuration') else t
    return View(view.A, [(subst(a, f), w) for a, w in view.facts.items()], view.norm).opaque([SUB, SUP, TYPE, ('sym', '$answer')])


def mentions_config(view):
    return any(mentions(a, lambda t: is_config(t) is True) for a in view.facts)


def none_got(view, service, **kw):
    """There was nothing in the answer."""
    return any(t[0] == 'call' and asks(t, **kw) and (missing(view, t) or view.know(a_eq(('len', t), C(0))) is True or is_list(view, t) is False)
               for a in view.facts for t in subterms(a))


def who(ctx):
    """Where it starts."""
    q = 'fedservice.entity.server.who.Who.process_request'
    R = ctx.run(q, boundary=('trawl', 'get_verified_metadata', 'get_trust_chains', 'verify_trust_mark', 'do_request'))
    done = set()
    TA = ('sym', 'trust_anchor')
    if R.limit:
        ctx.ob('starts', q, None, 'exploration limit')
        return
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('.trawl'):
            d = {k: norm_of(R.A)(w) for k, w in e.args}
            view = View(R.A, list(e.facts.items()))
            sup, sub = d.get('superior', NONE), d.get('subordinate', NONE)
            same = sup == TA or view.know(a_eq(sup, TA)) is True
            uniq(ctx, 'starts', done, q, same or (None if not understood(sup) and sup[0] != 'elem' else False),
                 f'{show(sup)[:80]} is taken as the superior of what the trust anchor lists', e.where, fpath(e.facts.items()))
            s, a = request(sub[2]) if sub[0] == 'elem' else (None, {})
            w = a.get('entity_id', NONE)
            ok = s == 'list' and (w == TA or view.know(a_eq(w, TA)) is True)
            uniq(ctx, 'starts', done, q, ok or (None if s is None else False),
                 f'{show(sub)[:100]} is taken as subordinate to the trust anchor', e.where, fpath(e.facts.items()))


def c42(ctx):
    ctx.part(walk)
    ctx.part(who)
