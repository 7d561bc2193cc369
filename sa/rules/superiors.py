"""No superior is left out of the collection without a reason (C41)."""
from .abstract import *
from .collector import COLL
from .collector import entity_config
from .collector import fpath
from .collector import on_path
from .collector import uniq
from .metadata import last


def args_of(t):
    return dict(t[2])


ENTITY, AUTHORITY, SEEN, MAX = (('sym', n) for n in ('entity', 'authority', 'seen', 'max_superiors'))
CONF, ID, STOP = (('sym', n) for n in ('entity_configuration', 'entity_id', 'stop_at'))
HINTS = C('authority_hints')
DB = ('attr', ('attr', ('self', COLL), 'config_cache'), '_db')


def missing(view, t):
    return view.know(a_none(t)) is True or view.know(a_truthy(t)) is False


def in_cache(t):
    """-> the entity whose cached configuration it is"""
    if t[0] != 'item':
        return None
    c = t[1]
    while c[0] == 'dict' and c[1] is not None:
        c = c[1]
    if c[0] == 'call' and c[1] == 'changed':
        return t[2]
    if mentions(c, lambda y: y[0] == 'attr' and y[2] == 'config_cache') and not mentions(c, lambda y: y[0] == 'item'):
        return t[2]


def whose(t):
    """-> the entity whose configuration it is, None: not recognised"""
    who = {in_cache(y) if y[0] == 'item' else entity_config(y[1]) for y in subterms(t) if y[0] in ('payload', 'verified', 'item')}
    who = who - {None}
    return who.pop() if len(who) == 1 else None


def understood(t):
    """Nothing in it but what is known."""
    return not mentions(t, lambda y: y[0] in ('lo', 'lv', 'up', 'elem') or y[0] == 'call' and not y[1].startswith('fedservice.'))


def lower(m):
    l = to_lin(m)
    return l is not None and l[0] == {MAX: 1} and l[1] < 0


def branch(ctx):
    R = ctx.run(COLL + '.collect_branch', boundary=('collect_tree', '_get_entity_statement', 'get_federation_fetch_endpoint'),
                changes=((f, DB) for f in ('_get_entity_statement', 'get_federation_fetch_endpoint')))
    rule = 'reason'
    done = set()
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    norm = norm_of(R.A)
    n = 0
    for x, v in R.returns():
        v = norm(v)
        view = R.view(x)
        if v == NONE or v[0] in ('const', 'tuple', 'list', 'dict') and not v[1:]:
            n += 1
            ok = why_not(R.A, x.st, view)
            uniq(ctx, rule, done, R.qual, ok, 'a superior is left out though it can be used', R.where(x), R.path(x))
            continue
        if v[0] != 'tuple' or len(v) != 3:
            uniq(ctx, 'branch', done, R.qual, None, f'{show(v)[:80]} is returned', R.where(x))
            continue
        st, above = v[1:]
        d = args_of(st) if st[0] == 'call' and last(st) == '_get_entity_statement' else None
        ok = None if d is None else d.get('entity') == ENTITY and d.get('authority') == AUTHORITY
        uniq(ctx, 'statement-of', done, R.qual, ok, f'{show(st)[:100]} is not what the authority states about the entity',
             R.where(x), R.path(x))
        if above[0] == 'call' and last(above) == 'collect_tree':
            d = args_of(above)
            who = d.get('entity_id', NONE)
            uniq(ctx, 'superiors-of', done, R.qual, who == AUTHORITY or (None if not understood(who) else False),
                 f'above the authority, the superiors of {show(who)[:60]} are collected', R.where(x), R.path(x))
            conf = d.get('entity_configuration', NONE)
            who = whose(conf)
            other = conf[0] == 'const' or mentions(conf, lambda t: t[0] == 'call' and last(t) == '_get_entity_statement' and
                                                   not mentions(conf, lambda y: y[0] == 'call' and y[1] == 'changed'))
            uniq(ctx, 'own-configuration', done, R.qual, who == AUTHORITY or (None if who is None and not other else False),
                 f'the superiors of the authority are taken from {show(conf)[-100:]}', R.where(x), R.path(x))
            s = d.get('stop_at', C(''))
            uniq(ctx, 'stops-where-told', done, R.qual, s == STOP or (None if not understood(s) else False),
                 f'above the authority, collection stops at {show(s)[:60]}', R.where(x), R.path(x))
            m = d.get('max_superiors', C(10))
            uniq(ctx, 'limit', done, R.qual, m == MAX or (False if m[0] == 'const' or lower(m) else None),
                 f'above the authority, the limit is {show(m)[:60]}', R.where(x), R.path(x))
            s = d.get('seen', NONE)
            segs = s[1:] if s[0] == 'list' else None
            ok = s == SEEN if segs is None else all(g in (('item', AUTHORITY), ('all', SEEN)) for g in segs) and len(segs) < 3
            if not ok and (segs is None or any(g[0] != 'item' or not understood(g[1]) for g in segs)):
                ok = None
            uniq(ctx, 'path', done, R.qual, ok, f'the path to the superiors is {show(s)[:80]}', R.where(x), R.path(x))
        else:
            ok = above[0] not in ('const', 'dict') and None
            uniq(ctx, 'superiors-of', done, R.qual, ok, f'the superiors of the authority are {show(above)[:80]}',
                 R.where(x), R.path(x))
    for x, exc in R.raises():
        uniq(ctx, 'no-error', done, R.qual, False if why_not(R.A, x.st, R.view(x)) else None,
             'a superior that can not be used ends the collection of the others', R.where(x), R.path(x))
    if not n:
        uniq(ctx, rule, done, R.qual, True, 'no superior is left out')


def why_not(A, st, view):
    """Is there a reason not to use the superior?"""
    norm = norm_of(A)
    # it is a trust anchor that names itself
    if view.know(a_eq(ENTITY, AUTHORITY)) is True:
        if view.any(lambda a, v: v and a[0] == 'in' and a[1] in (ENTITY, AUTHORITY) and mentions(
                a[2], lambda t: t[0] == 'attr' and t[2] == 'trust_anchors')):
            return True
    # it is on the path already
    if view.know(a_in(AUTHORITY, SEEN)) is True:
        return True
    # the path would be too long
    fresh = view.know(a_none(SEEN)) is True or view.know(a_truthy(SEEN)) is False
    L = C(1) if fresh else mk_lin({('len', SEEN): 1}, 1)
    if view.know(a_lt(MAX, L)) is True:
        return True
    # it says nothing about the entity, or nothing usable about itself
    for a, v in view.facts.items():
        if a[0] in ('forall', 'completed'):
            continue
        for t in subterms(a):
            if t[0] == 'call' and last(t) in ('_get_entity_statement', 'get_entity_statement'):
                d = args_of(t)
                if missing(view, t):
                    if (d.get('entity', d.get('subject')), d.get('authority', d.get('issuer'))) == (ENTITY, AUTHORITY):
                        return True
            if t[0] == 'call' and last(t) in ('get_federation_fetch_endpoint', 'get_entity_configuration') and missing(view, t) \
                    and any(w == AUTHORITY for k, w in t[2]):
                return True
    if unusable(view, A.freeze(st, DB)):
        return True
    view = View(A, [(a, v) for a, v in view.facts.items() if not mentions(a, lambda t: t[0] == 'call' and t[1] == 'changed')])
    return None if view.opaque([ENTITY, AUTHORITY, SEEN, MAX]) else False


def unusable(view, now):
    """There is no usable configuration of the authority in the cache, after an attempt to fetch it."""
    segs = now[2] if now[0] == 'dict' else ()
    if not any(g[0] == 'set' or g[0] == 'upd' and mentions(g[1], lambda t: t[0] == 'call' and last(
            t) == 'get_federation_fetch_endpoint' and AUTHORITY in args_of(t).values()) for g in segs):
        return False  # not fetched anew
    t = ('item', now, AUTHORITY)
    if missing(view, t) or outdated(view, t):
        return True
    for g in segs[::-1]:
        if g[0] == 'upd' and view.know(a_in(AUTHORITY, g[1])) is False or g[0] != 'upd' and g[1] != AUTHORITY:
            continue
        if g[0] == 'del':
            return True
        t = ('item', g[1], AUTHORITY) if g[0] == 'upd' else g[2]
        return missing(view, t) or outdated(view, t)
    base = now[1]
    t = ('item', base, AUTHORITY)
    return view.know(a_in(AUTHORITY, base)) is False or missing(view, t) or outdated(view, t)


def outdated(view, t):
    """The cached configuration has expired or is about to."""
    exp = ('item', t, C('exp'))
    if view.know(a_in(C('exp'), t)) is False:
        return True
    lims = [NOW] + [mk_lin({NOW: 1, d: 1}, 0) for d in (('attr', DB[1], 'allowed_delta'),)]
    return any(view.know(neg(a_lt(l, exp))) is True or view.know(a_lt(exp, l)) is True for l in lims)


def tree(ctx):
    R = ctx.run(COLL + '.collect_tree', boundary=('collect_tree', 'collect_branch'))
    rule = 'reason'
    done = set()
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    A = R.A
    norm = norm_of(A)
    sets = []  # the superiors that are collected
    for e in A.log:
        if e.kind == 'call' and e.name.endswith('.collect_branch'):
            d = {k: norm(w) for k, w in e.args}
            who = d.get('authority', NONE)
            ok = who[0] == 'elem' and is_hints(A, who[2])
            uniq(ctx, 'superiors', done, R.qual, ok or (None if not understood(who) else False),
                 f'{show(who)[:80]} is collected as a superior', e.where)
            w = d.get('entity', NONE)
            uniq(ctx, 'about', done, R.qual, w == ID or w == ('item', CONF, C('sub')) or w == ('item', CONF, C('iss')) or (
                None if not understood(w) else False), f'the authority is asked about {show(w)[:80]}', e.where)
            for k, p, dflt in (('stop_at', STOP, C('')), ('max_superiors', MAX, C(10)), ('seen', SEEN, NONE)):
                w = d.get(k, dflt)
                view = View(A, list(e.facts.items()))
                new = k == 'seen' and (view.know(a_none(SEEN)) is True or view.know(a_truthy(SEEN)) is False)
                ok = w == p or new and w in (NONE, ('list',))
                if not ok and not (w[0] == 'const' and not new or k == 'max_superiors' and lower(w)):
                    ok = None
                uniq(ctx, f'{k}-passed-on', done, R.qual, ok, f'{k} is {show(w)[:60]}', e.where)
        elif e.kind == 'mut' and e.name == '[]=':
            d = dict(e.args)
            k, w = norm(d['key']), norm(d['value'])
            if k[0] == 'elem' and is_hints(A, k[2]):
                sets.append(e)
                if w[0] == 'call' and last(w) == 'collect_branch':
                    uniq(ctx, 'under', done, R.qual, args_of(w).get('authority') == k,
                         f'what {show(args_of(w).get("authority", NONE))[:60]} states is taken as stated by {show(k)[:60]}', e.where)
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        if v == NONE or v == ('dict', None, ()) or v[0] == 'const':
            ok = view.know(a_in(HINTS, CONF)) is False or missing(view, ('item', CONF, HINTS)) or any(
                view.know(a_eq(t, STOP)) is True for t in (ID, ('item', CONF, C('iss')), ('item', CONF, C('sub')))) or view.any(
                lambda a, w: w and a[0] == 'eq' and STOP in a[1:] and mentions(a, lambda t: t == CONF))
            if not ok and (view.opaque([CONF, ID, STOP]) or view.know(a_in(C('iss'), CONF)) is False):
                ok = None
            uniq(ctx, rule, done, R.qual, bool(ok) if ok is not None else None, 'no superiors are collected though there are some',
                 R.where(x), R.path(x))
            continue
        for lid, dom, alts in foralls(A, x.st.facts.items()):
            if not is_hints(A, dom) or not sets:
                continue
            for d, ev, val in alts:
                w = View(A, list(x.st.facts.items()) + list(d))
                if any(on_path(e, w) is not False for e in sets):
                    continue
                el = ('elem', lid, dom)
                ok = w.know(a_in(el, SEEN)) is True
                if not ok and (w.opaque([el]) or w.any(lambda a, s: a[0] in ('none', 'truthy') and mentions(a, lambda t: t[
                        0] == 'call' and last(t) == 'collect_branch'))):
                    ok = None
                uniq(ctx, rule, done, R.qual, ok, 'a superior is left out though it is not on the path', R.where(x),
                     [show_atom(*f)[:200] for f in d][-14:])


def is_hints(A, t):
    t = canon_dom(A, t)
    while t[0] == 'call' and last(t) in ('list', 'copy', 'tuple', 'sorted', 'set', 'reversed') or t[0] == 'deep' or t[
            0] == 'list' and len(t) == 2 and t[1][0] == 'all':
        t = t[1] if t[0] == 'deep' else t[1][1] if t[0] == 'list' else t[2][0][1]
    return t == ('item', CONF, HINTS) or t[0] == 'call' and last(t) == 'get' and mentions(t, lambda y: y == CONF) and mentions(
        t, lambda y: y == HINTS)


def start(ctx):
    """Where collection starts."""
    done = set()
    R = ctx.run(COLL + '.__call__', boundary=('get_entity_configuration', 'collect_tree'))
    n = 0
    for e in R.A.log:
        if e.kind != 'call' or not e.name.endswith('.collect_tree'):
            continue
        n += 1
        d = {k: norm_of(R.A)(w) for k, w in e.args}
        who = d.get('entity_id', NONE)
        uniq(ctx, 'superiors-of', done, R.qual, who == ID or (None if not understood(who) else False),
             f'the superiors of {show(who)[:80]} are collected', e.where)
        who = whose(d.get('entity_configuration', NONE))
        uniq(ctx, 'own-configuration', done, R.qual, None if who is None else who == ID,
             f'the superiors are taken from {show(d.get("entity_configuration", NONE))[-100:]}', e.where, fpath(e.facts.items()))
        for k, dflt in (('stop_at', C('')), ('max_superiors', C(10))):
            w = d.get(k, dflt)
            uniq(ctx, f'{k}-passed-on', done, R.qual, w == ('sym', k) or (False if w[0] in ('const', 'sym') else None),
                 f'{k} is {show(w)[:60]}', e.where)
    if not n:
        ctx.ob('superiors-of', R.qual, None, 'nothing is collected')
    for x, v in R.returns():
        view = R.view(x)
        v = norm_of(R.A)(v)
        if v[0] == 'tuple' and len(v) == 3 and v[1][0] == 'call' and last(v[1]) == 'collect_tree':
            s = v[2]
            while s[0] in ('item', 'attr') and s[2] in ('_jws', C('_jws')):
                s = s[1]
            who = entity_config(s) if s[0] == 'call' else in_cache(s)
            uniq(ctx, 'signed-form', done, R.qual, None if who is None else who == ID,
                 f'the signed entity configuration that is returned is {show(v[2])[:80]}', R.where(x), R.path(x))
    R = ctx.run(COLL + '.get_federation_fetch_endpoint', boundary=('get_entity_configuration',))
    for x, v in R.returns():
        v = norm_of(R.A)(v)
        conf = [t for t in subterms(v) if whose(t) is not None]
        for t in conf[:1]:
            uniq(ctx, 'endpoint-of', done, R.qual, whose(t) == ('sym', 'intermediate'),
                 f'the fetch endpoint is taken from the configuration of {show(whose(t))[:80]}', R.where(x), R.path(x))


def c41(ctx):
    branch(ctx)
    tree(ctx)
    start(ctx)
