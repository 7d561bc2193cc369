"""C13 - C16, C35: collecting trust chains (fedservice.entity.function.trust_chain_collector, entity_statement.cache)."""
from .abstract import *
from .chain import accepted  # noqa: F401

COLL = 'fedservice.entity.function.trust_chain_collector.TrustChainCollector'
CACHE = 'fedservice.entity_statement.cache.ESCache'
TREE = ('collect_tree', '_get_entity_statement', 'get_federation_fetch_endpoint')


def on_path(e, view):
    """Did it happen on the way here: True, False, None (may be)"""
    known = [view.know((f, w)) for f, w in e.facts.items() if f[0] not in ('forall', 'exists', 'completed')]
    return False if any(k is False for k in known) else True if all(k is True for k in known) else None


def covered(events, view):
    got = [on_path(e, view) for e in events]
    return True if True in got else None if None in got else False


def uniq(ctx, rule, seen, construct, ok, why, where=None, path=None):
    """One obligation per construct and outcome."""
    k = (rule, construct, ok, why)
    if ok is True or k not in seen:
        seen.add(k)
        ctx.ob(rule, construct, ok, why, where, path)


def fpath(facts):
    return [show_atom(*f)[:200] for f in facts][-14:]


# ---------------------------------------------------------------------- C13
def c13(ctx):
    R = ctx.run(COLL + '.collect_tree', boundary=TREE)
    rule = 'path-bounded'
    A = R.A
    norm = norm_of(A)
    seen_p, max_p = ('sym', 'seen'), ('sym', 'max_superiors')
    done = set()
    n = 0
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    for e in A.log:
        short = e.name.rpartition('.')[2]
        if e.kind != 'call' or short not in ('collect_tree', '_get_entity_statement'):
            continue
        n += 1
        args = dict((k, norm(v)) for k, v in e.args)
        view = View(A, list(e.facts.items()))
        fresh = view.know(a_none(seen_p)) is True or view.know(a_truthy(seen_p)) is False
        auth = args.get('authority') if short == '_get_entity_statement' else args.get('entity_id')
        site = f'{e.stack[-1]} -> {short}'
        if auth is None:
            uniq(ctx, rule, done, site, None, 'the authority is not known', e.where)
            continue
        # not visited before
        ok = fresh or view.know(a_in(auth, seen_p)) is False
        if not ok:
            ok = None if view.opaque([seen_p]) else False
        uniq(ctx, 'not-visited-again', done, site, ok, 'an authority that is on the path already is visited again',
             e.where, fpath(e.facts.items()))
        if short != 'collect_tree':
            continue
        # the path gets longer by the authority
        s = args.get('seen', NONE)
        segs = s[1:] if s[0] == 'list' else ()
        grown = ('item', auth) in segs and (fresh or ('all', seen_p) in segs)
        if not grown and s[0] not in ('list', 'sym', 'const'):
            grown = None
        uniq(ctx, 'path-grows', done, site, grown if grown is None else bool(grown),
             f'the path handed on is {show(s)[:80]}: the authority is not added to it', e.where, fpath(e.facts.items()))
        # and is bounded
        m = args.get('max_superiors', NONE)
        L = mk_lin({('len', seen_p): 1}, 1) if not fresh else C(1)
        lens = [L, ('len', s), mk_lin({('len', seen_p): 1}, 0) if not fresh else C(0)]
        if fresh:
            lens += [mk_lin({('len', ('list',)): 1}, k) for k in (0, 1)]
        ok = any(view.know(neg(a_lt(max_p, l))) is True or view.know(a_lt(l, max_p)) is True for l in lens)
        if ok and m != max_p:
            l = to_lin(m)
            # a limit that grows along with the path
            raised = l is not None and l[0].get(max_p) == 1 and l[1] >= 0 and (l[1] or len(l[0]) > 1) and all(
                k == max_p or k[0] == 'len' and c > 0 for k, c in l[0].items())
            ok = None if not raised and (mentions(m, max_p) or m[0] not in ('const',)) else False
        elif ok is False and view.opaque([max_p]):
            ok = None
        uniq(ctx, rule, done, site, ok, f'the length of the path is not bounded (max_superiors {show(m)[:40]})', e.where,
             fpath(e.facts.items()))
    if not n:
        ctx.ob(rule, R.qual, None, 'the recursion is not recognised')
    # all superiors are tried
    for x, v in R.returns():
        loops = {lid: dom for lid, dom, alts in foralls(A, x.st.facts.items())}
        lids = {t[1] for a, w in x.st.facts.items() if a[0] not in ('forall', 'completed') for t in subterms(a)
                if t[0] == 'elem' and t[1] not in loops}
        uniq(ctx, 'all-superiors', done, R.qual, not lids, 'a superior that is skipped ends the collection', R.where(x),
             R.path(x))
        if v == NONE and not lids:
            continue
    for lid, info in A.loopinfo.items():
        it = info.get('iter')
        if it is not None and mentions(it, C('authority_hints')):
            it = canon_dom(A, it)
            ok = it == ('item', ('sym', 'entity_configuration'), C('authority_hints'))
            uniq(ctx, 'all-superiors', done, 'authority_hints', ok or (None if mentions(it, lambda t: t[0] == 'call')
                 else False), f'only {show(it)[:80]} are tried')
    # the path of one branch is not that of another
    R = ctx.run(COLL + '.collect_branch', boundary=TREE)
    for x in R.exits:
        now = R.A.freeze(x.st, seen_p)
        uniq(ctx, 'branches-apart', done, R.qual, now == seen_p,
             'visiting one branch changes the path seen by the others', R.where(x), R.path(x))
    # the entry point starts with the limits it is given
    R = ctx.run(COLL + '.__call__', boundary=('get_entity_configuration', 'collect_tree'))
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('.collect_tree'):
            m = dict(e.args).get('max_superiors', C(0))
            uniq(ctx, 'limit-passed-on', done, R.qual, m == max_p or m[0] == 'const' and isinstance(m[2], int) or None,
                 f'collection starts with the limit {show(m)[:60]}', e.where)


# ---------------------------------------------------------------------- C14
def in_db(t):
    """Is it what is stored under a key in a cache?"""
    return t[0] == 'item' and len(t) == 3 and t[2] != C('exp') and not mentions(t[1], lambda y: y[0] == 'item') and \
        mentions(t[1], lambda y: y[0] == 'attr' and y[2] == '_db')


def delta_of(t):
    for y in subterms(t):
        if y[0] == 'attr' and y[2] == '_db':
            return ('attr', y[1], 'allowed_delta')


def fresh(view, t):
    """Has this cached statement a life time left of more than the allowed delta? None: it is not a statement"""
    e, d = ('item', t, C('exp')), delta_of(t)
    if view.know(a_lt(mk_lin({NOW: 1, d: 1}, 0), e)) is True or view.know(neg(a_lt(e, mk_lin({NOW: 1, d: 1}, 0)))) is True:
        return True
    dict_, msg = (view.know((('isinst', t, c), True)) for c in ('dict', 'idpyoidc.message.Message'))
    return None if dict_ is False and msg is False else False


def isinst_atoms(view, t):
    return [(a, v) for a, v in view.facts.items() if a[0] == 'isinstance' and a[1] == t]


def not_statement(view, t):
    """Known to be neither a dictionary nor a message (the signed statements are cached as strings)."""
    neg_ = [str(a[2]) for a, v in view.facts.items() if a[0] in ('isinstance', 'isinst') and a[1] == t and not v]
    return any('dict' in n for n in neg_) and any('Message' in n for n in neg_)


def cached_ok(view, t):
    e, d = ('item', t, C('exp')), delta_of(t)
    s = mk_lin({NOW: 1, d: 1}, 0)
    if view.know(a_lt(s, e)) is True or view.know(neg(a_lt(e, s))) is True:
        return True
    if not_statement(view, t):
        return True
    if view.opaque([t]) or view.opaque([e]):
        return None
    return False


def apart(k, auth, ent):
    """Does the key tell an authority and an entity apart?"""
    def left(t, w):
        if not isinstance(t, tuple):
            return False
        if t == w:
            return True
        if t and (t[0] in ('sorted', 'set') or t[0] == 'call' and t[1] in ('min', 'max', 'sorted', 'set', 'frozenset')) \
                and mentions(t, auth) and mentions(t, ent):
            return False
        return any(left(y, w) for y in t)
    return left(k, auth) and left(k, ent)


def c14(ctx):
    rule = 'fresh'
    done = set()
    for f in ('__getitem__', 'get', '__contains__'):
        R = ctx.run(f'{CACHE}.{f}')
        key = ('sym', 'key') if f == 'get' else ('sym', 'item')
        for x, v in R.returns():
            view = R.view(x)
            if f == '__contains__':
                if v == FALSE or view.know(a_truthy(v)) is False:
                    continue
            elif v in (NONE, ('sym', 'default')):
                continue
            ts = {t for y in list(view.facts) + [v] for t in subterms(y) if in_db(t)}
            if not ts:
                ok = None if about(v) and v[0] != 'in' else False
                why = f'answers {show(v)[:60]} without looking at the expiration time'
                uniq(ctx, rule, done, R.qual, ok, why, R.where(x), R.path(x))
            for t in ts:
                uniq(ctx, rule, done, R.qual, cached_ok(view, t),
                     'a statement is handed out that has expired or is about to', R.where(x), R.path(x))
        if R.limit:
            ctx.ob(rule, R.qual, None, 'exploration limit')
    # what the caches of a collector are
    R = ctx.run(COLL + '.__init__')
    for e in R.A.log:
        if e.kind == 'setattr' and e.name in ('config_cache', 'entity_statement_cache'):
            v = dict(e.args)['value']
            cls = R.A._cls(v[1]) if v[0] == 'inst' else None
            ok = any(c.qual == CACHE for c in cls.mro()) if cls else False if v[0] in ('dict', 'const') else None
            uniq(ctx, 'cache', done, e.name, ok, f'{show(v)[:60]} is used as cache, which keeps outdated statements', e.where)
            if ok:
                d = dict(v[2]).get('allowed_delta', NONE)
                uniq(ctx, 'cache', done, e.name + ' delta', d == ('sym', 'allowed_delta') or (None if about(d) else False),
                     f'statements are handed out until {show(d)[:60]} s before they expire, whatever is configured', e.where)
    # cached statements are about the authority and the entity asked for
    R = ctx.run(COLL + '._get_entity_statement', boundary=('get_federation_fetch_endpoint', 'get_entity_statement'))
    rule = 'right-statement'
    A = R.A
    norm = norm_of(A)
    ent, auth = ('sym', 'entity'), ('sym', 'authority')

    def fetched(t):
        """-> (issuer, subject) of a fetched statement"""
        if t[0] == 'call' and t[1].endswith('.get_entity_statement'):
            d = dict(t[2])
            return norm(d.get('issuer', NONE)), norm(d.get('subject', NONE))
    writes = {}
    for e in A.log:
        if e.kind == 'mut' and e.name == '[]=':
            d = dict(e.args)
            if mentions(d['target'], lambda y: y[0] == 'attr' and y[2] == 'entity_statement_cache'):
                writes[norm(d['key'])] = (norm(d['value']), e)
    for k, (v, e) in writes.items():
        f = fetched(v)
        if f:
            uniq(ctx, rule, done, 'stored', f == (auth, ent) and apart(k, auth, ent),
                 f'the statement of {show(f[0])} on {show(f[1])} is stored under {show(k)[:80]}', e.where)
        elif v[0] == 'item' and f_payload(v[1]):
            uniq(ctx, rule, done, 'stored', apart(k, auth, ent),
                 f'the expiration time is stored under {show(k)[:80]}, whoever the statement is by and about', e.where)
    times = {k: v[1] for k, (v, e) in writes.items() if v[0] == 'item' and v[2] == C('exp')}
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        if v == NONE or view.know(a_truthy(v)) is False:
            continue
        f = fetched(v)
        if f:
            uniq(ctx, rule, done, 'fetched', f == (auth, ent), f'the statement of {show(f[0])} on {show(f[1])} is used',
                 R.where(x), R.path(x))
        elif v[0] == 'item' and mentions(v[1], lambda y: y[0] == 'attr' and y[2] == '_db'):
            k = v[2]
            ok = apart(k, auth, ent)
            if ok and writes:
                ok = k in writes and fetched(writes[k][0]) is not None
            uniq(ctx, rule, done, 'cached', ok, f'the statement stored under {show(k)[:80]} is used', R.where(x), R.path(x))
            # not too old
            ok = False
            for tk in times:
                t = ('item', v[1], tk)
                for d in (('attr', ('self', COLL), 'allowed_delta'), delta_of(v)):
                    s = mk_lin({NOW: 1, d: 1}, 0)
                    if view.know(neg(a_lt(t, s))) is True or view.know(a_lt(s, t)) is True:
                        ok = True
                        src = times[tk]
                        kk = writes.get(k, (None,))[0]
                        if kk is not None and src != ('payload', kk):
                            ok = False
            if not times and not any(w[0][0] == 'item' and f_payload(w[0][1]) for w in writes.values()):
                ok = None
            if ok is False and times and view.opaque([v]):
                ok = None
            uniq(ctx, 'fresh', done, 'cached entity statement', ok,
                 'a cached entity statement is used that has expired or is about to', R.where(x), R.path(x))
        else:
            uniq(ctx, rule, done, R.qual, None if about(v) else False, f'{show(v)[:80]} is used', R.where(x))
    # entity configurations
    for f, b in (('__call__', ('get_entity_configuration', 'collect_tree')),
                 ('get_federation_fetch_endpoint', ('get_entity_configuration',)),
                 ('collect_branch', TREE), ('get_metadata', ('collect_trust_chains', 'verify_trust_chains'))):
        R = ctx.run(f'{COLL}.{f}', boundary=b)
        if R.limit:
            ctx.ob('fresh', R.qual, None, 'exploration limit')
        for what, t, view, where, path in uses(R):
            uniq(ctx, 'fresh', done, f'{f}: {what}', cached_ok(view, t),
                 f'a cached entity configuration ({show(t)[-60:]}) is used that has expired or is about to', where, path)


def f_payload(t):
    return t[0] in ('payload', 'verified')


def uses(R):
    """Cached entity configurations that are returned or handed on."""
    norm = norm_of(R.A)
    for x, v in R.returns():
        for t in subterms(norm(v)):
            if in_db(t) and mentions(t[1], lambda y: y[0] == 'attr' and y[2] == 'config_cache'):
                yield 'returned', t, R.view(x), R.where(x), R.path(x)
    for e in R.A.log:
        if e.kind == 'call' and e.name.startswith('fedservice'):
            for k, v in e.args:
                for t in subterms(norm(v)):
                    if in_db(t) and mentions(t[1], lambda y: y[0] == 'attr' and y[2] == 'config_cache'):
                        yield e.name.rpartition('.')[2], t, View(R.A, list(e.facts.items())), e.where, \
                            fpath(e.facts.items())


# ---------------------------------------------------------------------- C15
def c15(ctx):
    rule = 'status-200'
    done = set()
    GP = ('get_request_parameters',)
    for f, b in (('get_document', ()), ('get_entity_configuration', GP), ('get_entity_statement', GP)):
        R = ctx.run(f'{COLL}.{f}', boundary=b)
        if R.limit:
            ctx.ob(rule, R.qual, None, 'exploration limit')
        for x, v in R.returns():
            view = R.view(x)
            v = norm_of(R.A)(v)
            if v[0] == 'attr' and v[2] in ('text', 'content') and v[1][0] == 'call':
                code = ('attr', v[1], 'status_code')
                ok = view.know(a_eq(code, C(200))) is True
                if not ok and view.opaque([code]):
                    ok = None
                uniq(ctx, rule, done, R.qual, ok, 'the body of a response with another status than 200 is used',
                     R.where(x), R.path(x))
            elif v == NONE or v[0] == 'const':
                uniq(ctx, rule, done, R.qual, False, 'a failure to get a document is not an error', R.where(x), R.path(x))
            else:
                uniq(ctx, rule, done, R.qual, None if about(v) else False, f'{show(v)[:80]} is returned', R.where(x))
        if not list(R.returns()):
            ctx.ob(rule, R.qual, None, 'never returns')
    # which failures lead to the second attempt
    R = ctx.run(COLL + '.get_entity_configuration', boundary=GP)
    rule = 'tenant-only-when-missing'
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('httpc'):
            url = [v for k, v in e.args if k == '1']
            tenant = url and mentions(url[0], lambda t: t[0] == 'call' and any(
                k == 'tenant' and v == TRUE for k, v in t[2]))
            if not tenant:
                continue
            view = View(R.A, list(e.facts.items()))
            # the first response was a 404
            ok = view.any(lambda a, v: a[0] == 'eq' and v and C(404) in a[1:] and mentions(
                a, lambda t: t[0] == 'attr' and t[2] == 'status_code'))
            failed = view.any(lambda a, v: a[0] == 'completed' and not v and mentions(
                a, lambda t: t[0] == 'call' and t[1].endswith('httpc')))
            got200 = view.any(lambda a, v: a[0] == 'eq' and v and C(200) in a[1:])
            codes = [t for a, v in e.facts.items() for t in subterms(a) if t[0] == 'attr' and t[2] == 'status_code']
            uniq(ctx, rule, done, R.qual, bool(ok) and not failed and not got200 or
                 (None if not failed and codes and view.opaque(codes) else False),
                 'the alternative location is tried though the page is not missing', e.where, fpath(e.facts.items()))
    if not any(o['rule'] == rule for o in ctx.obs):
        ctx.ob(rule, R.qual, True, 'there is no second attempt')


# ---------------------------------------------------------------------- C16
def self_verified(v):
    """Is it a payload that was verified with its own keys? -> (token, ok)"""
    for t in subterms(v):
        if t[0] == 'verified':
            ok = mentions(t[2], lambda y: y[0] == 'item' and y[2] == C('jwks') and y[1][0] == 'payload' and y[1][1] == t[1])
            return t[1], ok
    return None, False


def entity_config(t):
    """-> the entity whose configuration was fetched"""
    if t[0] == 'call' and t[1].endswith('.get_entity_configuration'):
        return dict(t[2]).get('entity_id')


def c16(ctx):
    done = set()
    for q in ('fedservice.entity.function.trust_chain_collector.verify_self_signed_signature',
              'fedservice.entity.function.verify_self_signed_signature'):
        R = ctx.run(q)
        for x, v in R.returns():
            tok, ok = self_verified(v)
            uniq(ctx, 'self-verified', done, q, ok and tok[0] == 'sym' or (None if tok is None and about(v) else False),
                 f'{show(v)[:80]} is returned without being verified with the keys in it', R.where(x), R.path(x))
    for f, b, ent in (('__call__', ('get_entity_configuration', 'collect_tree'), ('sym', 'entity_id')),
                      ('get_federation_fetch_endpoint', ('get_entity_configuration',), ('sym', 'intermediate'))):
        R = ctx.run(f'{COLL}.{f}', boundary=b)
        n = 0
        for e in R.A.log:
            d = dict(e.args)
            if e.kind == 'mut' and e.name == '[]=' and mentions(
                    d['target'], lambda y: y[0] == 'attr' and y[2] == 'config_cache'):
                n += 1
                v = d['value']
                tok, ok = self_verified(v)
                who = entity_config(tok) if tok else None
                uniq(ctx, 'cached-verified', done, R.qual, ok or (None if tok is None and v[0] == 'call' else False),
                     f'an entity configuration is cached that is not verified: {show(v)[:80]}', e.where)
                if who is not None:
                    uniq(ctx, 'cached-under', done, R.qual, d['key'] == who == ent,
                         f'the entity configuration of {show(who)[:60]} is cached under {show(d["key"])[:60]}', e.where)
                if ok:
                    ent_ = {l[1][2]: l[2] for l in v[2] if l[0] == 'set' and l[1][0] == 'const'} if v[0] == 'dict' else {}
                    uniq(ctx, 'cached-signed', done, R.qual, ent_.get('_jws') == tok if v[0] == 'dict' else
                         (False if v[0] == 'verified' else None),
                         'the signed form that is cached is not the one that was verified', e.where)
            elif e.kind == 'call' and e.name.endswith('.collect_tree'):
                v = d.get('entity_configuration', NONE)
                tok, ok = self_verified(v)
                cached = mentions(v, lambda y: y[0] == 'attr' and y[2] == '_db')
                uniq(ctx, 'used-verified', done, R.qual, ok or cached or (None if about(v) and not mentions(
                    v, lambda t: t[0] == 'payload') else False),
                    f'superiors are collected from an entity configuration that is not verified: {show(v)[:80]}',
                    e.where, fpath(e.facts.items()))
        for x, v in R.returns():
            if f == 'get_federation_fetch_endpoint' and v[0] == 'item':
                tok, ok = self_verified(v)
                cached = mentions(v, lambda y: y[0] == 'attr' and y[2] == '_db')
                uniq(ctx, 'used-verified', done, R.qual, ok or cached or (None if about(v) and not mentions(
                    v, lambda t: t[0] == 'payload') else False),
                    f'the fetch endpoint is taken from something that is not verified: {show(v)[:80]}', R.where(x),
                    R.path(x))
        if not n:
            ctx.ob('cached-verified', R.qual, True, 'nothing is cached')
    R = ctx.run('fedservice.entity.function.collect_trust_chains', boundary=('collect_tree', 'TrustChainCollector.__call__',
                                                                           'tree2chains'))
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('.collect_tree'):
            v = dict(e.args).get('entity_configuration', NONE)
            tok, ok = self_verified(v)
            uniq(ctx, 'used-verified', done, R.qual, ok or (None if tok is None and about(v) and not mentions(
                v, lambda t: t[0] == 'payload') else False),
                f'superiors are collected from an entity configuration that is not verified: {show(v)[:80]}', e.where)
