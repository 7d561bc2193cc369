"""Where verified trust chains and verified metadata come from (C24, C25, C26, C35)."""
from .base import *
from .abstract import about
from .chain import P
from .chain import KEYJAR
from .collector import uniq
from .marks import arg
from .marks import truthy_returns
from .marks import verdict

FN = 'fedservice.entity.function'
FENT = 'fedservice.entity.FederationEntity'
EID = ('sym', 'entity_id')
CHAINS = ('get_verified_trust_chains', 'verify_trust_chains', 'apply_policies', 'collect_trust_chains', 'pick_trust_chain',
          'TrustChainVerifier.__call__', 'TrustChainPolicy.__call__')


def last(t):
    return t[1].rpartition('.')[2] if t[0] == 'call' else ''


def args_of(t):
    return [a for a in t[2] if a[0] != 'self']


def same(view, a, who):
    if a is None:
        return None
    if a == who or view.know(a_eq(a, who)) is True:
        return True
    return None if about(a) else False


def worst(*ks):
    return False if False in ks else None if None in ks else True


def tr_chain(t):
    """The trust chains that the federation entity has stored."""
    return t[0] == 'attr' and t[2] == 'trust_chain'


def applied(A, t):
    """The policies are applied to it, in place."""
    n = norm_of(A)
    return any(e.kind == 'call' and e.name.rpartition('.')[2] == 'apply_policies' and any(
        n(v) == t for k, v in e.args) for e in A.log)


def chains_of(A, view, t, who, policy=True):
    """Is it a list of verified trust chains, with the policies applied, of an entity? True / False / None"""
    while t[0] in ('rev', 'sorted', 'deep', 'slice'):
        t = t[1]
    if t[0] in ('list', 'tuple'):
        r = True
        for val, facts, lids in each(A, t):
            v2 = view.plus(facts)
            if val[0] == 'all':
                r = worst(r, chains_of(A, v2, val[1], who, policy))
            else:
                r = worst(r, chain_of(A, v2, norm_of(A)(val), who, policy))
        return r
    if policy and t[0] != 'call' and not tr_chain(t) and applied(A, t):
        policy = False
    n = last(t)
    if n == 'get_verified_trust_chains':
        return same(view, arg(args_of(t), 1, 'entity_id'), who)
    if n in ('get_trust_chains', 'get_stored_trust_chains'):
        return same(view, arg(args_of(t), 0, 'entity_id'), who)
    if n == 'apply_policies':
        x = arg(args_of(t), 1, 'trust_chains')
        return None if x is None else chains_of(A, view, x, who, False)
    if n == 'verify_trust_chains':
        if policy and not applied(A, t):
            return False
        a = args_of(t)
        c = arg(a, 1, 'chains')
        if c is None:
            return None
        if c[0] == 'item' and last(c[1]) == 'collect_trust_chains':
            ec = [v for k, v in a if k not in ('unit', 'chains', '0', '1')]
            req = arg(args_of(c[1]), 2, 'signed_entity_configuration')
            ok = ec and (ec[-1] == ('item', c[1], C(1)) or req is not None and ec[-1] == req)
            return worst(same(view, arg(args_of(c[1]), 1, 'entity_id'), who), bool(ok) or (
                None if ec and about(ec[-1]) else False))
        return None if about(c) and c[0] != 'list' else 'provided'
    if n == 'collect_trust_chains' or t[0] == 'item' and last(t[1]) == 'collect_trust_chains':
        return False
    if t[0] == 'item' and tr_chain(t[1]):
        return same(view, t[2], who)
    return None


def chain_of(A, view, t, who, policy=True):
    """Is it a verified trust chain of the entity?"""
    if policy and applied(A, t):
        policy = False
    if t[0] == 'item':
        r = chains_of(A, view, t[1], who, policy)
    elif t[0] == 'elem':
        r = chains_of(A, view, t[2], who, policy)
    elif last(t) == 'pick_trust_chain':
        x = arg(args_of(t), 0, 'trust_chains')
        r = None if x is None else chains_of(A, view, x, who, policy)
    elif last(t) in ('verify_trust_chain', 'verifier') or t[0] == 'call' and t[1].endswith('TrustChainVerifier.__call__'):
        r = False if policy else 'provided'
    elif t[0] == 'phi':
        return worst(*(chain_of(A, view, y, who, policy) for y in t[1:] if isinstance(y, tuple) and y and isinstance(
            y[0], str))) if len(t) > 1 else None
    else:
        r = None
    if r == 'provided':
        # whose trust chain it is, is up to the one who provided it: the last statement tells
        r = own(view, t, who)
    return r


def own(view, t, who):
    """Does the trust chain end with the entity's own statement?"""
    vc = ('attr', t, 'verified_chain')
    last_ = [('item', vc, C(-1))]
    ok = False
    for l in last_:
        s, i = ('item', l, C('sub')), ('item', l, C('iss'))
        ks, ki, e = view.know(a_eq(s, who)), view.know(a_eq(i, who)), view.know(a_eq(i, s))
        if ks is True and (ki is True or e is True) or ki is True and e is True:
            return True
    p = [('item', ('attr', t, 'iss_path'), C(0)), ]
    if view.opaque([t]) or any(mentions(a, t) and (a[0] not in ('eq', 'truthy', 'in', 'none') or a[0] == 'truthy' and a[
            1][0] == 'call' and any(mentions(v, t) for k, v in a[1][2] if isinstance(v, tuple))) for a in view.facts):
        ok = None
    return ok


def metadata_of(A, view, t, who):
    """Is it the metadata in a verified trust chain of the entity?"""
    if t[0] == 'attr' and t[2] == 'metadata':
        return chain_of(A, view, t[1], who)
    n = last(t)
    if n == 'get_verified_metadata':
        return same(view, arg(args_of(t), 0, 'entity_id'), who)
    if n == 'claims' and dict(t[2]).get('self') is not None:
        return chain_of(A, view, dict(t[2])['self'], who)
    if t[0] == 'call' and n in ('copy', 'deepcopy'):
        return metadata_of(A, view, t[2][0][1], who)
    if t[0] == 'item':  # a trust chain is also a dictionary
        r = metadata_of(A, view, t[1], who)
        return r if r is not None else None
    if t[0] == 'const':
        return True
    if t[0] in ('payload', 'verified') or t[0] == 'attr' and mentions(t, lambda y: y[0] == 'attr' and y[2] in (
            'verified_chain', 'config_cache', 'chain')):
        return False
    return None


def from_metadata(A, view, t, who):
    """Something in it: metadata[..][..]"""
    while True:
        r = metadata_of(A, view, t, who)
        if r is not None or t[0] != 'item' and last(t) != 'get':
            return r
        t = t[1] if t[0] == 'item' else dict(t[2]).get('self', NONE)


def anchor(view, who):
    """The entity is a configured trust anchor."""
    return view.any(lambda a, w: w and a[0] == 'in' and a[1] == who and a[2][0] == 'attr' and a[2][2] == 'trust_anchors')


def anchor_statement(view, t, who):
    """Something in the verified entity configuration of the trust anchor."""
    while t[0] == 'item' or last(t) == 'get' and 'self' in dict(t[2]):
        t = t[1] if t[0] == 'item' else dict(t[2])['self']
    n = last(t)
    if n == 'get_verified_trust_anchor_statement':
        return same(view, arg(args_of(t), 1, 'entity_id'), who)
    if n == 'do_request':
        a = dict(t[2])
        r = a.get('request_type', a.get('0'))
        return worst(True if r == C('entity_configuration') else None, same(view, a.get('entity_id'), who))
    if n in ('get_entity_configuration', 'get_signed_entity_configuration') or t[0] == 'payload':
        return False
    return None


def endpoints(ctx, done):
    for qual, who in ((FN + '.get_entity_endpoint', EID), (FN + '.trust_anchor.get_verified_endpoint', EID)):
        R = ctx.run(qual, boundary=CHAINS + ('do_request', 'get_verified_trust_anchor_statement'))
        if R.limit:
            ctx.ob('endpoint', qual, None, 'exploration limit')
        for x, v in truthy_returns(R):
            view = R.view(x)
            n = norm_of(R.A)(v)
            ok, why = from_metadata(R.A, view, n, who), 'the endpoint is not from a verified trust chain of the entity'
            if ok is not True:
                k = anchor_statement(view, n, who)
                if k:
                    ok = True if anchor(view, who) else False
                    why = 'the endpoint is from the statement of an entity that is no trust anchor'
                elif k is False:
                    ok, why = False, 'the endpoint is from a statement that is not verified'
            uniq(ctx, 'endpoint', done, qual, ok, why, R.where(x), R.path(x))


def ta_statement(ctx, done):
    qual = FN + '.trust_anchor.get_verified_trust_anchor_statement'
    R = ctx.run(qual)
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        norm = norm_of(R.A)
        n += 1
        w, path = R.where(x), R.path(x)
        t = norm(v)
        if t[0] not in ('payload', 'verified') or v[0] != 'verified':
            uniq(ctx, 'anchor-statement', done, qual, False if v[0] == 'payload' or v == NONE else None,
                 'a statement is used without being verified', w, path)
            continue
        tok = v[1]
        p = norm(v)
        keys = norm(v[2])
        ok = mentions(keys, lambda y: y[0] == 'attr' and y[2] == 'keyjar') and not mentions(keys, lambda y: y[0] == 'item' and y[2] == C('jwks'))
        uniq(ctx, 'anchor-statement', done, qual, ok or (None if not mentions(keys, lambda y: y[0] == 'item' and y[
            2] == C('jwks')) else False), 'it is not verified with the configured keys', w, path)
        for c in ('iss', 'sub'):
            ok = any(view.know(a_eq(('item', q, C(c)), EID)) is True for q in (p, ('payload', tok)))
            other = 'sub' if c == 'iss' else 'iss'
            ok = ok or any(view.know(a_eq(('item', q, C(c)), ('item', q, C(other)))) is True and view.know(
                a_eq(('item', q, C(other)), EID)) is True for q in (p, ('payload', tok)))
            uniq(ctx, 'anchor-statement', done, qual, ok or (None if view.opaque([p]) else False),
                 'it may be a statement about or from someone else', w, path)
        e = ('item', ('payload', tok), C('exp'))
        ok = view.know(a_in(C('exp'), ('payload', tok))) is False or view.know(a_lt(e, NOW)) is False
        uniq(ctx, 'anchor-statement', done, qual, ok or (None if view.opaque([p]) else False), 'it may have expired', w, path)
    if not n:
        ctx.ob('anchor-statement', qual, None, 'no statement is returned')


def provider_info(ctx, done):
    qual = 'fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity._collect_metadata'
    R = ctx.run(qual, boundary=CHAINS + ('save_trust_chains', '_import_keys'))
    iss = ('attr', ('sym', 'context'), 'issuer')
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        norm = norm_of(R.A)
        w, path = R.where(x), R.path(x)
        m = norm(v)
        n += 1
        ok = from_metadata(R.A, view, m, iss)
        if v == NONE:
            ok = None
        uniq(ctx, 'provider-metadata', done, qual, ok, 'the metadata is not from a verified trust chain', w, path)
        if m[0] == 'item':
            uniq(ctx, 'provider-metadata', done, qual, m[2] == C('openid_provider'), 'metadata of another entity type', w,
                 path)
        mi = ('item', m, C('issuer'))
        ok = view.know(a_eq(mi, iss)) is True
        uniq(ctx, 'issuer-checked', done, qual, ok or (None if view.opaque([m]) else False),
             'metadata about another issuer is accepted', w, path)
    for e in R.A.log:
        if e.kind == 'setattr' and e.name == 'provider_info':
            norm = norm_of(R.A)
            view, m = View(R.A, list(e.facts.items())), norm(dict(e.args)['value'])
            uniq(ctx, 'provider-metadata', done, qual, from_metadata(R.A, view, m, iss),
                 'the metadata is not from a verified trust chain', e.where)
            ok = view.know(a_eq(('item', m, C('issuer')), iss)) is True
            uniq(ctx, 'issuer-checked', done, qual, ok or (None if view.opaque([m]) else False),
                 'metadata about another issuer is accepted', e.where)
        if e.kind == 'call' and e.name.endswith('_import_keys'):
            a = [y for y in e.args if y[0] != 'self']
            norm = norm_of(R.A)
            view = View(R.A, list(e.facts.items()))
            r, i = arg(a, 0, 'resp'), arg(a, 2, 'issuer')
            m = norm(r)
            ok = from_metadata(R.A, view, m, iss)
            uniq(ctx, 'provider-keys', done, qual, ok, 'the keys are not from the verified metadata', e.where)
            ii = norm(i)
            ok = ii == iss or ii == ('item', m, C('issuer')) and view.know(a_eq(ii, iss)) is True or \
                view.know(a_eq(ii, iss)) is True
            uniq(ctx, 'provider-keys', done, qual, ok or (None if about(ii) and ii[0] != 'item' else False),
                 'the keys are stored for another issuer', e.where)
    if not n:
        ctx.ob('provider-metadata', qual, None, 'no metadata is returned')


def verified_metadata(ctx, done):
    R = ctx.run(FENT + '.get_verified_metadata', boundary=CHAINS + ('get_stored_trust_chains', 'get_trust_chains'))
    n = 0
    for x, v in truthy_returns(R):
        n += 1
        ok = metadata_of(R.A, R.view(x), norm_of(R.A)(v), EID)
        uniq(ctx, 'verified-metadata', done, R.qual, ok, 'metadata that is not from a verified trust chain of the entity',
             R.where(x), R.path(x))
    R = ctx.run(FENT + '.get_federation_entity_metadata', boundary=CHAINS + ('get_verified_metadata',))
    for x, v in truthy_returns(R):
        n += 1
        view, t = R.view(x), norm_of(R.A)(v)
        ok = from_metadata(R.A, view, t, EID)
        uniq(ctx, 'verified-metadata', done, R.qual, ok, 'metadata that is not from a verified trust chain of the entity',
             R.where(x), R.path(x))
        if t[0] == 'item':
            uniq(ctx, 'verified-metadata', done, R.qual, t[2] == C('federation_entity'), 'metadata of another type',
                 R.where(x), R.path(x))
    R = ctx.run(FN + '.get_verified_trust_chains', boundary=tuple(b for b in CHAINS if b != 'get_verified_trust_chains'))
    for x, v in truthy_returns(R):
        n += 1
        ok = chains_of(R.A, R.view(x), norm_of(R.A)(v), EID)
        uniq(ctx, 'verified-chains', done, R.qual, verdict(ok), 'trust chains that are not verified, or no policies applied',
             R.where(x), R.path(x))
    R = ctx.run('fedservice.entity.client.trust_mark.TrustMark.get_endpoint',
                boundary=CHAINS + ('get_trust_chains', 'store_trust_chains', 'get_verified_metadata'))
    for x, v in truthy_returns(R):
        t = norm_of(R.A)(v)
        who = [y for y in subterms(t) if y[0] == 'attr' and y[2] == 'issuer']
        ok = from_metadata(R.A, R.view(x), t, who[0]) if who else None
        uniq(ctx, 'verified-metadata', done, R.qual, ok, 'metadata that is not from a verified trust chain of the entity',
             R.where(x), R.path(x))
    ctx.part(policies_applied, done)


def policies_applied(ctx, done):
    R = ctx.run(FN + '.apply_policies', boundary=('TrustChainPolicy.__call__',))
    tcs = ('sym', 'trust_chains')
    norm = norm_of(R.A)
    pol = [(norm(arg([y for y in e.args if y[0] != 'self'], 0, 'trust_chain') or NONE), e) for e in R.A.log
           if e.kind == 'call' and e.name.endswith('TrustChainPolicy.__call__')]

    def hit(view, val):
        es = [e for p, e in pol if p == val or last(val) == '__call__']
        ks = [[view.know((f, w)) for f, w in e.facts.items() if mentions(f, lambda t: t[0] == 'elem')] for e in es]
        if any(all(k is True for k in k1) for k1 in ks):
            return True
        # one call, under a condition that does not have to hold where the trust chain is kept
        return False if len(es) == 1 or all(any(k is False for k in k1) for k1 in ks) else None
    for x, v in R.returns():
        view = R.view(x)
        if v == tcs:
            els = [(('elem', lid, dom), ()) for lid, dom, alts in foralls(R.A, x.st.facts.items()) if dom == tcs]
            els = els or [(p, ()) for p, e in pol if p[0] == 'elem' and p[2] == tcs]
            ok = True if els else False
        else:
            els = [(val, f) for val, f, l in each(R.A, norm(v))]
            ok = True if els or v == ('list',) else None
        for val, f in els:
            v2 = view.plus(f)
            if val[0] == 'all':
                ok = worst(ok, None)
                continue
            inp = val[0] == 'elem' and val[2] == tcs or last(val) == '__call__' and mentions(val, tcs)
            ok = worst(ok, hit(v2, val) if inp else False)
        uniq(ctx, 'policies-applied', done, R.qual, ok, 'trust chains that no policy has been applied to', R.where(x),
             R.path(x))


def c24(ctx):
    done = set()
    ctx.part(verified_metadata, done)
    ctx.part(endpoints, done)
    ctx.part(ta_statement, done)
    ctx.part(provider_info, done)


# ---------------------------------------------------------------------- C26
def stale(view, tc):
    """Has the trust chain expired? True / False / None (not looked at)"""
    e = ('attr', tc, 'exp')
    k = view.know(a_lt(e, NOW))
    if k is None and (view.know(a_lt(NOW, e)) is True or view.know(a_eq(NOW, e)) is True):
        k = False
    if k is not None:
        return k
    for a, w in view.facts.items():
        if a[0] == 'truthy' and last(a[1]) == 'is_expired' and dict(a[1][2]).get('self') == tc:
            return w
    return None


def stored(t, who=EID):
    """What is stored about an entity."""
    return t[0] == 'item' and tr_chain(t[1]) and t[2] == who


def usable(A, view, t, who=EID):
    """Are they all trust chains of the entity, none of which has expired? (those just verified have not)"""
    while t[0] in ('rev', 'sorted', 'deep', 'slice'):
        t = t[1]
    if t[0] in ('list', 'tuple'):
        r = True
        for val, facts, lids in each(A, t):
            v2 = view.plus(facts)
            r = worst(r, usable(A, v2, val[1], who) if val[0] == 'all' else usable1(A, v2, norm_of(A)(val), who))
        return r
    if last(t) in ('get_verified_trust_chains', 'apply_policies'):
        return chains_of(A, view, t, who)
    if last(t) in ('get_stored_trust_chains', 'get_trust_chains'):
        return same(view, arg(args_of(t), 0, 'entity_id'), who)
    if stored(t, who) or t[0] == 'item' and tr_chain(t[1]):
        # every one of them has been looked at
        for lid, dom, alts in foralls(A, view.facts.items()):
            if norm_of(A)(dom) == t and all(stale(view.plus(d), norm_of(A)(('elem', lid, dom))) is False for d, ev, v in alts):
                return True
        # what is known about some of them says nothing about the others
        fog = murky(view.facts.items(), t) + [
            1 for lid, dom, alts in foralls(A, view.facts.items()) if norm_of(A)(dom) == t and any(
                stale(view.plus(d), norm_of(A)(('elem', lid, dom))) is None and murky(
                    [(norm_of(A)(a), w) for a, w in d], norm_of(A)(('elem', lid, dom))) for d, ev, v in alts)]
        return None if fog else False
    return None


def murky(facts, t):
    """What is asked about t that may have to do with expiry."""
    return [a for a, w in facts if a[0] not in ('forall', 'in', 'none', 'lt') and mentions(a, t) and not (
        a[0] == 'truthy' and (a[1] == t or a[1][0] == 'list' or last(a[1]) == 'is_expired' or a[1][0] == 'attr' and a[1][2] == 'exp'))]


def usable1(A, view, tc, who=EID):
    base = tc[2] if tc[0] == 'elem' else tc[1] if tc[0] == 'item' else None
    k = stale(view, tc)
    if last(tc) == 'pick_trust_chain':
        base = arg(args_of(tc), 0, 'trust_chains')
    if base is None:
        return None
    if k is not None and (stored(base, who) or base[0] in ('rev', 'sorted') and stored(base[1], who)):
        return not k
    if k is True:
        return False
    return usable(A, view, base, who)


def fresh_calls(view, v):
    return [t for y in [v] + [a for a, w in view.facts.items()] for t in subterms(y)
            if last(t) == 'get_verified_trust_chains']


def c26(ctx):
    done = set()
    # what has expired is never used
    for f, keep in (('get_stored_trust_chains', ()), ('get_trust_chains', ()), ('get_verified_metadata', ())):
        R = ctx.run(f'{FENT}.{f}', boundary=CHAINS + keep)
        A, norm = R.A, norm_of(R.A)
        if R.limit:
            ctx.ob('not-expired', R.qual, None, 'exploration limit')
            continue
        n = 0
        for x, v in R.returns():
            view, t = R.view(x), norm(v)
            if t in (NONE, ('list',)) or x.st.know(a_truthy(v)) is False:
                if f != 'get_stored_trust_chains':
                    # nothing usable: they have been collected anew
                    ok = any(view.know(a_truthy(c)) is False or view.know(a_eq(('len', c), C(0))) is True
                             for c in fresh_calls(view, t))
                    uniq(ctx, 'collected-anew', done, R.qual, ok or (None if view.opaque([EID]) else False),
                         'there is no answer though the trust chains have not been collected anew', R.where(x), R.path(x))
                continue
            n += 1
            if f == 'get_verified_metadata':
                while t[0] == 'attr' and t[2] == 'metadata' or t[0] == 'call' and last(t) in ('copy', 'deepcopy', 'claims'):
                    t = t[1] if t[0] == 'attr' else t[2][0][1]
                ok = usable1(A, view, t)
            else:
                ok = usable(A, view, t)
            uniq(ctx, 'not-expired', done, R.qual, ok, 'a stored trust chain may have expired', R.where(x), R.path(x))
            if f == 'get_stored_trust_chains':
                ok = chains_of(A, view, t, EID)
                uniq(ctx, 'stored-about', done, R.qual, ok if ok in (True, False) else None,
                     'what is stored about another entity is used', R.where(x), R.path(x))
        if not n:
            ctx.ob('not-expired', R.qual, None, 'nothing is returned')
    # when something has expired
    R = ctx.run('fedservice.entity_statement.statement.TrustChain.is_expired')
    for x, v in R.returns():
        view = R.view(x)
        k = v[2] if v[0] == 'const' else x.st.know(a_truthy(v))
        exps = [t for a, w in view.facts.items() for t in subterms(a) if t[0] == 'attr' and t[2] == 'exp']
        if v[0] == 'cond' or v[0] != 'const' and k is None:
            exps += [t for t in subterms(v) if t[0] == 'attr' and t[2] == 'exp']
        ok = None
        for t in exps:
            after, lt = view.know(a_lt(t, NOW)), view.know(a_lt(NOW, t))
            if v[0] != 'const':
                continue
            if k:
                ok = True
            elif after is False or lt is True or view.know(a_eq(t, NOW)) is True:
                ok = True
            else:
                ok = None if after is None and any(a[0] not in ('lt', 'eq', 'truthy', 'none', 'in') and mentions(a, t)
                                                   for a in view.facts) else False
        if not exps:
            ok = False if not k and v[0] == 'const' else None if not k else True
        uniq(ctx, 'expired', done, R.qual, ok, 'a trust chain that has expired may not be seen as such', R.where(x),
             R.path(x))
    ctx.part(stores, done)


def stores(ctx, done):
    """Only verified trust chains are stored."""
    for qual, who in store_sites(ctx):
        R = ctx.run(qual, boundary=CHAINS + ('store_trust_chain', 'store_trust_chains', '_import_keys', 'get_trust_chains',
                                             'get_stored_trust_chains', 'import_client_keys', 'get_keys', 'save_trust_chains',
                                             'non_fed_process_request', 'step2_process_request', 'create_entity_statement',
                                             'verify_self_signed_signature', 'get_authority_hints', 'do_request'))
        A, norm = R.A, norm_of(R.A)
        for e in A.log:
            view = View(A, list(e.facts.items()))
            a = dict(e.args)
            if e.kind == 'call' and e.name.rpartition('.')[2] in ('store_trust_chain', 'store_trust_chains'):
                b = [y for y in e.args if y[0] != 'self']
                key, val = arg(b, 0, 'entity_id'), arg(b, 1, 'trust_chains', 'chains')
            elif e.kind == 'call' and e.name.rpartition('.')[2] == 'save_trust_chains':
                key, val = None, arg([y for y in e.args], 1, 'trust_chains')
            elif e.kind == 'mut' and e.name == '[]=' and tr_chain(a['target']):
                key, val = a['key'], a['value']
            else:
                continue
            if val is None:
                ctx.ob('only-verified', qual, None, 'what is stored is not understood')
                continue
            key, val = None if key is None else norm(key), norm(val)
            if key is None:
                keys = [who_of(t) for t in subterms(val)]
                key = next((k for k in keys if k is not None), NONE)
            oks = [chain_of(A, view, val, key), chains_of(A, view, val, key)]
            ok = True if True in oks else False if False in oks else None
            if ok is not True and 'provided' not in oks:
                # under which name it is stored is another matter
                w = next((k for k in (who_of(t) for t in subterms(val)) if k is not None), None)
                if w is not None and chain_of(A, view, val, w) is True and about(key):
                    ok = True if view.know(a_eq(key, w)) is True else ok
                if w is not None and view.know(a_eq(key, w)) is True and True in (
                        chain_of(A, view, val, w), chains_of(A, view, val, w)):
                    ok = True
            if val == ('list',):
                ok = True
            uniq(ctx, 'only-verified', done, qual, verdict(ok), 'trust chains that are not verified are stored', e.where)


def who_of(t):
    n = last(t)
    if n in ('get_verified_trust_chains', 'collect_trust_chains'):
        return arg(args_of(t), 1, 'entity_id')
    if n in ('get_trust_chains', 'get_stored_trust_chains'):
        return arg(args_of(t), 0, 'entity_id')
    return None


def store_sites(ctx):
    """Functions that store trust chains, found in the source."""
    import ast
    out = []
    fs = {f.qual: f for m in ctx.repo.modules.values() for f in list(m.funcs.values()) + [
        y for c in m.classes.values() for y in c.methods.values()]}
    for q, f in sorted(fs.items()):
        if q.rpartition('.')[2] in ('store_trust_chain', 'store_trust_chains', 'save_trust_chains'):
            continue
        for n in ast.walk(f.node):
            hit = isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (
                n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in (
                'store_trust_chain', 'store_trust_chains', 'save_trust_chains')
            hit = hit or isinstance(n, (ast.Assign, ast.AugAssign)) and any(
                isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == 'trust_chain'
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))
            if hit:
                out.append((q, None))
                break
    return out
