"""C01 - C05, C08: what an accepted trust chain went through (fedservice.entity.function.verifier)."""
from .base import *

VERIFIER = 'fedservice.entity.function.verifier.TrustChainVerifier'
RESTR = 'fedservice.entity_statement.constraints.meets_restrictions'


def chain_run(ctx):
    return ctx.run(VERIFIER + '.__call__', boundary=(RESTR,))


def accepted(ctx, R):
    """The exits that accept a chain: [(exit, verified chain, attributes of the TrustChain)]"""
    out = []
    for x, v in R.returns():
        if x.st.know(a_truthy(v)) is False or v == NONE:
            continue
        if v[0] == 'inst':
            at = dict(v[2])
            out.append((x, at.get('verified_chain', NONE), at))
        else:
            out.append((x, None, {}))
    return out


def sup_of(A, tok, view):
    """-> (payload of the statement above, whether there is one: True/False/None)"""
    if tok[0] == 'elem':
        dom = tok[2]
        i = ('idx', tok[1])
        if dom[0] == 'slice' and dom[4] == NONE and dom[2] == C(1):
            return ('payload', A.item_term(dom[1], i)), True
        k = view.know(a_eq(i, C(0)))
        return ('payload', A.item_term(dom, mk_lin({i: 1}, -1))), (None if k is None else not k)
    if tok[0] == 'item' and tok[2][0] == 'const' and isinstance(tok[2][2], int):
        if tok[2][2] == 0:
            return None, False
        return ('payload', ('item', tok[1], C(tok[2][2] - 1))), True
    return None, None


def dom_of(tok):
    d = tok[2] if tok[0] == 'elem' else tok[1] if tok[0] == 'item' else None
    while d and d[0] == 'slice':
        d = d[1]
    return d


def covers(A, t, chain):
    """Does the list have one element per element of the chain, in order? True/False/None"""
    r = one_value(A, t)
    if r:
        return True if canon_dom(A, r[1]) == chain else False
    if t[0] == 'list' and len(t) == 3 and t[1][0] == 'item' and t[2][0] == 'many':
        r = one_value(A, ('list', t[2]))
        if r and r[1] == ('slice', chain, C(1), NONE, NONE):
            return True
    if t[0] == 'list' and all(s[0] in ('item', 'many') for s in t[1:]):
        return False
    return None


def per_statement(ctx, rule, req, chain=('sym', 'chain'), what=''):
    """req(view, tok, raw value) -> (ok, why) for every statement of every accepted chain."""
    R = chain_run(ctx)
    A = R.A
    acc = accepted(ctx, R)
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    seen = {}
    for x, vc, at in acc:
        if vc is None:
            ctx.ob(rule, R.qual, None, 'accepts with a value of unknown origin')
            continue
        facts = list(x.st.facts.items())
        key = (vc, tuple(a for a, v in facts if a[0] == 'forall'))
        if key in seen:
            continue
        seen[key] = True
        c = covers(A, vc, chain)
        if c is not True:
            ctx.ob(rule, R.qual, c, 'the verified chain is not one statement per statement of the chain',
                   R.where(x), R.path(x))
            continue
        memo = {}

        def r(view, v, lids):
            if v[0] not in ('verified', 'payload'):
                ok, why = False, f'not a statement of the chain: {show(v)[:80]}'
            else:
                ok, why = req(A, view, v[1], v)
            memo['why'] = why
            return ok
        n = 0
        bad = set()
        for ok, why, fs, v in along(A, vc, facts, r):
            n += 1
            why = why or memo.get('why', '')
            if ok is True:
                ctx.ob(rule, f'{R.qual} statement#{n}', True, what)
            elif (ok, why) not in bad:
                bad.add((ok, why))
                ctx.ob(rule, R.qual, ok, why, R.where(x),
                       R.path(x) + ['-- the iteration:'] + [show_atom(*f)[:200] for f in fs])
    if not acc:
        ctx.ob(rule, R.qual, None, 'no accepting path found')


def P(tok, k):
    return ('item', ('payload', tok), C(k))


def signed(A, view, tok, raw):
    if raw[0] != 'verified':
        return False, 'accepted without being verified'
    keys = raw[2]
    n = view.norm(keys)
    # without keys the verification of a parsed token (cryptojwt.jws.jws.factory) fails
    if n in (NONE, ('list',)):
        return False, 'verified without keys'
    sup, has = sup_of(A, tok, view)
    own = mentions(n, ('attr', FE, 'keyjar'))
    selfk = mentions(n, ('payload', tok)) and mentions(n, lambda t: t == P(tok, 'jwks'))
    if selfk:
        return False, 'verified with keys from the statement itself'
    if has is False:
        if own:
            return True, ''
        return (None if n[0] in ('lo', 'sym') else False), 'the first statement is not verified with my own keys'
    supk = sup is not None and mentions(n, ('item', sup, C('jwks')))
    if supk and not own:
        if has is None and False:
            return None, ''
        return True, ''
    if own and not supk:
        linked = view.know(a_eq(P(tok, 'iss'), ('item', sup, C('sub'))))
        if linked is False:
            return True, ''
        if linked is None and view.opaque([P(tok, 'iss')]):
            return None, ''
        return False, 'verified with something else than the keys in the statement above'
    if own and supk:
        linked = view.know(a_eq(P(tok, 'iss'), ('item', sup, C('sub'))))
        if linked is False:
            return True, ''
        return False, 'verified with more than the keys in the statement above'
    if mentions(n, lambda t: t[0] in ('lo', 'lv', 'phi')):
        return None, f'keys of unknown origin {show(n)[:80]}'
    return False, f'keys that are not from the statement above: {show(n)[:120]}'


def linked(A, view, tok, raw):
    sup, has = sup_of(A, tok, view)
    if has is False:
        return True, ''
    ssub = ('item', sup, C('sub'))
    if view.know(a_eq(P(tok, 'iss'), ssub)) is True:
        return True, ''
    me = ('attr', FE, 'entity_id')
    if view.know(a_eq(P(tok, 'sub'), ssub)) is True and (
            view.know(a_eq(P(tok, 'sub'), me)) is True or view.know(a_eq(ssub, me)) is True):
        if tok[0] == 'elem':
            dom = tok[2]
            off = 1
            if dom[0] == 'slice':
                dom, off = dom[1], 2
            last = a_eq(mk_lin({('idx', tok[1]): 1, ('len', dom): -1}, off), C(0))
            if view.know(last) is True or view.know(a_eq(('idx', tok[1]), mk_lin({('len', dom): 1}, -off))) is True:
                return True, ''
        return False, 'the exception for registration responses is not limited to the last statement'
    if view.opaque([P(tok, 'iss')]):
        return None, 'linked by something not understood'
    return False, 'a statement that is not issued by the subject of the statement above is accepted'


def not_expired(A, view, tok, raw):
    e = P(tok, 'exp')
    p = ('payload', tok)
    if view.know(neg(a_lt(e, NOW))) is True or view.know(a_lt(NOW, e)) is True:
        return True, ''
    if view.know(a_in(C('exp'), p)) is False or view.know(neg(a_truthy(e))) is True or view.know(a_none(e)) is True:
        return True, ''
    if view.opaque([e]):
        return None, ''
    return False, 'a statement that may have expired is accepted'


def crit_known(claim, known):
    def f(A, view, tok, raw):
        c = P(tok, claim)
        if view.know(a_in(C(claim), ('payload', tok))) is False or view.know(neg(a_truthy(c))) is True or \
                view.know(a_none(c)) is True:
            return True, ''
        for a, v in view.facts.items():
            if a[0] == 'subset' and v and a[1] == c:
                if known(a[2]):
                    return True, ''
                return False, f'{claim} compared to {show(a[2])[:80]}'
        if view.opaque([c]):
            return None, ''
        return False, f'unknown {claim} is not refused'
    return f


def c_params(t):
    return t[0] == 'classattr' and t[2] == 'c_param' and t[1].endswith('message.EntityStatement')


def policy_funcs(t):
    return t[0] == 'global' and t[1].endswith('.POLICY_FUNCTIONS') or \
        t[0] == 'global' and t[1] == 'POLICY_FUNCTIONS'


def c01(ctx):
    per_statement(ctx, 'signature', signed, what='verified with the right keys')


def c02(ctx):
    R = chain_run(ctx)
    chain = ('sym', 'chain')
    rule = 'configured-anchor'
    me, tas = ('attr', FE, 'entity_id'), ('attr', FE, 'trust_anchors')

    def trusted(view, iss):
        if view.know(a_eq(iss, me)) is True:
            return 'me'
        if view.know(a_in(iss, tas)) is True:
            return 'anchor'
        return None
    first = P(('item', chain, C(0)), 'iss')
    for x, vc, at in accepted(ctx, R):
        view = R.view(x)
        t = trusted(view, first)
        if not t and vc is not None:
            t = 'loop'
            for ok, why, fs, v in along(R.A, vc, list(x.st.facts.items()), lambda w, v, l: (
                    w.know(a_eq(('idx', v[1][1]), C(0))) is False or bool(trusted(w, P(v[1], 'iss')))
                    if v[0] in ('verified', 'payload') and v[1][0] == 'elem' else
                    bool(trusted(w, P(v[1], 'iss'))))):
                if ok is not True:
                    t = None
        ok = True if t else (None if view.opaque([first]) else False)
        ctx.ob(rule, R.qual, ok, t or 'a chain is accepted though its first issuer is not a configured trust anchor',
               R.where(x), R.path(x))


def c03(ctx):
    per_statement(ctx, 'linkage', linked, what='issued by the subject above')


def c04(ctx):
    per_statement(ctx, 'not-expired', not_expired, what='not expired')
    R = chain_run(ctx)
    A = R.A
    chain = ('sym', 'chain')
    norm = norm_of(A)
    seen = set()
    for x, vc, at in accepted(ctx, R):
        key = (at.get('exp'), at.get('iss_path'), at.get('anchor'), at.get('chain'), vc)
        if vc is None or key in seen:
            continue
        seen.add(key)
        e = at.get('exp', NONE)
        m = min_over(A, e)
        if m:
            dom, val, lid = m
            v = norm(val)
            ok = canon_dom(A, dom) == chain and v == P(('elem', lid, chain), 'exp')
            ctx.ob('exp-is-min', R.qual, True if ok else False, '' if ok else f'expires at the minimum of {show(v)[:80]}',
                   R.where(x), R.path(x))
        else:
            bad = e[0] in ('const', 'item', 'lin', 'sym') or e[0] == 'lo' or e[0] == 'call' and e[1].endswith('max')
            ctx.ob('exp-is-min', R.qual, False if bad else None, f'the life time {show(e)[:100]} is not the minimum of '
                   'those of the statements', R.where(x), R.path(x))
        ip = at.get('iss_path', NONE)
        r = one_value(A, ip[1]) if ip[0] == 'rev' else None
        ok = None
        if r:
            ok = canon_dom(A, r[1]) == chain and norm(r[2]) == P(('elem', r[0], chain), 'iss') or \
                norm(unify_idx(r[2], r[0], r[0], r[1])) == P(('elem', r[0], chain), 'iss')
        elif ip[0] in ('list', 'const', 'sym'):
            ok = False
        ctx.ob('iss-path', R.qual, ok, f'the issuer path is {show(ip)[:100]}', R.where(x), R.path(x))
        an = norm(at.get('anchor', NONE))
        ok = an == P(('item', chain, C(0)), 'iss')
        if not ok and an[0] == 'item' and an[1][0] == 'rev':
            ok = None
        ctx.ob('anchor', R.qual, ok, f'the anchor is {show(an)[:100]}', R.where(x), R.path(x))
        ctx.ob('chain-kept', R.qual, at.get('chain') == chain, 'the chain kept is not the verified one', R.where(x))


def c08(ctx):
    per_statement(ctx, 'crit', crit_known('crit', c_params), what='critical claims known')
    per_statement(ctx, 'policy-crit', crit_known('policy_language_crit', policy_funcs), what='critical operators known')


ADDERS = ('add_kb', 'import_jwks', 'import_jwks_as_json', 'import_jwks_from_file', 'add_url', 'load_keys', 'add_keys',
          'add_symmetric', 'add', 'append', 'set', 'update', 'extend', '__setitem__', 'setitem', 'setattr')
KEYJAR = ('attr', FE, 'keyjar')


def key_adds(R):
    """Everything that is put into the federation key jar: [(event, normalised arguments)]"""
    norm = norm_of(R.A)
    for e in R.A.log:
        n = e.name.rpartition('.')[2]
        if e.kind not in ('call', 'mut') or n not in ADDERS:
            continue
        args = [(k, norm(v)) for k, v in e.args]
        if args and args[0][1] == KEYJAR:
            yield e, n, dict(args[1:])


def unsure(view, iss):
    """A condition on the issuer that is not understood. Which keys are known already says nothing about who the issuer is."""
    def keys(t):
        return ('sym', '$keys') if t[0] == 'call' and t[1].endswith('get_issuer_keys') and mentions(t, KEYJAR) else t
    rest = [(subst(a, keys), w) for a, w in view.facts.items()]
    return View(view.A, [(a, w) for a, w in rest if not (a[0] == 'in' and a[2] == ('sym', '$keys'))], view.norm).opaque([iss])


def c05(ctx):
    me, tas = ('attr', FE, 'entity_id'), ('attr', FE, 'trust_anchors')
    coll = 'fedservice.entity.function.trust_chain_collector.TrustChainCollector'
    runs = [chain_run(ctx), ctx.run('fedservice.entity.FederationEntity.trawl')]
    runs += [ctx.run(f'{coll}.{f}', boundary=b) for f, b in (
        ('__call__', ('get_document', 'get_request_parameters', 'collect_tree')),
        ('collect_tree', ('get_document', 'get_request_parameters', 'collect_branch')),
        ('collect_branch', ('get_entity_configuration', 'get_entity_statement', 'get_federation_fetch_endpoint',
                            'collect_tree')),
        ('get_federation_fetch_endpoint', ('get_document', 'get_request_parameters')))]
    for R in runs:
        if R.limit:
            ctx.ob('key-add', R.qual, None, 'exploration limit')
            continue
        ctx.ob('key-add', R.qual, True, 'nothing else is added')
        sites = {}
        for e, n, args in key_adds(R):
            iss = args.get('issuer_id', args.get('0'))
            vals = [v for k, v in args.items() if k != 'issuer_id']
            view = View(R.A, list(e.facts.items()))
            site = f'{e.stack[-1]}:{n}'
            ok, why = True, ''
            if iss is None:
                ok, why = None, 'no issuer'
            else:
                src = None
                if iss[0] == 'item' and iss[2] == C('sub'):
                    src = iss[1]
                else:
                    for a, v in view.facts.items():
                        if a[0] == 'eq' and v and iss in a[1:]:
                            o = a[1] if a[2] == iss else a[2]
                            if o[0] == 'item' and o[2] == C('sub'):
                                src = o[1]
                if src is None:
                    ok = None if mentions(iss, lambda t: t[0] in ('lo', 'lv')) else False
                    why = f'keys added for {show(iss)[:80]}, not for the subject of the statement'
                elif not any(mentions(v, ('item', src, C('jwks'))) for v in vals):
                    ok, why = False, f'the keys added for {show(iss)[:60]} are not those in the statement'
                elif src[0] == 'payload' and not any(mentions(v, lambda t: t[0] == 'verified' and t[1] == src[1])
                                                     for k, v in e.args):
                    ok, why = False, 'keys from a statement that is not verified are added'
                else:
                    absent = view.know(a_in(iss, KEYJAR)) is False or view.any(
                        lambda a, v: a[0] == 'completed' and not v and a[1][0] == 'call' and
                        a[1][1].endswith('get_issuer_keys') and mentions(a[1], iss) and mentions(a[1], KEYJAR))
                    mine = view.know(a_eq(iss, me)) is False
                    ta = view.know(a_in(iss, tas)) is False
                    if not absent and not (mine and ta):
                        what = 'a configured trust anchor' if not ta else 'the entity itself'
                        ok = None if unsure(view, iss) else False
                        why = f'the keys of {what} may be extended from a statement'
            sites.setdefault((site, ok, why), e)
        for (site, ok, why), e in sites.items():
            ctx.ob('key-add', site, ok, why, e.where, [show_atom(*f)[:200] for f in list(e.facts.items())[-12:]])
    # what is added when it is not known whether the keys are trusted must be seen by the runs
    if not ctx.obs:
        ctx.ob('key-add', runs[0].qual, None, 'no keys are added')
