"""C17 - C20: trust marks (function.trust_mark_verifier, trust_mark_entity)."""
from .abstract import *
from .chain import ADDERS, KEYJAR, P, key_adds
from .collector import covered, fpath, uniq
from .messages import requires as cls_requires

TMV = 'fedservice.entity.function.trust_mark_verifier.TrustMarkVerifier'
TM = 'fedservice.message.TrustMark'
CHAINS = ('collect_trust_chains', 'verify_trust_chains', 'apply_policies')
MARK = ('sym', 'trust_mark')


def plain(t):
    """A message built from claims is those claims."""
    def f(x):
        if x[0] == 'dict' and x[1] is not None and not x[2]:
            return x[1]
        return x
    return subst(t, f)


def checked(view, p, cls):
    """Was it checked that all claims required by the message class are there?"""
    return view.any(lambda a, v: a[0] == 'checked' and v and plain(a[1]) == p and
                    (a[2][2] == cls or a[2][2].endswith('.' + cls)))


def unexpired(view, p):
    e = ('item', p, C('exp'))
    if view.know(neg(a_lt(e, NOW))) is True or view.know(a_lt(NOW, e)) is True:
        return True
    if view.know(a_in(C('exp'), p)) is False or view.know(neg(a_truthy(e))) is True or view.know(a_none(e)) is True:
        return True
    return None if view.opaque([e]) else False


def verdict(ok):
    return ok if ok in (True, None) else False


def done_verifications(x):
    """Signatures that were verified on the way to an exit."""
    failed = {a[1] for a, v in x.st.facts.items() if a[0] == 'completed' and not v}
    return [t for a, v in x.st.facts.items() if a[0] != 'completed' or v for t in subterms(a)
            if t[0] == 'verified' and t not in failed]


KEYCALLS = ('get_jwt_verify_keys', 'import_jwks', 'KeyJar', 'keyjar', 'get_entity_configuration', 'verify', 'extra')


def fogged(view, terms):
    """Is there a call that is not known and that may have looked at one of these?"""
    for a, v in view.facts.items():
        if a[0] in ('completed', 'forall', 'checked'):
            continue
        for t in subterms(a):
            if t[0] == 'call' and not t[1].endswith(KEYCALLS) and any(mentions(t, y) for y in terms):
                return True
            if t[0] in ('lo', 'lv', 'opaque') and any(mentions(t, y) for y in terms):
                return True
    return False


def truthy_returns(R):
    for x, v in R.returns():
        if v is None or v == NONE or v == FALSE or x.st.know(a_truthy(v)) is False:
            continue
        yield x, v


def chain_call(t, p_iss):
    """Verified trust chains of the issuer?"""
    return t[0] == 'call' and t[1].endswith(('verify_trust_chains', 'get_verified_trust_chains', 'get_trust_chains')) \
        and mentions(t, p_iss)


def unverified_chain(t, p_iss):
    return t[0] == 'call' and t[1].endswith('collect_trust_chains') and mentions(t, p_iss)


def over_paths(A, t):
    """Everybody on the paths of some trust chains?"""
    def path(y):
        return y[0] == 'attr' and y[2] == 'iss_path'
    if t[0] != 'list' or len(t) != 2 or t[1][0] not in ('many', 'all'):
        return False
    if t[1][0] == 'all':
        return path(t[1][1])
    if path(t[1][2]):
        return all([s[0] for s in segs] == ['item'] and segs[0][1][0] == 'elem' for f, e, segs in A.alts[t[1][3]])
    return all(over_paths(A, ('list',) + tuple(segs)) for f, e, segs in A.alts[t[1][3]])


def mark_run(ctx):
    return ctx.run(TMV + '.__call__', boundary=CHAINS + ('TrustChainCollector.get_entity_configuration',))


def c17(ctx):
    R = mark_run(ctx)
    A, done, n = R.A, set(), 0
    norm = norm_of(A)
    p = ('payload', MARK)
    iss, sub = P(MARK, 'iss'), P(MARK, 'sub')
    eid, ta = ('sym', 'entity_id'), ('sym', 'trust_anchor')
    if R.limit:
        ctx.ob('accepted-mark', R.qual, None, 'exploration limit')
        return
    for x, v in truthy_returns(R):
        n += 1
        view = R.view(x)
        w, path = R.where(x), R.path(x)
        # the signature
        raw = v
        ok, why = True, ''
        if raw[0] != 'verified':
            vs = [t for t in done_verifications(x) if t[1] == MARK]
            raw = vs[0] if vs else raw
        if raw[0] != 'verified':
            known = norm(v) == p or plain(norm(v)) == p
            ok, why = (False if known or not about(v) else None), 'the signature is not verified'
        elif raw[1] != MARK:
            ok, why = False, 'something else than the trust mark is verified'
        else:
            k = norm(raw[2])
            own = mentions(k, KEYJAR)
            theirs = mentions(k, lambda t: chain_call(t, iss))
            if k in (NONE, ('list',), FALSE):
                ok, why = False, 'verified without keys'
            elif mentions(k, P(MARK, 'jwks')):
                ok, why = False, 'verified with keys from the trust mark itself'
            elif not (own or theirs):
                ok = None if mentions(k, lambda t: t[0] in ('lo', 'lv', 'phi', 'opaque')) else False
                why = f'verified with keys of unknown origin: {show(k)[:80]}'
            else:
                for t in subterms(k):
                    if t[0] == 'call' and t[1].endswith(('get_issuer_keys', '.get')) and mentions(t, KEYJAR):
                        a = [y for kk, y in t[2] if kk in ('issuer_id', '0', 'issuer')]
                        if a and a[-1] != iss:
                            ok = None if about(a[-1]) else False
                            why = f'verified with the keys of {show(a[-1])[:60]}'
        uniq(ctx, 'signature', done, R.qual, ok, why, w, path)
        # the claims
        ok = checked(view, p, TM) or (None if view.any(lambda a, v: a[0] == 'checked' and v) else False)
        uniq(ctx, 'claims', done, R.qual, ok, 'required claims may be missing', w, path)
        uniq(ctx, 'not-expired', done, R.qual, unexpired(view, p), 'the trust mark may have expired', w, path)
        # about the entity that was asked about
        ok = view.know(a_truthy(eid)) is False or view.know(a_none(eid)) is True or view.know(a_eq(sub, eid)) is True
        if not ok:
            ok = None if view.opaque([eid]) else False
        uniq(ctx, 'subject', done, R.qual, ok, 'the trust mark may be about another entity', w, path)
        # a verified chain to the trust anchor
        ok, why = False, 'the issuer may have no verified trust chain to the trust anchor'
        for a, val in view.facts.items():
            if not val or not mentions(a, ta):
                continue
            if a[0] == 'eq' and ta in a[1:]:
                o = a[1] if a[2] == ta else a[2]
            elif a[0] == 'in' and a[1] == ta:
                r = one_value(A, a[2])
                o = r[2] if r else a[2]
            else:
                continue
            if mentions(o, lambda t: chain_call(t, iss)):
                good = o[0] == 'attr' and o[2] == 'anchor' or o[0] == 'item' and mentions(
                    o, lambda t: t[0] == 'attr' and t[2] in ('iss_path', 'anchor', 'verified_chain'))
                ok = True if good and o[0] == 'attr' else None
                if ok:
                    break
                if a[0] == 'in' and over_paths(A, a[2]):
                    ok, why = False, 'the trust anchor is only known to be somewhere on a trust chain of the issuer'
            elif mentions(o, lambda t: unverified_chain(t, iss)):
                why = 'the trust chain to the trust anchor is not verified'
        if ok is False and view.opaque([ta]):
            ok = None
        uniq(ctx, 'trust-anchor', done, R.qual, ok, why, w, path)
    if not n:
        ctx.ob('accepted-mark', R.qual, None, 'no accepting path found')
    # keys added for the issuer
    for e, name, args in key_adds(R):
        who = args.get('issuer_id', args.get('0'))
        keys = [y for k, y in args.items() if k != 'issuer_id']
        site = f'{e.stack[-1]}:{name}'
        ok, why = True, ''
        if not any(mentions(k, lambda t: chain_call(t, iss)) for k in keys):
            ok = None if any(mentions(k, lambda t: t[0] in ('lo', 'lv')) for k in keys) else False
            why = 'the keys added are not from a verified trust chain of the issuer'
        else:
            for k in keys:
                for t in subterms(k):
                    if t[0] == 'item' and t[1][0] == 'attr' and t[1][2] == 'verified_chain' and t[2][0] == 'const' and \
                            t[2][2] != -1:
                        ok, why = False, 'the keys added are those of a superior of the issuer'
            if who is None:
                ok, why = None, 'no issuer'
            elif ok and who != iss:
                first = who[0] == 'item' and who[1][0] == 'attr' and who[1][2] == 'iss_path' and who[2][0] == 'const'
                if not (first and who[2][2] == 0):
                    ok, why = (False if first or who[0] in ('sym', 'const') else None), \
                        f'the keys of the issuer are added for {show(who)[:60]}'
        uniq(ctx, 'issuer-keys', done, site, ok, why, e.where, fpath(e.facts.items()))
    # the keys that are only used for this mark
    for e in A.log:
        name = e.name.rpartition('.')[2]
        if e.kind not in ('call', 'mut') or name not in ADDERS or not e.args or norm(e.args[0][1]) == KEYJAR:
            continue
        for k, y in e.args:
            y = norm(y)
            if k in ('issuer_id', 'issuer', 'self', 'keyjar') or not mentions(y, lambda t: chain_call(t, iss)):
                continue
            of = [t[2] for t in subterms(y) if t[0] == 'item' and t[1][0] == 'attr' and t[1][2] == 'verified_chain']
            for i in of:
                ok = i == C(-1) or (False if i[0] == 'const' else None)
                uniq(ctx, 'issuer-keys', done, f'{e.stack[-1]}:{name}', ok,
                     'the keys used are those of a superior of the issuer', e.where, fpath(e.facts.items()))
    cls_requires(ctx, 'claims', TM, ('iss', 'sub', 'iat', 'id'))
    status(ctx, done)


def status(ctx, done):
    R = ctx.run('fedservice.entity.FederationEntity.verify_trust_mark',
                boundary=('TrustMarkVerifier.__call__', 'get_trust_chains', 'get_verified_trust_chains', 'do_request'))
    A = R.A
    norm = norm_of(A)
    chk = ('sym', 'check_with_issuer')
    n = 0
    for x, v in truthy_returns(R):
        n += 1
        view = R.view(x)
        m = norm(v)
        w, path = R.where(x), R.path(x)
        good = m[0] == 'call' and m[1].endswith('TrustMarkVerifier.__call__')
        ok = good or (None if about(m) and mentions(m, lambda t: t[0] == 'call' and t[1].endswith('Verifier.__call__'))
                      else False)
        if good:
            args = dict(m[2])
            if args.get('trust_mark') != MARK:
                ok = False
            if args.get('check_status', FALSE) == FALSE and not mentions(
                    args.get('trust_anchor', NONE), lambda t: chain_call(t, P(MARK, 'iss'))):
                ok = None if about(args.get('trust_anchor', NONE)) else False
        uniq(ctx, 'verified-by', done, R.qual, ok, 'the trust mark is not verified', w, path)
        if view.know(a_truthy(chk)) is False:
            continue
        ok = False
        for a, val in view.facts.items():
            if not mentions(a, lambda t: t[0] == 'call' and t[1].endswith('do_request')):
                continue
            if a[0] == 'eq' and val and TRUE in a[1:]:
                o = a[1] if a[2] == TRUE else a[2]
            elif a[0] == 'is' and val and TRUE in a[1:]:
                o = a[1] if a[2] == TRUE else a[2]
            elif a[0] == 'truthy' and val and a[1][0] == 'item' and a[1][2] == C('active'):
                ok = ok or None
                continue
            else:
                continue
            if o[0] == 'item' and o[2] == C('active') and o[1][0] == 'call':
                q = o[1]
                asked = mentions(q, C('trust_mark_status')) and mentions(q, ('item', m, C('sub'))) and (
                    mentions(q, ('item', m, C('id')))) or mentions(q, MARK) and mentions(q, C('trust_mark'))
                same = mentions(q, P(MARK, 'sub')) and mentions(q, P(MARK, 'id'))
                ok = True if asked or same else None
            else:
                ok = ok or None
        if ok is False and view.opaque([chk]):
            ok = None
        uniq(ctx, 'status', done, R.qual, ok, 'accepted without the issuer having said that it is active', w, path)
    if not n:
        ctx.ob('status', R.qual, None, 'no accepting path found')


# ---------------------------------------------------------------------- C18
def c18(ctx):
    R = mark_run(ctx)
    A, done, n = R.A, set(), 0
    norm = norm_of(A)
    p, D = ('payload', MARK), P(MARK, 'delegation')
    pd = ('payload', D)
    tid, iss = P(MARK, 'id'), P(MARK, 'iss')
    ta = ('sym', 'trust_anchor')
    if R.limit:
        ctx.ob('delegation', R.qual, None, 'exploration limit')
        return

    def ec(t):
        return t[0] == 'call' and t[1].endswith('get_entity_configuration') and mentions(t, ta)
    for x, v in truthy_returns(R):
        view = R.view(x)
        if view.know(a_in(C('delegation'), p)) is False or view.know(a_truthy(D)) is False or \
                view.know(a_none(D)) is True:
            continue
        n += 1
        w, path = R.where(x), R.path(x)

        def ob(rule, ok, why):
            uniq(ctx, rule, done, R.qual, ok, why, w, path)
        raw = done_verifications(x)
        pl = [y if y[0] != 'verified' else ('verified', plain(y[1]), y[2]) for y in raw]
        mine = [y for y in pl if y[0] == 'verified' and norm(plain(y[1])) == D]
        fog = fogged(view, [D])
        if not mine:
            ob('delegation-signature', None if fog else False, 'the delegation is not verified')
            continue
        keys = norm(plain(mine[0][2]))
        # the trust anchor's statement
        sts = [y for y in raw if y[0] == 'verified' and mentions(y[1], ec)]
        S = next((y[1] for y in sts), None)
        used = [t for t in subterms(keys) if t[0] == 'payload' and mentions(t[1], ec)]
        if S is None:
            S = used[0][1] if used else None
            others = [t for t in subterms(keys) if t[0] == 'call' and t[1].endswith('.get_entity_configuration') and
                      not about(dict(t[2]).get('entity_id', NONE))]
            ob('trust-anchor-statement', False if used or others else None if about(keys) else False,
               'the statement of the trust anchor is not verified')
            if S is None:
                continue
        else:
            k = norm(next(y[2] for y in sts))
            ok = k not in (NONE, ('list',)) and mentions(k, KEYJAR) and not mentions(k, ('item', ('payload', S), C('jwks')))
            ob('trust-anchor-statement', ok, 'the statement of the trust anchor is not verified with the configured keys')
        S = norm(S)
        ps = ('payload', S)
        tafe = ('item', ('item', ps, C('metadata')), C('federation_entity'))
        ok = (view.know(a_eq(('item', ps, C('sub')), ta)) is True)
        ob('trust-anchor-statement', ok or (None if fogged(view, [('item', ps, C('sub'))]) else False),
           'it is not known to be the statement of the trust anchor')
        ob('trust-anchor-statement', unexpired(view, ps), 'the statement of the trust anchor may have expired')
        # the owner
        owner = ('item', ('item', tafe, C('trust_mark_owners')), tid)
        ok = mentions(keys, ('item', owner, C('jwks')))
        why = 'the delegation is not verified with the keys of the owner'
        if not ok:
            ok = None if mentions(keys, lambda t: t[0] in ('lo', 'lv', 'phi', 'elem')) else False
        elif mentions(keys, KEYJAR):
            ok, why = False, 'the delegation is verified with other keys than those of the owner'
        ob('delegation-signature', ok, why)
        named = view.know(a_in(tid, ('item', tafe, C('trust_mark_issuers'))))
        ob('named', named is True or (None if fogged(
            view, [('item', tafe, C('trust_mark_issuers'))]) else False),
           'the trust anchor may not know this kind of trust mark')
        for claim, val in (('sub', iss), ('id', tid)):
            c = ('item', pd, C(claim))
            ok = view.know(a_eq(c, val)) is True or (None if view.opaque([c]) else False)
            if not ok and view.know(a_none(val)) is True and checked(view, p, TM):
                ok = True  # required: a trust mark without it was refused
            ob('delegated-to', ok, f'the delegation may be for something else ({claim})')
        ob('delegation-not-expired', unexpired(view, pd), 'the delegation may have expired')
    if not n:
        ctx.ob('delegation', R.qual, None, 'no accepting path with a delegation')


# ---------------------------------------------------------------------- C19
TME = 'fedservice.trust_mark_entity.entity.TrustMarkEntity'
DBS = ('fedservice.trust_mark_entity.FileDB', 'fedservice.trust_mark_entity.SimpleDB')
TID, SUB, IAT, TOKEN = ('sym', 'trust_mark_id'), ('sym', 'sub'), ('sym', 'iat'), ('sym', 'token')


def arg(args, i, *names):
    """Argument of a call that was given by position or by name."""
    d = dict(args)
    for n in names + (str(i),):
        if n in d:
            return d[n]
    return None


def store_of(t):
    """Where the trust marks (or the names of their files) are."""
    return t[0] == 'attr' and t[1][0] == 'self' and t[2] in ('_db', 'config')


def records(view, extra=()):
    """Terms that stand for what is stored about a trust mark of the kind asked for."""
    out = []
    for a, v in view.facts.items():
        for t in subterms(a):
            if t[0] in ('call', 'item', 'elem') and t not in out and mentions(t, TID) and mentions(t, store_of):
                if t[0] == 'call' and t[1].endswith('loads') or t[0] == 'item' and t[2] != TID and \
                        not (t[2][0] == 'const' and t[2][2] in ('exp', 'sub', 'iat', 'id')) or \
                        t[0] == 'elem' and t[2][0] in ('values', 'vals'):
                    out.append(t)
    return out


def of_sub(view, r, sub=SUB):
    """Is it about the subject? True / False / None"""
    if r[0] == 'item' and (r[2] == sub or view.know(a_eq(r[2], sub)) is True):
        return True
    k = view.know(a_eq(('item', r, C('sub')), sub))
    if k is None and r[0] == 'item' and r[2][0] == 'elem':
        k = view.know(a_eq(r[2], sub))
    return k


def no_match(view, r, asked=False):
    """Is a record not what was asked for?"""
    e = ('item', r, C('exp'))
    if view.know(a_lt(e, NOW)) is True or view.know(neg(a_lt(NOW, e))) is True and view.know(a_in(C('exp'), r)) is True:
        return True
    if of_sub(view, r) is False and not (asked and view.know(a_truthy(SUB)) is not True):
        return True
    i = ('item', r, C('iat'))
    if view.know(a_truthy(IAT)) is True and (view.know(a_eq(i, IAT)) is False or view.know(a_in(C('iat'), r)) is False):
        return True
    return view.know(a_truthy(r)) is False


def handles_unknown(R, x, v, view, stores):
    """Is this a way out for kinds of trust marks that nothing is stored about?"""
    if any(view.know(a_in(TID, s)) is True for s in stores):
        return False
    if any(view.know(a_in(TID, s)) is False for s in stores):
        return True
    looked = [t for y in [v] + [a for a, _ in view.facts.items()] for t in subterms(y)]
    return bool(looked) and not any(t[0] == 'item' and store_of(t[1]) and t[2] == TID for t in looked)


def part_of(dom):
    """Is only a part of what is stored gone through? False: all of it"""
    sl = [t for t in subterms(dom) if t[0] == 'slice' and mentions(t, store_of)]
    for t in sl:
        lo, hi, step = t[2:5]
        if any(y[0] != 'const' for y in (lo, hi, step)):
            return None
        if lo[2] or hi[2] is not None or step[2] not in (None, 1, -1):
            return True
    return False


def part(x, view, done, ctx, R, rule, what, w):
    """Everything stored about the kind of trust mark is gone through."""
    for lid, dom, alts in foralls(R.A, x.st.facts.items()):
        if mentions(dom, store_of):
            p = part_of(dom)
            uniq(ctx, rule, done, R.qual, None if p is None else not p, what, w)


def db_find(ctx, db, done):
    R = ctx.run(db + '.find')
    A = R.A
    if R.limit:
        ctx.ob('find', R.qual, None, 'exploration limit')
        return
    unknown = False
    for x, v in R.returns():
        view = R.view(x)
        w, path = R.where(x), R.path(x)
        stores = [t for a, _ in view.facts.items() for t in subterms(a) if store_of(t)]
        if handles_unknown(R, x, v, view, stores):
            unknown = True
        t = TRUE if v == TRUE else FALSE if v in (FALSE, NONE) else v
        if t[0] != 'const':
            k = x.st.know(a_truthy(t))
            t = C(k) if k is not None else t
        if t != FALSE and t != C(0):
            if t != TRUE:
                view = view.plus([(a_truthy(t)[0], a_truthy(t)[1])] if not isinstance(a_truthy(t), bool) else [])
            ok, why = False, 'the trust mark may not have been issued'
            for r in records(view):
                if of_sub(view, r) is not True:
                    if of_sub(view, r) is None and why.endswith('issued'):
                        why = 'the trust mark may be another entity\'s'
                    continue
                u = unexpired(view, r)
                if u is not True:
                    ok, why = ok or (None if u is None else ok), 'the trust mark may have expired'
                    continue
                if not (view.know(a_truthy(IAT)) is False or view.know(a_eq(('item', r, C('iat')), IAT)) is True):
                    why = 'the trust mark may be one issued at another time'
                    continue
                ok = True
                break
            if ok is False and (fogged(view, [SUB, TID]) and False or t[0] != 'const' and about(t)):
                ok = None
            uniq(ctx, 'found-is-valid', done, R.qual, ok, why, w, path)
        part(x, view, done, ctx, R, 'nothing-missed', 'not all that was issued is looked through', w)
        if t != TRUE:
            if any(view.know(a_in(TID, s)) is False for s in stores):
                uniq(ctx, 'nothing-missed', done, R.qual, True, '', w)
                continue
            ok = None
            loops = [f for f in foralls(A, x.st.facts.items()) if mentions(f[1], store_of)]
            recs = [t[1] for a, val in view.facts.items() for t in [a] if a[0] == 'in']
            direct = [s for s in records(view) if s[0] == 'item']
            if any(no_match(view, r) for r in direct):
                ok = True
            elif any(a[0] == 'in' and not val and mentions(a[1], SUB) and mentions(a[2], TID)
                     for a, val in view.facts.items()):
                ok = True
            elif loops:
                ok = True
                for lid, dom, alts in loops:
                    for d, ev, _ in alts:
                        v2 = view.plus(d)
                        rs = records(v2)
                        if not any(no_match(v2, r) for r in rs):
                            ok = False
            elif any(a[0] == 'forall' for a in view.facts) or any(
                    a[0] == 'truthy' and not val and mentions(a[1], TID) for a, val in view.facts.items()):
                ok = True if any(a[0] == 'truthy' and not val and a[1][0] == 'item' and mentions(a[1], TID)
                                 for a, val in view.facts.items()) else None
            else:
                ok = False
            if t != FALSE and ok is False:
                ok = None
            uniq(ctx, 'nothing-missed', done, R.qual, ok, 'a trust mark that was issued and is valid may not be found', w,
                 path)
    uniq(ctx, 'unknown-kind', done, R.qual, unknown, 'asking about an unknown kind of trust mark is an error')


def db_list(ctx, db, done):
    R = ctx.run(db + '.list')
    A = R.A
    if R.limit:
        ctx.ob('list', R.qual, None, 'exploration limit')
        return
    unknown = False
    for x, v in R.returns():
        view = R.view(x)
        w, path = R.where(x), R.path(x)
        stores = [t for a, _ in view.facts.items() for t in subterms(a) if store_of(t)]
        if handles_unknown(R, x, v, view, stores):
            unknown = True
        facts = list(x.st.facts.items())
        for val, fs, lids in each(A, v, (), ()):
            v2 = view.plus(fs)
            if val[0] == 'all':
                known = mentions(val[1], store_of)
                uniq(ctx, 'listed-is-valid', done, R.qual, False if known else None,
                     'holders are listed whether their trust mark is valid or not', w, path)
                continue
            n = norm_of(A)(val)
            ok = None
            for r in records(v2):
                same = n == ('item', r, C('sub')) or r[0] == 'item' and (r[2] == n) or v2.know(
                    a_eq(n, ('item', r, C('sub')))) is True
                if same:
                    u = unexpired(v2, r)
                    if u is True:
                        ok = True
                        break
                    ok = False if u is False and ok is None else ok
            if ok is None and not about(n) and not any(
                    a[0] == 'truthy' and val2 and a[1][0] == 'call' for a, val2 in v2.facts.items()):
                ok = False
            if ok is None and n[0] == 'elem' and mentions(n, store_of) and not records(v2):
                ok = False
            uniq(ctx, 'listed-is-valid', done, R.qual, ok, 'a holder whose trust mark may have expired is listed', w, path)
        # nobody is left out
        part(x, view, done, ctx, R, 'nobody-left-out', 'not all that was issued is looked through', w)
        if v[0] == 'list' and any(view.know(a_in(TID, s)) is True for s in stores):
            loops = [f for f in foralls(A, facts) if mentions(f[1], store_of)]
            if any(a[0] == 'completed' and not val for a, val in facts) or any(
                    a[0] == 'in' and a[1] == C('sub') and not val for a, val in facts):
                continue
            ok = True if loops else False
            for lid, dom, alts in loops:
                for d, ev, _ in alts:
                    added = False
                    for s in v[1:]:
                        if s[0] == 'many' and s[1] == lid:
                            added = any(d2 == d and vv for d2, e2, vv in A.alts[s[3]])
                    v2 = view.plus(d)
                    if added:
                        continue
                    dup = any(a[0] == 'in' and val and a[2][0] in ('list', 'pv', 'lv', 'lo', 'phi', 'set')
                              for a, val in d)
                    if not (dup or any(no_match(v2, r, True) for r in records(v2))):
                        ok = False
            if not loops and v2_known(view):
                ok = True
            uniq(ctx, 'nobody-left-out', done, R.qual, ok, 'a holder of a valid trust mark may not be listed', w, path)
    uniq(ctx, 'unknown-kind', done, R.qual, unknown, 'listing an unknown kind of trust mark is an error')


def v2_known(view):
    """One holder was asked for."""
    return view.know(a_truthy(SUB)) is True


def left(R, x):
    """What is recorded when it ends has the trust mark under its subject."""
    ti = ('sym', 'tm_info')
    return any(mentions(k, store_of) and any(t[0] == 'set' and len(t) > 2 and t[1] == ('item', ti, C('sub')) and mentions(t[2], ti)
                                             for t in segments(R.A.freeze(x.st, o))) for k, o in x.st.over.items())


def segments(t):
    if isinstance(t, tuple):
        if t and t[0] in ('set', 'upd'):
            yield t
        for y in t:
            yield from segments(y)


def always(ctx, done, R, recs):
    """Something is recorded on every way out."""
    for x, v in R.returns():
        view = R.view(x)
        ok = covered(recs, view) or left(R, x)
        uniq(ctx, 'recorded', done, R.qual, ok, 'a trust mark may not be recorded', R.where(x), R.path(x))


def db_add(ctx, done):
    ti = ('sym', 'tm_info')
    key, sub = ('item', ti, C('id')), ('item', ti, C('sub'))
    R = ctx.run(DBS[1] + '.add')
    kept = 0
    for e in R.A.log:
        if e.kind != 'mut' or e.name not in ('[]=', 'update', 'setdefault'):
            continue
        a = dict(e.args)
        tgt = a.get('target')
        if tgt is None or not mentions(tgt, store_of) and not store_of(tgt):
            continue
        view = View(R.A, list(e.facts.items()))
        if store_of(tgt) and e.name == '[]=':
            val = a['value']
            keeps = mentions(val, ('item', tgt, key)) or mentions(val, lambda t: t[0] == 'call' and mentions(t, tgt))
            ok = keeps or view.know(a_in(key, tgt)) is False or view.know(a_truthy(('item', tgt, key))) is False
            ok = ok or (None if view.opaque([tgt]) else False)
            kept += mentions(val, ti)
            uniq(ctx, 'others-kept', done, R.qual, ok, 'recording a trust mark forgets those issued to others', e.where)
        elif mentions(tgt, key):
            kept += e.name != '[]=' or a.get('value') is not None and mentions(a['value'], ti)
            if e.name == '[]=':
                uniq(ctx, 'recorded', done, R.qual, a.get('key') == sub and mentions(a['value'], ti),
                     'the trust mark is not recorded for its subject', e.where)
    ctx.ob('recorded', R.qual, True if kept else None, 'nothing is recorded')
    always(ctx, done, R, [e for e in R.A.log if e.kind in ('mut', 'call') and any(
        mentions(v, ti) and k != 'key' and (e.name != '[]=' or k != 'target') for k, v in e.args) and any(mentions(v, store_of) for k, v in e.args)])
    R = ctx.run(DBS[0] + '.add')
    files = [v for e in R.A.log for k, v in e.args if isinstance(v, tuple) and (
        v[0] == 'ctx' or v[0] == 'call' and v[1].endswith('open')) and mentions(v, store_of)]
    always(ctx, done, R, [e for e in R.A.log if e.kind in ('mut', 'call') and not e.name.endswith('open') and any(
        mentions(v, ti) and v not in files for k, v in e.args) and any(v in files for k, v in e.args)])
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('open'):
            mode = arg(e.args, 1, 'mode')
            ok = None if mode is not None and mode[0] != 'const' else mode is not None and 'a' in mode[2] or (
                mode is not None and '+' in mode[2] and None)
            uniq(ctx, 'others-kept', done, R.qual, ok, 'recording a trust mark forgets those issued before', e.where)
            f = e.args[0][1]
            uniq(ctx, 'recorded', done, R.qual, mentions(f, key) or (None if about(f) else False),
                 'the trust mark is recorded as one of another kind', e.where)
        if e.kind == 'call' and e.name.endswith('.write'):
            uniq(ctx, 'recorded', done, R.qual, any(mentions(v, ti) for k, v in e.args) or None,
                 'something else is recorded', e.where)
            txt = [v for k, v in e.args if k != 'self']
            if txt and txt[0][0] in ('call', 'const', 'sym'):
                line = txt[0][0] == 'call' and txt[0][1].endswith('dumps')
                uniq(ctx, 'recorded', done, R.qual, False if line and not any(
                    x.kind == 'call' and x.name.endswith('.write') and x is not e for x in R.A.log) else None,
                    'the records are not kept apart', e.where)


def c19(ctx):
    done = set()
    for db in DBS:
        ctx.part(db_find, db, done)
        ctx.part(db_list, db, done)
    ctx.part(db_add, done)
    # the trust mark entity asks about what was asked
    R = ctx.run(TME + '.find')
    for x, v in R.returns():
        calls = [t for t in subterms(v) if t[0] == 'call' and t[1].endswith('find')]
        calls += [t for a, _ in x.st.facts.items() for t in subterms(a) if t[0] == 'call' and t[1].endswith('find')]
        ok = None
        for t in calls:
            a = [y for y in t[2] if y[0] != 'self']
            ok = arg(a, 0, 'trust_mark_id') == TID and arg(a, 1, 'sub') == SUB and arg(a, 2, 'iat') == IAT
        if not calls:
            ok = False if v == TRUE else None
        uniq(ctx, 'asked', done, R.qual, ok, 'another trust mark than the one asked about is looked for', R.where(x),
             R.path(x))
    R = ctx.run(TME + '.list', boundary=('find',))
    for x, v in R.returns():
        view = R.view(x)
        asked = view.know(a_truthy(SUB))
        found = [w for a, w in view.facts.items() if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith('find')]
        lists = [t for t in subterms(v) if t[0] == 'call' and t[1].endswith('list')]
        if lists and asked is not False and not any(mentions(t, SUB) for t in lists):
            uniq(ctx, 'asked', done, R.qual, None if view.opaque([SUB]) else False,
                 'others than the one asked about are listed', R.where(x), R.path(x))
        if v in (NONE, FALSE, ('list',)):
            uniq(ctx, 'asked', done, R.qual, False in found or (None if about(v) or found else False),
                 'a holder may not be listed', R.where(x), R.path(x))
        if v == ('list', ('item', SUB)):
            ok = view.any(lambda a, w: a[0] == 'truthy' and w and a[1][0] == 'call' and a[1][1].endswith('find') and
                          mentions(a[1], TID) and mentions(a[1], SUB))
            uniq(ctx, 'asked', done, R.qual, ok or (None if view.opaque([SUB]) else False),
                 'an entity is listed without holding the trust mark', R.where(x), R.path(x))
        elif v[0] == 'call' and v[1].endswith('list'):
            uniq(ctx, 'asked', done, R.qual, mentions(v, TID) or False, 'another kind of trust mark is listed',
                 R.where(x), R.path(x))
    # given a trust mark: it is verified
    R = ctx.run(TME + '.unpack_trust_mark')
    eid = ('sym', 'entity_id')
    for x, v in R.returns():
        view = R.view(x)
        n = norm_of(R.A)(v)
        ok = v[0] == 'verified' and v[1] == TOKEN
        if ok:
            k = norm_of(R.A)(v[2])
            ok = k not in (NONE, ('list',), ('jarkeys', NONE)) and mentions(k, lambda t: t[0] == 'attr' and t[2] == 'keyjar')
            ok = ok or (None if about(k) else False)
        elif plain(n) != ('payload', TOKEN) and about(n):
            ok = None
        uniq(ctx, 'verified-first', done, R.qual, ok, 'the trust mark is not verified', R.where(x), R.path(x))
        ok = checked(view, ('payload', TOKEN), TM)
        uniq(ctx, 'verified-first', done, R.qual, ok or False, 'the claims of the trust mark are not checked',
             R.where(x), R.path(x))
        ok = view.know(a_truthy(eid)) is False or view.know(a_none(eid)) is True or view.any(
            lambda a, w: a[0] == 'checked' and w and any(k == 'entity_id' and y == eid for k, y in a[3])) or \
            view.know(a_eq(P(TOKEN, 'sub'), eid)) is True
        uniq(ctx, 'verified-first', done, R.qual, ok or (None if view.opaque([eid]) else False),
             'the trust mark may be about another entity', R.where(x), R.path(x))
    # the end points
    ctx.part(endpoint_status, done)
    ctx.part(endpoint_list, done)


REQ = ('sym', 'request')


def asked_for(view, t, mark):
    """(kind, subject) a call of find is about, when they are what the request says."""
    a = [y for y in t[2] if y[0] != 'self']
    i, s = arg(a, 0, 'trust_mark_id'), arg(a, 1, 'sub')
    if i is None or s is None:
        return None
    if mark is True:  # a trust mark was given
        src = {y[1] for y in (i, s) if y[0] == 'item'}
        good = i[0] == 'item' and i[2] == C('id') and s[0] == 'item' and s[2] == C('sub') and len(src) == 1
        if not good:
            return None if about(i) and i[0] != 'item' else False
        m = next(iter(src))
        if m[0] == 'verified' or m[0] == 'call' and m[1].endswith('unpack_trust_mark') and mentions(
                m, ('item', REQ, C('trust_mark'))):
            return True
        return False if m == REQ or m[0] == 'payload' else None
    r = s == ('item', REQ, C('sub')) and (i in (('item', REQ, C('trust_mark_id')), ('item', REQ, C('id'))))
    return r or (None if about(i) or about(s) else False)


def not_given(view, name):
    return view.know(a_in(C(name), REQ)) is False or view.know(a_truthy(('item', REQ, C(name)))) is False or \
        view.know(a_none(('item', REQ, C(name)))) is True


def reported(view, lacks):
    """Is the answer that there is nothing right?"""
    got = {}
    for a, w in view.facts.items():
        t = a[1] if a[0] in ('truthy', 'none', 'eq', 'eq0', 'is') else ()
        if t and t[0] == 'call' and t[1].rpartition('.')[2] in ('find', 'list') and mentions(t, REQ):
            got[t] = w if a[0] == 'truthy' else None
    if False in got.values():
        return True
    if True in got.values():
        return False
    if lacks:
        return True
    return None if got or any(t[0] == 'call' and mentions(t, REQ) and t[1].split('.')[-1] not in (
        'unpack_trust_mark', 'get') for a, w in view.facts.items() for t in subterms(a)) else False


def endpoint_status(ctx, done):
    R = ctx.run('fedservice.trust_mark_entity.server.trust_mark_status.TrustMarkStatus.process_request',
                boundary=('find', 'unpack_trust_mark'))
    n = 0
    for x, v in R.returns():
        act = [t for t in subterms(v) if t[0] == 'dict' and any(
            l[0] == 'set' and l[1] == C('active') for l in t[2])]
        view = R.view(x)
        for t in act:
            val = [l[2] for l in t[2] if l[0] == 'set' and l[1] == C('active')][-1]
            if val == FALSE or x.st.know(a_truthy(val)) is False:
                continue
            n += 1
            mark = view.know(a_in(C('trust_mark'), REQ))
            tm = ('item', REQ, C('trust_mark'))
            if mark is not False and (view.know(a_truthy(tm)) is False or view.know(a_none(tm)) is True):
                mark = False
            if mark is None:
                mark = view.know(a_truthy(tm))
            finds = [a[1] for a, w in view.facts.items() if a[0] == 'truthy' and w and a[1][0] == 'call' and
                     a[1][1].endswith('find')]
            finds += [y for y in subterms(val) if y[0] == 'call' and y[1].endswith('find')]
            ok, why = False, 'a trust mark is reported as active without being issued'
            for f in finds:
                ok = asked_for(view, f, mark if mark is not None else True)
                why = 'another trust mark than the one asked about is looked for' if mark is False else \
                    'a trust mark that is given is not verified'
                if ok:
                    break
            if not finds and any(t[0] == 'call' and mentions(t, REQ) and
                                 t[1].split('.')[-1] not in ('unpack_trust_mark', 'list', 'get')
                                 for a, w in view.facts.items() for t in subterms(a)):
                ok = None
            uniq(ctx, 'status', done, R.qual, ok, why, R.where(x), R.path(x))
    # and only those that are not issued or valid are reported not to be so
    for x, v in R.returns():
        if any(t[0] == 'dict' and any(l[0] == 'set' and l[1] == C('active') and l[2] != FALSE for l in t[2]) for t in subterms(v)):
            continue
        view = R.view(x)
        lacks = not_given(view, 'sub') or not_given(view, 'trust_mark_id') and (
            not_given(view, 'id') or view.know(a_in(C('trust_mark_id'), REQ)) is True)
        ok = reported(view, lacks and view.know(a_in(C('trust_mark'), REQ)) is not True or view.any(
            lambda a, w: a[0] == 'truthy' and not w and a[1][0] == 'item' and a[1][2] in (C('id'), C('sub')) and
            mentions(a[1][1], ('item', REQ, C('trust_mark')))))
        uniq(ctx, 'status-exact', done, R.qual, ok, 'a valid trust mark may be reported not to be active', R.where(x),
             R.path(x))
    if not n:
        ctx.ob('status', R.qual, None, 'no active answer found')


def endpoint_list(ctx, done):
    R = ctx.run('fedservice.trust_mark_entity.server.trust_mark_list.TrustMarkList.process_request',
                boundary=('find', 'list'))
    n = 0
    for x, v in R.returns():
        e = entries(v) if v[0] == 'dict' else None
        view = R.view(x)
        if not e or 'response_msg' not in e:
            ok = reported(view, not_given(view, 'trust_mark_id'))
            uniq(ctx, 'listing-exact', done, R.qual, ok, 'holders of a trust mark may not be listed', R.where(x), R.path(x))
            continue
        n += 1
        m = e['response_msg']
        sub, tid = ('item', REQ, C('sub')), ('item', REQ, C('trust_mark_id'))
        lists = [t for t in subterms(m) if t[0] == 'call' and t[1].rpartition('.')[2] == 'list' and mentions(t, tid)]
        ok, why = None, ''
        if lists:
            asked = view.know(a_in(C('sub'), REQ))
            s_ok = any(mentions(t, sub) for t in lists)
            ok = True if asked is False or s_ok or view.know(a_truthy(sub)) is False else \
                (None if view.opaque([sub]) or any(REQ in [y for k, y in t[2]] for t in lists) else False)
            why = 'more than the entity asked about is listed'
        elif mentions(m, sub):
            ok = view.any(lambda a, w: a[0] == 'truthy' and w and a[1][0] == 'call' and
                          a[1][1].endswith(('find', 'list')) and mentions(a[1], sub) and mentions(a[1], tid))
            ok = ok or (None if view.opaque([sub]) else False)
            why = 'an entity is listed without holding the trust mark'
        uniq(ctx, 'listing', done, R.qual, ok, why, R.where(x), R.path(x))
    if not n:
        ctx.ob('listing', R.qual, None, 'no list in the answer')


# ---------------------------------------------------------------------- C20
def spec_t(t):
    return t[0] == 'attr' and t[2] == 'trust_mark_specification'


def claim_of(view, d, key):
    """The value of a claim in what is signed -> term / None (not there) / 'unknown'"""
    if d[0] != 'dict':
        return 'unknown'
    val = None if d[1] is None else 'base'
    for l in d[2]:
        if l[0] == 'set' and l[1] == C(key):
            val = l[2]
        elif l[0] == 'del' and l[1] == C(key):
            val = None
        elif l[0] == 'upd':
            u = l[1]
            if u[0] == 'dict':
                v = claim_of(view, u, key)
                if v is not None:
                    val = v
            elif u == ('sym', 'kwargs'):
                if key in ('id',) or key == 'sub' and view.sub_is_param:
                    continue  # a parameter of its own
                k = view.know(a_in(C(key), u))
                if k is True:
                    val = ('item', u, C(key))
                elif k is None and key in ('iat', 'exp'):
                    val = (val, ('item', u, C(key))) if val is not None else 'unknown'
            elif mentions(u, spec_t):
                val = 'spec'
            else:
                val = 'unknown'
        elif l[0] not in ('set', 'del'):
            val = 'unknown'
    return val


def issue(ctx, cls, done, sub, life):
    R = ctx.run(cls)
    A = R.A
    norm = norm_of(A)
    tid = ('sym', 'id')
    me, own = ('attr', FE, 'entity_id'), KEYJAR
    n = 0
    if R.limit:
        ctx.ob('issue', R.qual, None, 'exploration limit')
        return
    adds = [e for e in A.log if e.kind in ('mut', 'call') and e.name.rpartition('.')[2] in ('add', 'append') and any(
        mentions(v, lambda t: t[0] == 'attr' and t[2] == 'issued') for k, v in e.args)]
    for x, v in truthy_returns(R):
        n += 1
        view = R.view(x)
        view.sub_is_param = sub == SUB
        w, path = R.where(x), R.path(x)

        def ob(rule, ok, why):
            uniq(ctx, rule, done, R.qual, ok, why, w, path)
        packs = [t for t in subterms(norm(v)) if t[0] == 'call' and t[1].endswith('pack')]
        if not packs:
            ob('issue', None, 'how the trust mark is made is not understood')
            continue
        a = dict(packs[0][2])
        p = a.get('payload', a.get('0'))
        jwt = a.get('self', NONE)
        if p is None or p[0] != 'dict':
            ob('issue', None if p is None or p[0] != 'item' else False, 'the claims are not those configured')
            continue
        # a kind that there is a specification for
        spec = [t for t in subterms(p) if spec_t(t)] + [t for f, _ in view.facts.items() for t in subterms(f) if spec_t(t)]
        ok = any(view.know(a_in(tid, s)) is True or view.know(a_truthy(('item', s, tid))) is True or
                 view.know(a_none(('item', s, tid))) is False for s in spec)
        fog = any(view.opaque([s]) for s in spec)
        ob('configured', ok or (None if fog else False), 'a trust mark without a specification may be issued')
        # to the one it was asked for
        s = claim_of(view, p, 'sub')
        ob('subject', True if s == sub else None if s == 'unknown' else False,
           'the subject is not the one that was asked for')
        i = claim_of(view, p, 'id')
        ob('subject', True if i == tid else None if i == 'unknown' else False, 'the kind is not the one asked for')
        # in its own name, with its own keys
        if jwt[0] == 'extobj':
            ja = dict(jwt[2])
            iss = ja.get('iss', ja.get('1'))
            kj = ja.get('key_jar', ja.get('0'))
            ok = iss == me or iss is not None and iss[0] == 'attr' and iss[1][0] == 'self' and iss[2] == 'entity_id'
            ob('issuer', ok or (None if iss is not None and iss[0] == 'call' else False),
               'not issued in the name of the issuer')
            ok = kj == own
            ob('issuer', ok or (None if kj is not None and (kj[0] == 'call' or about(kj)) else False),
               'not signed with the federation keys')
            jl = ja.get('lifetime')
        else:
            ob('issuer', None, 'how the trust mark is signed is not understood')
            jl = None
        # expiration
        lt = life(view, tid)
        if view.know(a_truthy(lt)) is False or lt[0] == 'item' and view.know(a_in(lt[2], lt[1])) is False or \
                view.know(a_none(lt)) is True:
            ob('expires', True, '')
        else:
            e = claim_of(view, p, 'exp')
            good = [mk_lin({NOW: 1, lt: 1}, 0)]
            es = e if isinstance(e, tuple) and e and isinstance(e[0], tuple) else (e,)
            es = [y for y in es if not (isinstance(y, tuple) and y[0] == 'item' and y[1] == ('sym', 'kwargs'))]
            ok = all(y in good for y in es) or jl == lt
            if not ok:
                ok = None if 'unknown' in es or any(isinstance(y, tuple) and about(y) for y in es) else False
            ob('expires', ok, 'no (or another) expiration time though a life time is configured')
        # recorded as signed
        same = [e for e in adds if all(x.st.know((f, val)) is True for f, val in e.facts.items())]
        rec = [norm(y) for e in same for k, y in e.args if k not in ('target', 'self')]
        if p in rec:
            it = a.get('iat')
            c = claim_of(view, p, 'iat')
            if c == 'unknown':
                ok = None
            elif isinstance(c, tuple) and c and isinstance(c[0], tuple):
                ok = None if it is not None else False
            else:
                ok = it is not None and it == c
            ob('recorded', ok, 'the issue time that is recorded may not be the one that is signed')
        elif rec:
            ob('recorded', None if any(about(r) for r in rec) and not all(r[0] == 'dict' for r in rec) else False,
               'something else than what is signed is recorded')
        else:
            ob('recorded', False if not adds or not any(x.st.know((f, val)) is None for e in adds
                                                         for f, val in e.facts.items()) or True else None,
               'the trust mark is not recorded')
    if not n:
        ctx.ob('issue', R.qual, None, 'no trust mark is issued')
    ctx.part(unchanged, R, done)


def unchanged(ctx, R, done, param=None):
    for e in R.A.log:
        if e.kind != 'mut':
            continue
        t = dict(e.args).get('target')
        if t is None or t[0] == 'fresh':
            continue
        if mentions(t, spec_t) or param is not None and mentions(t, param) and t[0] in ('item', 'sym'):
            a = dict(e.args)
            what = f'del {show(a.get("key", a.get("0", NONE)))}' if e.name in ('del', 'pop', '__delitem__') else \
                f'{e.name} {show(a.get("key", NONE))}'
            uniq(ctx, 'specification-unchanged', done, f'{R.qual} {what}', False,
                 'the specification is changed', e.where)
    ctx.ob('specification-unchanged', R.qual, True)


def c20(ctx):
    done = set()
    ctx.part(issue, TME + '.create_trust_mark', done, SUB,
          lambda view, tid: ('item', ('attr', ('self', TME), 'tm_lifetime'), tid))
    ss = 'fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity'
    ctx.part(issue, ss + '.__call__', done, ('attr', FE, 'entity_id'), lambda view, tid: ('attr', ('self', ss), 'tm_lifetime'))
    for c in (TME, ss):
        ctx.part(unchanged, ctx.run(c + '.__init__'), done, ('sym', 'trust_mark_specification'))
    # life times are kept
    R = ctx.run(TME + '.__init__')
    kept = None
    for e in R.A.log:
        if e.kind == 'mut' and e.name == '[]=' and mentions(dict(e.args).get('value', NONE), C('lifetime')):
            a = dict(e.args)
            v, k = a['value'], a['key']
            ok = v[0] == 'item' and v[1][0] == 'item' and v[1][2] == k or None
            if v[0] == 'item' and v[1][0] == 'item' and k[0] in ('elem', 'const', 'sym') and v[1][2] != k:
                ok = False
            kept = True
            for a2, w2 in e.facts.items():
                if w2 and v[0] == 'item' and a2[0] == 'in' and a2[2] == v[1] and a2[1][0] == 'const' and \
                        a2[1] != C('lifetime'):
                    uniq(ctx, 'life-time', done, R.qual, False, 'life times are only kept for some', e.where)
                if v[0] == 'item' and a2 == ('in', C('lifetime'), v[1]) and not w2:
                    uniq(ctx, 'life-time', done, R.qual, False, 'the life times are not kept', e.where)
            for lid, dom in e.loops:
                for t in subterms(dom):
                    if t[0] == 'slice':
                        uniq(ctx, 'life-time', done, R.qual, False if all(y[0] == 'const' for y in t[2:5]) else None,
                             'only some of the life times are kept', e.where)
            uniq(ctx, 'life-time', done, R.qual, ok, 'the life time of another kind of trust mark is used', e.where)
    # the store that is configured is the one that is used
    db = ('sym', 'trust_mark_db')
    issued = ('attr', ('self', TME), 'issued')
    for x, _ in R.returns():
        v = R.A.freeze(x.st, x.st.over[issued]) if issued in x.st.over else NONE
        view = R.view(x)
        ok = mentions(v, db) or view.know(a_truthy(db)) is False or view.know(a_none(db)) is True or (
            None if view.opaque([db]) else False)
        uniq(ctx, 'store', done, R.qual, ok, 'the trust marks may not be recorded in the configured store', R.where(x),
             R.path(x))
    if kept is None:
        ctx.ob('life-time', R.qual, None, 'how life times are kept is not understood')
    # the end point
    R = ctx.run('fedservice.trust_mark_entity.server.trust_mark.TrustMark.process_request',
                boundary=('create_trust_mark',))
    for e in R.A.log:
        if e.kind == 'call' and e.name.endswith('create_trust_mark'):
            args = [y for y in e.args if y[0] != 'self']
            i, s = arg(args, 0, 'id'), arg(args, 1, 'sub')
            for got, k in ((i, 'trust_mark_id'), (s, 'sub')):
                want = ('item', REQ, C(k))
                ok = got in (want, NONE) or (None if got is None or about(got) else False)
                if got == NONE:
                    ok = View(R.A, list(e.facts.items())).know(a_in(C(k), REQ)) is False or None
                uniq(ctx, 'as-asked', done, R.qual, ok, f'the trust mark is not the one that was asked for ({k})', e.where)
