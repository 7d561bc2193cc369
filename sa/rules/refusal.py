"""What is refused, and whether there is a reason for it (C38).

The other way around from C01 - C07 and C10: every way out that refuses a trust chain, or raises an error about a claim, has to have
come by a condition that the specification gives as a reason.
"""
from .abstract import *
from .chain import accepted, c_params, chain_run
from .collector import fpath, uniq
from .constraints import CH, MOD, accumulated, foralls, min_args, outcomes, path_of, per_chain, presence, strip_copy
from .policy import ALL, OPSET, POL, S, sequence

CHAIN = ('sym', 'chain')
WANTED = ('iss', 'sub', 'iat', 'exp', 'jwks')
FEIDENT = lambda t: t[0] == 'attr' and t[2] == 'entity_id'


def plain_atom(a):
    """A condition that only looks at what is in statements, keys and configuration."""
    if a[0] not in ('truthy', 'eq', 'eq0', 'in', 'lt', 'none', 'isnone', 'subset', 'isinst'):
        return False
    return not mentions(a, lambda t: t[0] in ('lo', 'up') or t[0] == 'call' and t[1].startswith('fedservice.') and
                        not t[1].endswith('.meets_restrictions'))


def of_statement(t):
    return t[0] in ('payload', 'verified', 'pv')


def issued_by(view):
    """The issuer of the first statement is not one to trust."""
    unknown = own = False
    for a, v in view.facts.items():
        if a[0] == 'in' and not v and a[2][0] == 'attr' and a[2][2] == 'trust_anchors':
            unknown = unknown or a[1]
    if not unknown or unknown[0] != 'item' or unknown[2] != C('iss') or unknown[1][0] != 'payload' or \
            unknown[1][1] not in (('item', CHAIN, C(0)),):
        return False
    for a, v in view.facts.items():
        if a[0] == 'eq' and not v and unknown in a[1:3] and any(FEIDENT(t) for t in a[1:3]):
            own = True
    return own


def not_linked(view):
    """The issuer is not the subject above, and it isn't about me at the end either."""
    def sub_above(t):
        return t[0] == 'item' and t[2] == C('sub') and t[1][0] in ('pv', 'payload', 'verified')
    iss = other = False
    for a, v in view.facts.items():
        if a[0] == 'eq' and not v:
            l, r = a[1:3]
            for p, q in ((l, r), (r, l)):
                if p[0] == 'item' and p[2] == C('iss') and of_statement(p[1]) and sub_above(q) and q[1] != p[1]:
                    iss = True
                if sub_above(p) and (sub_above(q) and p[1] != q[1] or FEIDENT(q)):
                    other = True
        elif not v and a[0] in ('eq0', 'eq') and mentions(a, ('len', CHAIN)):
            other = other or last(view) is False
        elif a[0] == 'lt' and v and mentions(a, ('len', CHAIN)) and mentions(a, lambda t: t[0] == 'idx'):
            other = True
    return iss and other


def expired(view):
    for a, v in view.facts.items():
        for t in subterms(a):
            if t[0] == 'item' and t[2] == C('exp') and of_statement(t[1]) and (
                    view.know(a_lt(t, NOW)) is True or view.know(neg(a_lt(NOW, t))) is True):
                return True
    return False


def reason(view, x):
    """-> what the reason is, or None"""
    for a, v in view.facts.items():
        if a[0] == 'truthy' and not v:
            t = a[1]
            if t[0] == 'call' and t[1].endswith('.meets_restrictions'):
                return 'constraints'
            if t[0] == 'jws' or t == CHAIN or t[0] == 'list' and any(s[0] == 'many' for s in t[1:] if isinstance(s, tuple)):
                return 'not a chain of signed statements'
            if t[0] == 'call' and t[1].rpartition('.')[2] == 'get_jwt_verify_keys':
                return 'no keys'
        elif a[0] == 'truthy' and v and a[1][0] == 'call' and a[1][1].endswith('difference') or a[0] == 'subset' and not v:
            big = a[2] if a[0] == 'subset' else a[1][2][-1][1]
            small = a[1]
            if mentions(small, C('crit')) and c_params(big):
                return 'crit'
            if mentions(small, C('policy_language_crit')) and 'POLICY_FUNCTIONS' in str(big):
                return 'policy_language_crit'
        elif a[0] == 'in' and not v and a[1][0] == 'elem' and mentions(a[1], C('crit')) and c_params(a[2]):
            return 'crit'
        elif a[0] == 'in' and not v and a[1][0] == 'elem' and mentions(a[1], C('policy_language_crit')) and 'POLICY_FUNCTIONS' in str(a[2]):
            return 'policy_language_crit'
        elif a[0] == 'none' and v and (a[1][0] == 'jws' or a[1] == CHAIN):
            return 'not a chain of signed statements'
        elif a[0] == 'in' and not v and a[1][0] == 'const' and a[1][2] in WANTED and of_statement(a[2]):
            if a[1][2] != 'jwks' or last(view) is False:
                return f'no {a[1][2]}'
        elif a[0] == 'eq' and v and a[2] == ('list',) and a[1][0] == 'call' and a[1][1].endswith('get_jwt_verify_keys'):
            return 'no keys'
    if issued_by(view):
        return 'issuer'
    if not_linked(view):
        return 'linkage'
    if expired(view):
        return 'expired'
    return None


def last(view):
    """Is it the last statement? True / False / None"""
    for a, v in view.facts.items():
        if a[0] in ('eq0', 'eq') and mentions(a, ('len', CHAIN)):
            for i in {t for t in subterms(a) if t[0] == 'idx'}:
                k = view.know(a_eq(i, mk_lin({('len', CHAIN): 1}, -1)))
                if k is not None:
                    return k
        if a[0] == 'lt' and mentions(a, ('len', CHAIN)) and mentions(a, lambda t: t[0] == 'idx'):
            return False if v else None
    return None


def chain(ctx, done):
    R = chain_run(ctx)
    rule = 'refused-for-a-reason'
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    acc = accepted(ctx, R)
    ids = {id(x) for x, v, at in acc}
    common = None
    for x, v, at in acc:
        common = set(x.st.facts.items()) if common is None else common | set(x.st.facts.items())
    for x in R.exits:
        if id(x) in ids:
            continue
        view = R.view(x)
        r = reason(view, x)
        if r:
            ctx.ob(rule, f'{R.qual} {r}', True, r)
            continue
        rem = [(a, v) for a, v in x.st.facts.items() if (a, v) not in (common or ())]
        if x.kind == 'exc' and (not x.st.exc or x.st.exc[0] in ('KeyError', 'AttributeError', 'TypeError', 'IndexError')):
            continue  # something the statements do not have: not a decision
        ok = False if all(plain_atom(a) for a, v in rem) else None
        uniq(ctx, rule, done, R.qual, ok, 'a trust chain is refused for no reason the specification gives', R.where(x), fpath(rem) or R.path(x))
    ctx.ob(rule, R.qual, True if acc else None, 'nothing is accepted')


# ---------------------------------------------------------------------- constraints
def own_names(A, t, kind):
    """Are these names that statements further up, or this one, state? True / False / None"""
    t = strip_copy(t)

    def is_kind(u):
        u = strip_copy(u)
        k = None
        if u[0] == 'call' and u[1].endswith('.get') and len(u[2]) > 1:
            k = u[2][1][1]
            base = dict(u[2]).get('self')
        elif u[0] == 'item':
            k, base = u[2], u[1]
        if k is None or k[0] != 'const' or not mentions(u, C('naming_constraints')):
            return None
        return k == C(kind)
    if t == ('list',):
        return True
    k = is_kind(t)
    if k is not None:
        return k
    if t[0] == 'elem':
        return own_names(A, t[2], kind)
    r = accumulated(A, t)
    if r is None or r[1] not in A.loopinfo[r[0]]['vals']:
        if t[0] == 'list':
            ks = [own_names(A, s[2] if s[0] == 'many' else s[1], kind) for s in t[1:] if len(s) > 1]
            return False if False in ks else True if ks and None not in ks else None
        return None
    lid, key, more = r
    segs = list(more)
    for d, ev, v in A.alts[A.loopinfo[lid]['vals'][key]]:
        if not v:
            continue
        if isinstance(key, str):
            q = accumulated(A, v)
            if q is None or q[:2] != (lid, key):
                k = own_names(A, v, kind) if v[0] != 'lv' and v != t else None
                if k is not True:
                    return k
                continue
            segs += list(q[2])
        else:
            segs += [s for s in v]
    for s in segs:
        if s[0] not in ('item', 'all', 'many'):
            if s[0] in ('prev',):
                continue
            return None
        k = own_names(A, s[2] if s[0] == 'many' else s[1], kind)
        if k is not True:
            return k
    return True


def refusals(R):
    for x, v in R.returns():
        t = x.st.know(a_truthy(v)) if v not in (TRUE, FALSE) else v == TRUE
        if t is not True:
            yield x, v, t


def allowance(A, lid, dom):
    """How the allowance is kept along the chain: (name of the variable, names of the flags, loop values)"""
    e = ('elem', lid, dom)
    N = path_of(e, 'constraints', 'max_path_length')
    vals = {k: A.alts[i] for k, i in A.loopinfo[lid]['vals'].items() if isinstance(k, str)}
    cur = [k for k, a in vals.items() if any(v is not None and v[0] not in ('dict', 'list') and mentions(v, N) for d, ev, v in a)]
    flags = [k for k, a in vals.items() if k not in cur and all(
        v in (TRUE, ('lv', lid, k), ('pv', lid, k), ('phi', lid, k, FALSE)) or
        v == FALSE and View(A, d).know(a_truthy(('lv', lid, k))) is False for d, ev, v in a)]
    return cur, flags, vals


def before_of(view, lid, cur, flags):
    """Has a statement further up limited the length? True / False / None"""
    before = None
    for f in flags:
        for t in (('lv', lid, f), ('pv', lid, f)):
            k = view.know(a_truthy(t))
            before = k if k is not None else before
    for t in (('lv', lid, cur), ('pv', lid, cur), ('phi', lid, cur, NONE)):
        k = view.know(a_none(t))
        before = not k if k is not None else before
    if view.know(a_eq(('idx', lid), C(0))) is True:
        before = False
    return before


def too_long(A, view, facts):
    """Is the chain refused because it is longer than allowed? True / False / None (not about the length)"""
    about_len = None
    for lid in {t[1] for a, v in facts for t in subterms(a) if t[0] == 'elem' and per_chain(t[2])}:
        dom = next(t[2] for a, v in facts for t in subterms(a) if t[0] == 'elem' and t[1] == lid and per_chain(t[2]))
        e = ('elem', lid, dom)
        N = path_of(e, 'constraints', 'max_path_length')
        below = mk_lin({('len', CH): 1, ('idx', lid): -1}, -2)
        has = presence(view, e, 'constraints', 'max_path_length')
        if view.know(a_lt(N, below)) is True or view.know(a_lt(N, C(0))) is True:
            return True
        cur, flags, vals = allowance(A, lid, dom)
        if len(cur) != 1:
            continue
        lv = ('lv', lid, cur[0])
        if view.know(a_lt(mk_lin({lv: 1}, -1), C(0))) is True:
            if before_of(view, lid, cur[0], flags) is not False:
                return True
            about_len = False
        elif any(view.know(a_lt(m, C(0))) is True and all(n in (N, mk_lin({lv: 1}, -1)) for n in min_args(m))
                 for a, v in facts for m in subterms(a) if m[0] == 'call' and m[1].rpartition('.')[2] == 'min') and \
                before_of(view, lid, cur[0], flags) is not False:
            return True
        elif any(a[0] == 'lt' and v and (mentions(a, lv) or mentions(a, N)) and not mentions(a, lambda t: t[0] == 'call') for a, v in facts):
            about_len = False
    return about_len


def exact(ctx, R, done):
    """The allowance is never smaller than what the statements say."""
    A = R.A
    rule = 'allowance-exact'
    for lid, info in A.loopinfo.items():
        dom = next((x[1] for x in [(lid, info['iter'])]), None)
        if per_chain(dom) is None:
            continue
        cur, flags, vals = allowance(A, lid, dom)
        if len(cur) != 1:
            continue
        cur = cur[0]
        e = ('elem', lid, dom)
        N = path_of(e, 'constraints', 'max_path_length')
        lv = ('lv', lid, cur)
        dec = mk_lin({lv: 1}, -1)
        for i, (d, ev, new) in enumerate(vals[cur]):
            view = View(A, d)
            if new is None:
                continue
            has, before = presence(view, e, 'constraints', 'max_path_length'), before_of(view, lid, cur, flags)
            after = [vals[f][i][2] for f in flags if i < len(vals[f])]
            ok = True
            why = ''
            for n in min_args(new):
                l = to_lin(lin_add(n, dec, -1)) if lin_add(n, dec, -1) is not None else None
                if n == N or n == dec or l and not l[0] and l[1] >= 0:
                    if n != N and before is False and has is not False:
                        ok, why = False, 'the limit a statement sets is not the one that counts'
                    continue
                if n[0] == 'const' and has is False and before is False:
                    continue
                if n in (lv, ('pv', lid, cur)):
                    continue
                if view.know(neg(a_lt(n, N))) is True or view.know(neg(a_lt(n, dec))) is True:
                    continue
                simple = not mentions(n, lambda t: t[0] == 'call' or t[0] == 'lo')
                ok, why = False if simple and ok is not None else None, f'the allowance becomes {show(n)[:80]}'
            if ok and TRUE in after and has is False and before is False:
                ok, why = False, 'the length is limited though no statement says so'
            uniq(ctx, rule, done, R.qual, ok, why, None, fpath(d))


def restrictions(ctx, done):
    rule = 'restricted-for-a-reason'
    R = ctx.run(MOD + 'meets_restrictions', boundary=('excluded', 'permitted', 'more_specific', 'update_naming_constraints'))
    A = R.A
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    n = 0
    for x, v, t in refusals(R):
        facts = list(x.st.facts.items())
        if v not in (FALSE, NONE) and v[0] != 'const':
            if t is None:
                facts = facts + [(a_truthy(v)[0], not a_truthy(v)[1])]
        view = View(A, facts)
        ok, why = False, 'a chain is refused though no constraint says so'
        n += 1
        tl = too_long(A, view, facts)
        if tl is True:
            ok = True
        elif tl is False:
            why = 'a chain is refused for its length though it is not longer than allowed'
        if not ok:
            for kind, pol in (('excluded', True), ('permitted', False)):
                for a, w in flat(A, facts):
                    if a[0] != 'truthy' or a[1][0] != 'call' or w != pol:
                        continue
                    f = a[1][1].rpartition('.')[2]
                    if f not in (kind, 'more_specific') or len(a[1][2]) < 2:
                        continue
                    s, names = [y for k, y in a[1][2]][:2]
                    if f == 'more_specific' and kind == 'permitted':
                        continue
                    if s[0] != 'item' or s[2] != C('sub') or not (s[1][0] == 'elem' and per_chain(s[1][2]) or s[1] == ('item', CH, C(-1))):
                        why = f'what is compared to the {kind} names is not the subject of a statement'
                        if s[0] == 'const' or s[0] == 'item' and s[2][0] == 'const' and s[2] != C('sub'):
                            continue
                        ok = None if ok is False else ok
                        continue
                    k = own_names(A, names, kind)
                    if k is True:
                        ok = True
                    elif k is None:
                        ok = None if ok is False else ok
                    else:
                        why = f'a subject is compared to others than the {kind} names'
        if ok is False and not all(a[0] in ('truthy', 'in', 'lt', 'eq', 'none', 'forall', 'isinst', 'completed') for a, w in facts):
            ok = None
        if ok is False and any(a[0] in ('lt', 'truthy') and not stated(A, a) and mentions(a, lambda y: y[0] == 'lo' or y[0] == 'call' and not y[1].endswith(
                ('.excluded', '.permitted', '.more_specific', '.get', 'min'))) for a, w in facts):
            ok = None
        uniq(ctx, rule, done, R.qual, ok, why, R.where(x), fpath(facts))
    ctx.ob(rule, R.qual, True if n else None, 'nothing is refused')
    ctx.part(exact, R, done)
    for fn in ('excluded', 'permitted'):
        R = ctx.run(MOD + fn, boundary=('more_specific',))
        f = ctx.repo.func(MOD + fn).node.args
        ps = [a.arg for a in f.posonlyargs + f.args]
        s, names = ('sym', ps[0]), ('sym', ps[1])
        for x, v, t, facts in outcomes(R):
            if t is None:
                uniq(ctx, 'within', done, R.qual, None, 'result not understood', R.where(x))
                continue
            if fn == 'excluded' and t:
                hits = [a for a, w in flat(R.A, facts) if a[0] == 'truthy' and w and a[1][0] == 'call' and a[1][1].endswith('.more_specific')]
                ok = any([y for k, y in h[1][2]][0] == s and [y for k, y in h[1][2]][1][0] == 'elem' and
                         [y for k, y in h[1][2]][1][2] == names for h in hits)
                ok = ok or (None if any(mentions(a, lambda t: t[0] == 'call' and not t[1].endswith('.more_specific')) for a, w in facts)
                            or any(a[0] in ('exists', 'startswith') for a, w in facts) else False)
                uniq(ctx, 'within', done, R.qual, ok, 'excluded without being within one of the excluded names', R.where(x), R.path(x))
            elif fn == 'permitted' and not t:
                ok = x.st.know(a_truthy(names)) is False
                other = False
                for lid, dom, alts in foralls(R.A, facts):
                    if dom == names and alts and all(
                            any(b[0] == 'truthy' and not w and b[1][0] == 'call' and b[1][1].endswith('.more_specific')
                                and [y for k, y in b[1][2]] == [s, ('elem', lid, dom)] for b, w in d) for d, ev, _ in alts):
                        ok = True
                    elif any(mentions(b, s) and not mentions(b, lambda y: y[0] == 'call' and y[1].endswith('.more_specific'))
                             for d, ev, _ in alts for b, w in d):
                        other = True
                other = other or any(mentions(a, s) and mentions(a, lambda t: t[0] == 'call' and not t[1].endswith('.more_specific'))
                                     for a, w in facts)
                uniq(ctx, 'within', done, R.qual, ok or (None if other else False),
                     'not permitted though not compared to all the permitted names', R.where(x), R.path(x))


def stated(A, a):
    """Is it about there being names that statements have stated?"""
    return a[0] == 'truthy' and any(own_names(A, a[1], k) for k in ('excluded', 'permitted'))


def flat(A, facts):
    """With what is known about the element that there is."""
    for a, w in facts:
        yield a, w
        if a[0] == 'exists' and w or a[0] == 'forall' and not w:
            alts = A.alts.get(a[3]) if len(a) > 3 and isinstance(A.alts, dict) else None
            for alt in alts or ():
                if len(alts) == 1:
                    for b in alt[0]:
                        yield b


# ---------------------------------------------------------------------- operators
def operators(ctx, done):
    rule = 'error-for-a-reason'
    seq = sequence(ctx)
    if seq is None:
        ctx.ob(rule, OPSET, None, 'the list of operators is not known')
        return
    heap, ops_val, names = seq
    for op in ALL:
        for present in (True, False):
            md = {'Z': 'mz', **({'A': 'ma'} if present else {})}
            R = Abs(ctx, POL + 'apply_metadata_policy', {'metadata': md, 'metadata_policy': {'A': {op: 'p_' + op}}},
                    heap=heap, pre=lambda A, st, e: e.__setitem__('policy_operators', ops_val), while_unroll=48)
            name = f'{op} on a claim that is {"present" if present else "absent"}'
            if R.limit:
                ctx.ob(rule, name, None, 'exploration limit')
                continue
            ma, p = S('ma'), S('p_' + op)
            for x in R.exits:
                if x.kind != 'exc' or not x.st.exc or x.st.exc[0] in ('KeyError', 'TypeError', 'AttributeError', 'IndexError'):
                    continue
                view = R.view(x)
                ok = False
                if present and op in ('one_of', 'subset_of'):
                    ok = view.know(a_in(ma, p)) is False or view.know(a_subset(ma, p)) is False
                    ok = ok or any(not v and a[0] == 'truthy' and a[1][0] == 'inter' and mentions(a, ma) and mentions(a, p)
                                   for a, v in view.facts.items())
                    ok = ok or op == 'one_of' and any(v and a[0] == 'isinst' and mentions(a, ma) for a, v in view.facts.items())
                elif present and op == 'superset_of':
                    ok = view.know(a_subset(p, ma)) is False or any(
                        a[0] == 'in' and not v and a[1][0] == 'elem' and a[1][2] == p and a[2] == ma for a, v in view.facts.items())
                elif not present and op == 'essential':
                    ok = view.know(a_truthy(p)) is True or view.know(a_eq(p, TRUE)) is True
                if not ok and any(not plain_op(a) for a, v in view.facts.items()):
                    ok = None
                uniq(ctx, rule, done, name, ok, 'an error is raised about a claim that satisfies the policy', R.where(x), R.path(x))
            ctx.ob(rule, name, True if any(True for _ in R.returns()) else None, 'there are ways out without an error')


def plain_op(a):
    return a[0] in ('truthy', 'eq', 'eq0', 'in', 'subset', 'isinst', 'none') and not mentions(
        a, lambda t: t[0] in ('lo', 'call', 'lv', 'elem'))


def c38(ctx):
    done = set()
    ctx.part(chain, done)
    ctx.part(restrictions, done)
    ctx.part(operators, done)
