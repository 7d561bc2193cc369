"""C09 - C12: metadata policies (fedservice.entity.function.policy, policy_operator)."""
from itertools import combinations

from .abstract import *

POL = 'fedservice.entity.function.policy.'
OPS = 'fedservice.entity.function.policy_operator.'
ALL = ('value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential')


def consistent(s):
    s = set(s)
    if 'value' in s:
        return s <= {'value', 'essential'}
    return not ('one_of' in s and s & {'subset_of', 'superset_of'})


def op_sets(limit=7):
    return [c for n in range(limit + 1) for c in combinations(ALL, n) if consistent(c)]


def unsure(*ts):
    return any(about(t) for t in ts if t is not None)


def implies_true(view, val, p):
    """When p is true val is."""
    if val == p or val == TRUE or view.know(a_eq(val, p)) is True or view.know(a_eq(val, FALSE)) is False:
        return True
    if view.know(a_truthy(val)) is True:
        return True
    return view.know(a_truthy(p)) is False or view.know(a_eq(p, TRUE)) is False


def both(op, val, s, c, view):
    """Is the combined value of an operator that both parties have at least as restrictive as both?"""
    if op in ('value', 'default'):
        if val not in (s, c):
            return (None if unsure(val) else False), f'the combined {op} is {show(val)[:80]}'
        if view.know(a_eq(s, c)) is True:
            return True, ''
        return False, f'{op} may differ from the one the superior states'
    if op == 'essential':
        if implies_true(view, val, s) and implies_true(view, val, c):
            return True, ''
        return (None if unsure(val) else False), f'essential may be turned off: {show(val)[:80]}'
    if op in ('subset_of', 'one_of'):
        if val == s and view.know(a_subset(s, c)) is True or val == c and view.know(a_subset(c, s)) is True:
            return True, ''
        ls = list(parts(val, 'inter'))
        if s in ls and c in ls:
            if view.know(a_truthy(strip_set(val))) is True:
                return True, ''
            return False, f'an empty combined {op} is not refused'
        return (None if unsure(val) else False), f'the combined {op} allows more than both: {show(val)[:80]}'
    if val == s and view.know(a_subset(c, s)) is True or val == c and view.know(a_subset(s, c)) is True:
        return True, ''
    ls = [strip_one(x) for x in parts(val, 'union')]
    if s in ls and c in ls:
        return True, ''
    return (None if unsure(val) else False), f'the combined {op} is not the union of both: {show(val)[:80]}'


def strip_one(t):
    t = strip_set(t)
    if t[0] == 'list' and len(t) == 2 and t[1][0] in ('item', 'all'):
        return t[1][1]
    return t


PAIRS = {('superset_of', 'subset_of'): lambda r: a_subset(r['superset_of'], r['subset_of']),
         ('default', 'subset_of'): lambda r: a_subset(r['default'], r['subset_of']),
         ('superset_of', 'default'): lambda r: a_subset(r['superset_of'], r['default']),
         ('add', 'subset_of'): lambda r: a_subset(r['add'], r['subset_of'])}


def fits(view, ops, r):
    """The conflicts between two operators that are looked for."""
    if len(ops) == 2:
        for (a, b), lit in PAIRS.items():
            if ops == {a, b} and view.know(lit(r)) is not True:
                ok = False
                if view.any(lambda x, v: mentions(x, r[a]) and mentions(x, r[b])):
                    ok = None
                for x, v in view.facts.items():
                    if x[0] == 'subset' and {x[1], x[2]} == {strip_set(r[a]), strip_set(r[b])}:
                        ok = False
                return ok, f'{a} and {b} may contradict each other'
    return True, ''


def c09(ctx):
    rule = 'combine-claim'
    fn = POL + 'combine_claim_policy'
    sets = op_sets(7)
    if ctx.tier != 'thorough':
        sets = [s for s in sets if len(s) <= 3]
    done = set()
    for S in sets:
        for Cc in sets:
            if not S or not Cc:
                continue
            R = Abs(ctx, fn, {'superior': {k: 's_' + k for k in S}, 'child': {k: 'c_' + k for k in Cc}})
            name = f'{{{", ".join(S)}}} + {{{", ".join(Cc)}}}'
            if R.limit:
                ctx.ob(rule, name, None, 'exploration limit')
                continue
            union = set(S) | set(Cc)
            for x, v in R.returns():
                view = R.view(x)
                e = entries(v)

                def bad(what, ok, why):
                    if ok is True:
                        ctx.ob(rule, f'{what} {name}', True, 'at least as restrictive')
                    elif (what, ok, why) not in done:
                        done.add((what, ok, why))
                        ctx.ob(rule, what, ok, f'{why} (combining {name})', R.where(x), R.path(x))
                if not consistent(union):
                    hide = 'value' if 'value' in union else 'one_of'
                    bad(f'conflict with {hide}', False if e is not None else None,
                        'operators that can not be combined are not refused')
                    continue
                if e is None:
                    bad('result', None, 'a policy of unknown shape')
                    continue
                for k in R.changed(x):
                    bad(f'{k} policy', False, 'the policy of a statement is changed')
                for op in union:
                    s = ('sym', 's_' + op) if op in S else None
                    c = ('sym', 'c_' + op) if op in Cc else None
                    who = 'both' if s and c else 'superior' if s else 'subordinate'
                    if op not in e:
                        bad(f'{op} of {who}', False, f'{op} is lost')
                        continue
                    if s and c:
                        bad(f'{op} in {who}', *both(op, e[op], s, c, view))
                    else:
                        ok = e[op] == (s or c) or op == 'essential' and implies_true(view, e[op], s or c)
                        if not ok and (op in ('subset_of', 'one_of', 'superset_of', 'add') and
                                       (s or c) in parts(e[op], 'inter' if op in ('subset_of', 'one_of') else 'union')):
                            ok = True
                        bad(f'{op} of {who}', ok or (None if unsure(e[op]) else False),
                            f'{op} is changed into {show(e[op])[:80]}')
                for op in set(e) - union:
                    bad(op, False, f'{op} comes from nowhere')
                bad('fit', *fits(view, union, e))
    # -- claim by claim
    fn = POL + 'combine'
    rule = 'combine'
    pol = {'superior': {'metadata_policy': {'A': 'sa', 'B': 'sb'}, 'metadata': {'M': 'sm', 'N': 'sn'}},
           'subordinate': {'metadata_policy': {'C': 'cc', 'B': 'cb'}, 'metadata': {'O': 'co', 'N': 'cn'}}}
    ccp = POL + 'combine_claim_policy'
    for drop in ((), ('superior', 'metadata_policy'), ('superior', 'metadata'), ('subordinate', 'metadata_policy'),
                 ('subordinate', 'metadata')):
        args = {k: {j: dict(w) for j, w in v.items()} for k, v in pol.items()}
        if drop:
            args[drop[0]][drop[1]] = {}
        R = Abs(ctx, fn, args, boundary=('combine_claim_policy',))
        for x, v in R.returns():
            view = R.view(x)
            e = entries(v)
            mp = entries(e.get('metadata_policy', ('dict', None, ()))) if e is not None else None
            me = entries(e.get('metadata', ('dict', None, ()))) if e is not None else None
            if mp is None or me is None:
                ctx.ob(rule, fn, None, 'a result of unknown shape', R.where(x))
                continue
            sp, cp = args['superior']['metadata_policy'], args['subordinate']['metadata_policy']
            for k in sorted(set(sp) | set(cp)):
                val = mp.get(k)
                if k in sp and k in cp:
                    ok = val is not None and is_combined(val, ('sym', sp[k]), ('sym', cp[k]))
                    why = f'is {show(val)[:100] if val else "lost"}, not the combination of both'
                else:
                    ok = val == ('sym', sp.get(k, cp.get(k)))
                    why = f'is {show(val)[:100] if val else "lost"}'
                who = 'both' if k in sp and k in cp else 'the superior' if k in sp else 'the subordinate'
                ctx.ob(rule, f'policy of {who} {drop}', ok or (None if val and unsure_call(val) else False),
                       f'the policy of {who} {why}', R.where(x), R.path(x))
            for k in set(mp) - set(sp) - set(cp):
                ctx.ob(rule, 'policy from nowhere', False, f'a policy for {k}', R.where(x))
            sm, cm = args['superior']['metadata'], args['subordinate']['metadata']
            for k in sorted(set(sm) | set(cm)):
                val = me.get(k)
                who = 'both' if k in sm and k in cm else 'the superior' if k in sm else 'the subordinate'
                if who == 'both':
                    ok = val in (('sym', sm[k]), ('sym', cm[k])) and view.know(a_eq(('sym', sm[k]), ('sym', cm[k]))) \
                        is True or val == ('sym', sm[k])
                else:
                    ok = val == ('sym', sm.get(k, cm.get(k)))
                ctx.ob(rule, f'metadata of {who} {drop}', ok or (None if val and unsure(val) else False),
                       f'the metadata of {who} is {show(val)[:100] if val else "lost"}', R.where(x), R.path(x))
        if R.limit or not list(R.returns()):
            ctx.ob(rule, fn, None if R.limit else False, 'no result though nothing is in conflict')
    # -- statement by statement
    rule = 'gather'
    fn = POL + 'TrustChainPolicy.gather_policies'
    chain = [{'metadata_policy': {'et': {'A': 'a0', 'B': 'b0'}, 'ot': {'X': 'x0'}}, 'metadata': {'et': {'M': 'm0'}}},
             {'metadata_policy': {'et': {'B': 'b1'}}},
             {'metadata': {'ot': {'Y': 'y2'}}},
             {'metadata_policy': {'et': {'B': 'b3', 'D': 'd3'}}, 'metadata': {'et': {'N': 'n3'}}}]
    R = Abs(ctx, fn, {'entity_type': C('et'), 'chain': chain}, boundary=('combine_claim_policy',))
    sy = lambda n: ('sym', n)
    n = 0
    for x, v in R.returns():
        n += 1
        e = entries(v)
        mp = entries(e.get('metadata_policy', ('dict', None, ()))) if e is not None else None
        me = entries(e.get('metadata', ('dict', None, ()))) if e is not None else None
        if mp is None or me is None:
            ctx.ob(rule, fn, None, 'a result of unknown shape', R.where(x))
            continue
        ctx.ob(rule, 'first', mp.get('A') == sy('a0'), 'the policy of the first statement is lost', R.where(x))
        ctx.ob(rule, 'last', mp.get('D') == sy('d3'), 'the policy of the last statement is lost', R.where(x))
        b = mp.get('B')
        ok = b is not None and is_combined(b, lambda t: is_combined(t, sy('b0'), sy('b1')), sy('b3'))
        ctx.ob(rule, 'all in order', ok or (None if b and unsure_call(b) else False), 'the policies are combined as '
               f'{show(b)[:200] if b else None}', R.where(x), R.path(x))
        ctx.ob(rule, 'metadata', me.get('M') == sy('m0') and me.get('N') == sy('n3'),
               f'the metadata of superiors is {sorted(me)}', R.where(x))
        ctx.ob(rule, 'entity type', set(mp) == {'A', 'B', 'D'} and set(me) == {'M', 'N'},
               f'policies for {sorted(mp)} and metadata {sorted(me)}', R.where(x))
        for k in R.changed(x):
            ctx.ob(rule, 'unchanged', False, 'a verified statement is changed when policies are gathered', R.where(x))
    if not n:
        ctx.ob(rule, fn, None, 'no result')
    R = Abs(ctx, fn, {'entity_type': C('et'), 'chain': [
        {'metadata_policy': {'et': {'A': 'a0'}}}, {'metadata_policy': {'et': {'M': 'b1'}}, 'metadata': {'et': {'M': 'm1'}}}]},
        boundary=('combine_claim_policy',))
    ok = not R.limit and not list(R.returns())
    ctx.ob(rule, 'both metadata and policy', ok or (None if R.limit else False),
           'a claim with both metadata and a metadata policy in one statement is not refused')


def is_combined(t, a, b):
    if t[0] != 'call' or not t[1].endswith('combine_claim_policy'):
        return False
    d = [v for k, v in t[2] if k != 'self']
    if len(d) != 2:
        return False
    return (a(d[0]) if callable(a) else d[0] == a) and (b(d[1]) if callable(b) else d[1] == b)


def unsure_call(t):
    return mentions(t, lambda y: y[0] in ('opaque', 'lo', 'lv', 'phi', 'many', 'all', 'elem') or
                    y[0] == 'call' and not y[1].endswith('combine_claim_policy'))


# ---------------------------------------------------------------------- C10, C11
OPSET = OPS + 'construct_evaluation_sequence'
S = lambda n: ('sym', n)


def sequence(ctx):
    """The policy operators as constructed -> (heap, value, [operator names]) or None"""
    if not hasattr(ctx, '_seq'):
        R = Abs(ctx, OPSET, {})
        ctx._seq = None
        rets = list(R.returns())
        if len(rets) == 1:
            x, v = rets[0]
            names = []
            if v[0] == 'list' and all(s[0] == 'item' and s[1][0] == 'inst' for s in v[1:]):
                for s in v[1:]:
                    cls = s[1][1]
                    names.append(cls)
                ctx._seq = (x.st.heap, x.val, names)
    return ctx._seq


def final_ok(op, val, was, view):
    """Does the value a claim ends up with satisfy the operator? was: the value before, None when absent"""
    p = S('p_' + op)
    if op == 'value':
        return val == p or val is not None and view.know(a_eq(val, p)) is True
    if val is None:
        if op == 'essential':
            return view.know(a_truthy(p)) is False or view.know(a_eq(p, TRUE)) is False
        return op not in ('add', 'default')
    if op in ('essential',):
        return True
    if op == 'default':
        return True
    raw = strip_set(val)
    if op == 'one_of':
        return view.know(a_in(val, p)) is True
    if op == 'subset_of':
        return view.know(a_subset(raw, p)) is True or view.know(a_in(val, p)) is True
    if op == 'superset_of':
        return view.know(a_subset(p, raw)) is True
    if op == 'add':
        ls = [strip_one(x) for x in parts(val, 'union')]
        return p in ls or view.know(a_subset(p, raw)) is True or raw == p
    return None


def kept(val, was, present, ops, view):
    """Only what an operator says may change the value."""
    if was is None:
        return True
    if val is None:
        return False
    if 'value' in ops:
        return True
    ls = set()
    for x in parts(val, 'inter'):
        for y in parts(x, 'union'):
            ls.add(strip_one(y))
    return was in ls


def c10(ctx):
    """Each operator alone."""
    run_policies(ctx, 'operator', [(op,) for op in ALL], single=True)
    run_policies(ctx, 'operator', [s for s in op_sets(7) if len(s) == 2], single=True)


def run_policies(ctx, rule, sets, single=False):
    seq = sequence(ctx)
    fn = POL + 'apply_metadata_policy'
    if seq is None:
        ctx.ob(rule, OPSET, None, 'the list of operators is not known')
        return
    heap, ops_val, names = seq
    done = set()
    for ops in sets:
        for present in (True, False, None):
            md = {} if present is None else {'Z': 'mz'}
            if present:
                md['A'] = 'ma'
            R = Abs(ctx, fn, {'metadata': md, 'metadata_policy': {'A': {k: 'p_' + k for k in ops}}},
                    heap=heap, pre=lambda A, st, e: e.__setitem__('policy_operators', ops_val), while_unroll=48)
            name = f'{{{", ".join(ops)}}} on a claim that is {"present" if present else "absent"}'

            def bad(what, ok, why, x=None):
                if ok is True:
                    ctx.ob(rule, f'{what}: {name}', True, 'satisfied')
                elif (what, ok, why) not in done:
                    done.add((what, ok, why))
                    ctx.ob(rule, what, ok, f'{why} (applying {name})', R.where(x) if x else None,
                           R.path(x) if x else [])
            if R.A.nonterminating:
                bad('termination', False, f'evaluation does not end: {R.A.nonterminating[0]}')
                continue
            if R.limit:
                bad('termination', None, 'exploration limit')
                continue
            for x, v in R.returns():
                view = R.view(x)
                e = entries(v)
                if e is None:
                    bad('result', None, 'metadata of unknown shape', x)
                    continue
                was = S('ma') if present else None
                val = e.get('A')
                for op in ops:
                    ok = final_ok(op, val, was, view)
                    if not ok and op == 'add' and 'subset_of' in ops:
                        ok = mentions(val, S('p_add')) if val else False
                    if not ok and op != 'value' and 'value' in ops and op != 'essential':
                        continue
                    if not ok and val is not None and about(val) and not (op == 'one_of' and val[0] in ('list', 'set')):
                        ok = None
                    if not ok and ok is not None and view.opaque([S('p_' + op)]):
                        ok = None
                    bad(op, ok, f'{op} is not satisfied by {show(val)[:100] if val else "nothing"}', x)
                bad('kept', kept(val, was, present, ops, view) or (None if val and about(val) else False),
                    f'the value {show(was)} has become {show(val)[:100] if val else "absent"}', x)
                if not present and 'value' not in ops:
                    want = S('p_add') if 'add' in ops else S('p_default') if 'default' in ops else None
                    ok = val is None if want is None else val is not None and mentions(val, want) and not (
                        'add' in ops and 'default' in ops and mentions(val, S('p_default')))
                    bad('default', ok or (None if val and about(val) else False),
                        f'the value is {show(val)[:80] if val else "absent"}', x)
                if present and 'default' in ops and val is not None:
                    bad('default', not mentions(val, S('p_default')), 'default is used though the claim is there', x)
                if set(e) - {'A'} != set(md) - {'A'} or 'Z' in md and e['Z'] != S('mz'):
                    bad('other claims', False, 'a claim without a policy is changed', x)
                if R.now(x, 'metadata_policy') != R.before['metadata_policy']:
                    bad('policy', False, 'the policy is changed', x)
            if not list(R.returns()):
                errs = {x.st.exc[0] for x in R.exits if x.kind == 'exc' and x.st.exc}
                other = errs & {'TypeError', 'KeyError', 'IndexError', 'AttributeError'}
                bad('result', False if other else True if errs <= {'PolicyError'}
                    else None, f'never gives a result: {sorted(errs)}')


ORDER = ['value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential']


def c11(ctx):
    seq = sequence(ctx)
    if seq is None:
        ctx.ob('sequence', OPSET, None, 'the list of operators is not known')
    else:
        names = []
        for q in seq[2]:
            A = Analyzer(ctx.repo)
            c = A.class_attr(A._cls(q), 'name')
            names.append(c[2] if c and c[0] == 'const' else None)
        ok = None if None in names else names == ORDER
        ctx.ob('sequence', OPSET, ok, f'the operators are evaluated in the order {names}')
    sets = [s for s in op_sets(7) if len(s) > 1 or ctx.tier == 'thorough']
    run_policies(ctx, 'all-evaluated', sets)


# ---------------------------------------------------------------------- C12
TCP = POL + 'TrustChainPolicy'
TC = 'fedservice.entity_statement.statement.TrustChain'


def inst(cls, **attrs):
    return lambda A, st: A.new_obj(st, ('inst', cls, tuple((k, mk(A, st, v)) for k, v in attrs.items())))


def attrs_of(t):
    return dict(t[2]) if t[0] == 'inst' else None


LEAF = {'et': {'M': 'lm', 'A': 'la', 'K': 'lk'}, 'ot': {'X': 'lx', 'Y': 'ly'}}
ABOVE = [{'metadata_policy': {'et': {'A': {'subset_of': 'a0'}}, 'ot': {'X': {'value': 'x0'}}},
          'metadata': {'et': {'M': 'm0'}}},
         {'metadata_policy': {'et': {'B': {'default': 'b1'}}},
          'metadata': {'et': {'N': 'n1'}, 'ot': {'Y': 'y1'}, 'zt': {'V': 'v1'}}}]


def c12(ctx):
    rule = 'exposed-metadata'
    fn = TCP + '.__call__'
    seq = sequence(ctx)
    if seq is None:
        ctx.ob(rule, OPSET, None, 'the list of operators is not known')
        return
    heap, ops_val, names = seq
    subject = {'metadata': LEAF, 'metadata_policy': {'et': {'Q': {'value': 'evil'}}}}
    for et, above in (('et', ABOVE), ('', ABOVE), ('et', ABOVE[:1]), ('', ABOVE[:1]), ('zt', ABOVE)):
        chain = above + [subject]
        chain_ref = []

        def tc(A, st):
            vc = mk(A, st, chain)
            chain_ref.append((vc, A.freeze(st, vc)))
            return A.new_obj(st, ('inst', TC, (('verified_chain', vc), ('metadata', mk(A, st, {})),
                                              ('combined_policy', mk(A, st, {})))))

        R = Abs(ctx, fn, {'trust_chain': tc, 'entity_type': C(et)}, heap=heap, while_unroll=48,
                pre=lambda A, st, e: e.__setitem__('self', A.new_obj(
                    st, ('inst', TCP, (('policy_operators', ops_val),)))))
        n = 0
        for x, v in R.returns():
            n += 1
            view = R.view(x)
            at = attrs_of(R.now(x, 'trust_chain'))
            if at is None:
                ctx.ob(rule, fn, None, 'a trust chain of unknown shape')
                continue
            vc, before = chain_ref[0]
            ctx.ob('not-changed', fn, R.A.freeze(x.st, at and vc) == before,
                   'applying the policies changes the verified statements', R.where(x), R.path(x))
            md = entries(at.get('metadata', NONE))
            if md is None:
                ctx.ob(rule, fn, None, 'metadata of unknown shape')
                continue
            if et == 'zt':
                t = md.get('zt', NONE)
                ctx.ob(rule, 'zt metadata', t == NONE or (None if about(t) else False), 'metadata of a type that the '
                       f'subject does not have: {show(t)[:80]}', R.where(x), R.path(x))
                continue
            for typ, want in (('et', {'M': S('m0'), 'N': S('n1'), 'K': S('lk'), 'B': S('b1'), 'A': S('a0')}),
                              ('ot', {'X': S('x0'), 'Y': S('y1')})):
                if len(above) == 1:
                    want = dict(want, Y=S('ly')) if typ == 'ot' else {k: w for k, w in want.items() if k not in 'NB'}
                if et and typ != et:
                    if typ in md:
                        ctx.ob(rule, f'{typ}', False, 'metadata that was not asked for')
                    continue
                m = entries(md[typ]) if typ in md else None
                if m is None:
                    ctx.ob(rule, f'{typ} metadata', None if typ in md and about(md[typ]) else False,
                           f'metadata of {typ} is missing', R.where(x), R.path(x))
                    continue
                ctx.ob(rule, f'{typ} parameters', set(m) == set(want), f'the parameters are {sorted(m)}', R.where(x))
                for k, w in want.items():
                    got = m.get(k)
                    if k == 'A':
                        ok = got is not None and final_ok_term(got, w, view)
                        why = 'the policy of the first statement is not applied'
                    else:
                        ok = got == w
                        why = {'M': 'the superior does not have the last word', 'X': 'the policy is not applied',
                               'Y': 'the superior does not have the last word',
                               'N': 'metadata of a superior is missing', 'B': 'the policy is not applied',
                               'K': 'metadata of the subject is not what it states'}[k]
                    ctx.ob(rule, f'{typ}.{k}', ok or (None if got is not None and about(got) else False),
                           f'{why}: {show(got)[:80] if got else "missing"}', R.where(x), R.path(x))
        if R.limit or not n:
            ctx.ob(rule, fn, None, 'no result')
    # exporting
    fn = TC + '.export_chain'
    refs = []

    def tc2(A, st):
        vc = mk(A, st, ['s0', 's1', 's2'])
        refs.append((vc, A.freeze(st, vc)))
        return A.new_obj(st, ('inst', TC, (('verified_chain', vc),)))
    R = Abs(ctx, fn, {'self': tc2})
    for x, v in R.returns():
        ctx.ob('export', fn, R.A.freeze(x.st, refs[0][0]) == refs[0][1], 'exporting changes the trust chain', R.where(x))
        its = [s[1] for s in v[1:]] if v[0] == 'list' and all(s[0] == 'item' for s in v[1:]) else None
        ctx.ob('export', fn + ' value', None if its is None else its == [S('s2'), S('s1'), S('s0')],
               f'the exported chain is {show(v)[:80]}', R.where(x))
    if not list(R.returns()):
        ctx.ob('export', fn, None, 'no result')
    # every chain returned has been processed
    fn = 'fedservice.entity.function.apply_policies'
    R = Abs(ctx, fn, {'trust_chains': ['c0', 'c1']}, boundary=('TrustChainPolicy.__call__',),
            track=lambda n: n.endswith('TrustChainPolicy.__call__'))
    for x, v in R.returns():
        applied = [dict(e[2]) for e in x.st.events if e[1].endswith('TrustChainPolicy.__call__')]
        got = {a.get('trust_chain', a.get('0')) for a in applied}
        out = [s[1] for s in v[1:]] if v[0] == 'list' and all(s[0] == 'item' for s in v[1:]) else None
        if out is None:
            ctx.ob('applied', fn, None, 'a result of unknown shape', R.where(x))
            continue
        for o in out:
            ctx.ob('applied', fn, o in got, 'a trust chain is passed on without its policies having been applied',
                   R.where(x), R.path(x))
    if not list(R.returns()):
        ctx.ob('applied', fn, None, 'no result')


def final_ok_term(val, p, view):
    raw = strip_set(val)
    return view.know(a_subset(raw, p)) is True or view.know(a_in(val, p)) is True
