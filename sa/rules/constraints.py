"""C06, C07: path length and naming constraints (fedservice.entity_statement.constraints)."""
from .base import *
from .chain import accepted, chain_run, covers

MOD = 'fedservice.entity_statement.constraints.'
CH = ('sym', 'trust_chain')


def wiring(ctx, rule):
    """An accepted chain has passed meets_restrictions, all of it."""
    R = chain_run(ctx)
    for x, vc, at in accepted(ctx, R):
        ok = None
        view = R.view(x)
        for a, v in x.st.facts.items():
            if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith('.meets_restrictions'):
                arg = a[1][2][0][1]
                ok = bool(v) and (arg == vc or covers(R.A, arg, ('sym', 'chain')) is True)
        if ok is None:
            ok = None if view.any(lambda a, v: mentions(a, C('constraints'))) or vc is None else False
        ctx.ob(rule, R.qual, ok, 'a chain is accepted without its restrictions having been met', R.where(x), R.path(x))


def accepting(R):
    for x, v in R.returns():
        if v == FALSE or x.st.know(a_truthy(v)) is False:
            continue
        yield x, v


def per_chain(dom):
    """Does the loop go through all (True), or all but the last (None for the leaf), of the chain?"""
    if dom == CH:
        return 'all'
    if dom[0] == 'slice' and dom[1] == CH and dom[2] in (NONE, C(0)) and dom[3] == C(-1) and dom[4] in (NONE, C(1)):
        return 'superiors'
    return None


def path_of(e, *ks):
    for k in ks:
        e = ('item', e, C(k))
    return e


def presence(view, e, *ks):
    """Is there something at e[k0][k1]..? True (present) / False (absent or empty) / None"""
    t = e
    for i, k in enumerate(ks):
        if view.know(a_in(C(k), t)) is False:
            return False
        t = ('item', t, C(k))
        if i < len(ks) - 1 or True:
            if view.know(a_none(t)) is True:
                return False
            if i < len(ks) - 1 and view.know(a_truthy(t)) is False:
                return False
    if view.know(a_in(C(ks[-1]), path_of(e, *ks[:-1]))) is True or view.know(neg(a_none(t))) is True:
        return True
    return None


def partway(A, x):
    """Accepted in the middle of going through the statements, whatever the others say."""
    facts = list(x.st.facts.items())
    done = {lid for lid, dom, alts in foralls(A, facts)}
    here = {(t[1], t[2]) for a, v in facts if a[0] not in ('forall', 'exists') for t in subterms(a)
            if t[0] == 'elem' and per_chain(t[2]) and t[1] not in done}
    return any(not any(mentions(a, ('idx', lid)) or mentions(a, ('len', CH)) for a, v in facts) for lid, dom in here)


def over_chain(dom):
    return mentions(subst(dom, lambda t: NONE if t[0] == 'elem' else t), CH)


# ---------------------------------------------------------------------- C06
def min_args(t):
    if t[0] == 'call' and t[1].rpartition('.')[2] == 'min':
        a = [v for k, v in t[2]]
        if len(a) == 1 and a[0][0] in ('list', 'tuple'):
            a = [s[1] if isinstance(s, tuple) and s[0] == 'item' and len(s) == 2 else s for s in a[0][1:]]
        return a
    return [t]


def c06(ctx):
    wiring(ctx, 'restrictions-checked')
    rule = 'path-length'
    R = ctx.run(MOD + 'meets_restrictions', boundary=('update_naming_constraints', 'excluded', 'permitted'))
    A = R.A
    if R.limit:
        ctx.ob(rule, R.qual, None, 'exploration limit')
        return
    done = set()
    for x, v in accepting(R):
        facts = list(x.st.facts.items())
        loops = [(lid, dom, alts) for lid, dom, alts in foralls(A, facts) if mentions(dom, CH)]
        cands = [l for l in loops if any(mentions(a, C('max_path_length')) for d, e, _ in l[2] for a, v2 in d)]
        key = tuple(l[0] for l in cands)
        if key in done:
            continue
        done.add(key)
        if not cands:
            emptyq = x.st.know(a_truthy(CH)) is False
            op = any(mentions(a, C('max_path_length')) for a, v2 in facts)
            ctx.ob(rule, R.qual, True if emptyq else None if op and not partway(A, x) else False,
                   'a chain is accepted without looking at max_path_length', R.where(x), R.path(x))
            continue
        best = None
        for lid, dom, alts in cands:
            r = decide_budget(A, lid, dom, alts)
            if best is None or r[0] is True:
                best = r
        for ok, why, d in best[1]:
            ctx.ob(rule, R.qual, ok, why, R.where(x), [show_atom(*f)[:200] for f in d])
    ctx.ob(rule, R.qual, True if done else None, 'every accepting path goes through the statements')


def decide_budget(A, lid, dom, alts):
    out = []
    if per_chain(dom) is None:
        return None, [(False if dom[0] in ('slice', 'sym') else None, f'max_path_length is only looked at in {show(dom)}',
                       ())]
    info = A.loopinfo[lid]
    e = ('elem', lid, dom)
    N = path_of(e, 'constraints', 'max_path_length')
    vals = {k: A.alts[i] for k, i in info['vals'].items() if isinstance(k, str)}
    cur = None
    for k, a in vals.items():
        if any(v is not None and v[0] != 'dict' and mentions(v, N) and not mentions(
                v, lambda t: t[0] in ('list', 'dict', 'call') and not t[1:2] == ('min',) and t[0] != 'call')
               for d, ev, v in a if v):
            if all(v is None or v[0] in ('const', 'lin', 'lv', 'phi', 'pv', 'item', 'call') for d, ev, v in a):
                cur = k
    flags = [k for k, a in vals.items() if k != cur and all(
        v in (TRUE, ('lv', lid, k), ('pv', lid, k), ('phi', lid, k, FALSE)) for d, ev, v in a)]
    for i, (d, ev, _) in enumerate(alts):
        view = View(A, d)
        has = presence(view, e, 'constraints', 'max_path_length')
        # written out: not more statements below it than it allows
        below = mk_lin({('len', CH): 1, ('idx', lid): -1}, -2)
        if has is False and cur is None:
            out.append((True, 'no constraint', d))
            continue
        if has is not False and view.know(neg(a_lt(N, below))) is True:
            out.append((True, 'compared directly', d))
            continue
        if cur is None:
            rel = any(mentions(a, N) for a, v in d if a[0] in ('lt', 'lt?', 'truthy', 'forall'))
            out.append((None if rel else False, 'max_path_length is not compared to the number of statements below', d))
            continue
        lv = ('lv', lid, cur)
        new = vals[cur][i][2]
        news = min_args(new)
        if any(n != N and n not in (lv, ('pv', lid, cur)) and n[0] != 'const' and
               not (n[0] == 'lin' and len(n[1]) == 1 and n[1][0][0] in (lv, ('pv', lid, cur), N)) for n in news):
            out.append((None, f'the allowance becomes {show(new)[:80]}', d))
            continue
        before = None
        for f in flags:
            for t in (('lv', lid, f), ('pv', lid, f)):
                k = view.know(a_truthy(t))
                if k is not None:
                    before = k
        for t in (lv, ('pv', lid, cur), ('phi', lid, cur, NONE)):
            k = view.know(a_none(t))
            if k is not None:
                before = not k
        if view.know(a_eq(('idx', lid), C(0))) is True:
            before = False
        dec = mk_lin({lv: 1}, -1)

        def le(bound):
            """the new allowance is at most `bound`"""
            for n in news:
                if n == bound or view.know(neg(a_lt(bound, n))) is True or view.know(a_lt(n, bound)) is True:
                    return True
                la = lin_add(n, bound, -1)
                l = to_lin(la) if la is not None else None
                if l and not l[0] and l[1] <= 0:
                    return True
            return False
        why = ''
        if has is not False and not le(N):
            why = 'the allowance is not limited by the max_path_length of a statement'
        elif has is None:
            why = ''
        if not why and before is not False and not le(dec):
            why = 'a statement does not use up the allowance of those above it' if has is False else \
                'the allowance of superiors may be enlarged'
        if not why and (has is not False or before is not False):
            neg_ok = view.know(neg(a_lt(new, C(0)))) is True or len(news) > 1 and all(
                view.know(neg(a_lt(n, C(0)))) is True for n in news)
            if not neg_ok:
                why = 'a chain is accepted though there is no allowance left'
        if not why and flags:
            after = [vals[f][i][2] for f in flags]
            if has is True and TRUE not in after and before is not True:
                why = 'that there is a path length constraint is forgotten'
        out.append((not why, why, d))
    return (all(o is True for o, w, d in out)), out


# ---------------------------------------------------------------------- C07
def accumulated(A, t):
    """('list' kept along a loop) -> (lid, key, what was added in this iteration) or None"""
    t = strip_set(t)
    if t[0] == 'lv':
        return t[1], t[2], ()
    if t[0] == 'lo':
        return t[1], t[2], ()
    if t[0] == 'list' and len(t) >= 2:
        s = t[1]
        if s[0] == 'all' and s[1][0] in ('lv', 'lo'):
            return s[1][1], s[1][2], tuple(t[2:])
        if s[0] == 'prev':
            return s[1], s[2], tuple(x for x in t[2:])
        if s[0] == 'many':
            for k, i in A.loopinfo[s[1]]['vals'].items():
                if i == s[3]:
                    return s[1], k, tuple(t[2:])
    if t[0] == 'item' and t[1][0] == 'lo':
        lo = t[1]
        res = set()
        for d, ev, v in A.alts[lo[3]]:
            r = dict_value(v, t[2])
            r = accumulated(A, r) if r else None
            res.add(r[:2] if r else None)
        if len(res) == 1 and None not in res:
            # the list itself after the loop
            lid, key = next(iter(res))
            return lid, key, ()
    return None


def dict_value(v, k):
    if v is None or v[0] != 'dict':
        return None
    for l in reversed(v[2]):
        if l[0] == 'set' and l[1] == k:
            return l[2]
        if l[0] != 'set':
            return None
    return None


def collects(A, lid, key, kind, aslist):
    """Does the list get, in every iteration in which there are names, these names? -> (ok, why)"""
    info = A.loopinfo[lid]
    dom = info['iter']
    for (la, da) in [(lid, info['iter'])]:
        pass
    if key not in info['vals']:
        return None, 'unknown list'
    for d, ev, v in A.alts[info['vals'][key]]:
        dom = None
        for a, _ in d:
            for t in subterms(a):
                if t[0] == 'elem' and t[1] == lid:
                    dom = t[2]
        e = ('elem', lid, dom if dom is not None else info['iter'])
        view = View(A, d)
        X = path_of(e, 'constraints', 'naming_constraints', kind)
        p = presence(view, e, 'constraints', 'naming_constraints', kind)
        if p is False or view.know(a_truthy(X)) is False:
            if isinstance(key, str) and (not v or (accumulated(A, v) or ())[:2] != (lid, key)):
                return None if v and mentions(v, lambda t: t[0] in ('lv', 'call')) else False, \
                    f'the {kind} names are not kept for those below'
            continue
        if isinstance(key, str):  # a variable that is rebound
            r = accumulated(A, v) if v else None
            if r is None or r[:2] != (lid, key):
                return (None if v and mentions(v, lambda t: t[0] in ('lv', 'call')) else False), \
                    f'the {kind} names are not kept for those below'
            v = r[2]
        elif False:
            pass
        segs = [s for s in (v or ())]
        if any(s[0] in ('item', 'all') and strip_copy(s[1]) == X for s in segs):
            continue
        if any(s[0] == 'many' and s[2] == X for s in segs):
            continue
        return False, f'the {kind} names of a statement are not kept for those below'
    return True, ''


def strip_copy(t):
    while t[0] in ('deep', 'set') or t[0] == 'slice' and t[2:] == (NONE, NONE, NONE):
        t = t[1]
    return t


def name_checks(A, facts, sub, kind):
    """The facts that say that sub was compared to names: [(list term, as list of lists, ok-polarity)], other facts"""
    fn = 'excluded' if kind == 'excluded' else 'permitted'
    out, other, checked = [], [], False
    for a, v in facts:
        if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith('.' + fn):
            args = [y for k, y in a[1][2]]
            if args[0] == sub and v == (kind == 'permitted'):
                out.append((args[1], False))
                checked = True
        elif a[0] == 'truthy' and not v and accumulated(A, a[1]):
            out.append((a[1], None))
        elif a[0] == 'truthy' and not v and mentions(a[1], lambda t: t[0] in ('lv', 'lo')):
            other.append(a)
        elif a[0] == 'forall' and v:
            okall = True
            alts = A.alts[a[3]]
            for d, ev, _ in alts:
                F = dict(d)
                hit = False
                el = ('elem', a[1], a[2])
                for b, w in d:
                    if b[0] == 'truthy' and b[1][0] == 'call':
                        args = [y for k, y in b[1][2]]
                        if b[1][1].endswith('.' + fn) and args == [sub, el] and w == (kind == 'permitted'):
                            hit = 'lists'
                        if b[1][1].endswith('.more_specific') and args == [sub, el] and not w and kind == 'excluded':
                            hit = 'names'
                if not hit:
                    okall = False
            if okall and alts:
                out.append((a[2], hit == 'lists'))
                checked = True
            elif any(mentions(b, sub) and not (b[0] == 'truthy' and b[1][0] == 'call' and b[1][1].endswith(
                    ('.excluded', '.permitted', '.more_specific'))) and b[0] != 'in' for d, ev, _ in alts for b, w in d):
                other.append(a)
        elif mentions(a, sub) and a[0] not in ('in',) and not (
                a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith(('.excluded', '.permitted'))):
            other.append(a)
    return out, other, checked


def decide_names(ctx, R, kind):
    A = R.A
    rule = 'names-' + kind
    seen = {}
    for x, v in accepting(R):
        facts = list(x.st.facts.items())
        if x.st.know(a_truthy(CH)) is False:
            continue
        main = [(lid, dom, alts) for lid, dom, alts in foralls(A, facts) if per_chain(dom)]
        if not main:
            unk = any(over_chain(dom) for lid, dom, alts in foralls(A, facts)) and not partway(A, x)
            ctx.ob(rule, R.qual, None if unk else False, 'accepted without going through the chain',
                   R.where(x), R.path(x))
            continue
        for lid, dom, alts in main:
            if (lid, dom, len(alts)) in seen:
                continue
            res = seen[(lid, dom, len(alts))] = []
            e = ('elem', lid, dom)
            sub = ('item', e, C('sub'))
            for d, ev, _ in alts:
                view = View(A, d)
                X = path_of(e, 'constraints', 'naming_constraints', kind)
                p = presence(view, e, 'constraints', 'naming_constraints', kind)
                if view.know(a_truthy(X)) is False:
                    p = False
                checks, other, _c = name_checks(A, d, sub, kind)
                ok, why = False, f'a statement is accepted without its subject being compared to the {kind} names'
                for t, lists in checks:
                    r = accumulated(A, t)
                    if not r or r[0] != lid:
                        if lists is not None:
                            if mentions(t, lambda y: y[0] in ('lo', 'lv', 'prev', 'many') or
                                        y[0] == 'call' and y[1].endswith('update_naming_constraints')):
                                other.append(t)
                            why = f'the subject is compared to {show(t)[:80]} instead of all {kind} names in force'
                        continue
                    if p is not False and not any(
                            s[0] in ('item', 'all') and strip_copy(s[1]) == X or s[0] == 'many' and s[2] == X
                            for s in r[2]):
                        why = f'the subject of a statement is not compared to the {kind} names in the statement itself'
                        continue
                    k, w = collects(A, lid, r[1], kind, lists)
                    if k is True:
                        ok = True
                        break
                    ok, why = k, w
                if ok is not True and other:
                    ok = None
                res.append(ok)
                ctx.ob(rule, R.qual, ok, why if ok is not True else 'compared to all names in force', R.where(x),
                       [show_atom(*f)[:200] for f in d])
        # the leaf
        lid, dom, alts = main[0]
        if any(per_chain(dom) == 'all' for lid, dom, alts in main):
            continue
        leaf = ('item', ('item', CH, C(-1)), C('sub'))
        checks, other, _c = name_checks(A, [f for f in facts if not (f[0][0] == 'forall' and f[0][1] in
                                                                    [m[0] for m in main])], leaf, kind)
        ok, why = False, f'the leaf is accepted without being compared to the {kind} names'
        for t, lists in checks:
            r = accumulated(A, t)
            if not r:
                continue
            k, w = collects(A, r[0], r[1], kind, lists)
            if k is True:
                ok = True
                break
            ok, why = k, w
        if ok is not True and other:
            ok = None
        ctx.ob(rule + '-leaf', R.qual, ok, why if ok is not True else '', R.where(x), R.path(x))


def outcomes(R):
    """[(exit, value, truth, facts)]: an exit with a value of unknown truth counts as both."""
    for x, v in R.returns():
        t = x.st.know(a_truthy(v))
        facts = list(x.st.facts.items())
        if t is not None:
            yield x, v, t, facts
        elif v[0] in ('call', 'elem', 'item'):
            yield x, v, True, facts + [(a_truthy(v)[0], True)]
            yield x, v, False, facts + [(a_truthy(v)[0], False)]
        else:
            yield x, v, None, facts


def refused(A, view, facts, a_, b_):
    """Is a name (a_) rightly said not to be within another one (b_)? -> (ok, why)"""
    lists = labels(facts)
    fewer = any(view.know(a_lt(('len', l), ('len', m))) is True for l in lists for m in lists
                if mentions(l, a_) and mentions(m, b_))
    if fewer:
        return True, ''
    for a, w in facts:
        if a[0] == 'eq' and not w and all(e[0] == 'elem' and strip_rev(e[2]) in lists for e in a[1:3]):
            # a label that differs, and it is not the empty label in front of a dot
            if any(mentions(e, b_) and view.know(a_truthy(e)) is True for e in a[1:3]):
                return (True, '') if from_the_end(a) else (False, 'the labels are not compared from the end')
            return False, 'a name is not within another one because of an empty label'
    known = recognised(facts)
    return (False if known and (lists or not facts) else None), 'a name is not within another one though the labels it has are the same'


def recognised(facts):
    known = all(a[0] in ('lt', 'startswith', 'truthy', 'forall', 'completed') or a[0] == 'call' for a, w in facts)
    return known and not any(t[0] in ('lo', 'lv', 'up', 'slice') and not is_host(t) for a, w in facts for t in subterms(a))


def labels(facts):
    """The lists of labels of the names"""
    return {t for a, w in facts for t in subterms(a)
            if t[0] == 'call' and t[1].rpartition('.')[2] in ('split', 'rsplit') and t[2][-1][1] == C('.')}


def from_the_end(a):
    return all(e[0] == 'elem' and e[2][0] == 'rev' for e in a[1:3])


def strip_rev(t):
    while t[0] in ('rev', 'deep', 'list') and len(t) == 2 and isinstance(t[1], tuple):
        t = t[1]
    return t


def is_host(t):
    """url[8:]"""
    return t[0] == 'slice' and t[1][0] == 'sym' and t[2][0] == 'const'


def c07(ctx):
    wiring(ctx, 'restrictions-checked')
    R = ctx.run(MOD + 'meets_restrictions', boundary=('excluded', 'permitted', 'calculate_path_length',
                                                      'more_specific'))
    if R.limit:
        ctx.ob('names', R.qual, None, 'exploration limit')
    else:
        for kind in ('excluded', 'permitted'):
            decide_names(ctx, R, kind)
    # what it is to be within a name
    for fn, pol in (('excluded', False), ('permitted', True)):
        try:
            R = ctx.run(MOD + fn, boundary=('more_specific',))
        except AnchorMissing:
            ctx.ob('within', MOD + fn, None, 'gone')
            continue
        f = R.ctx.repo.func(MOD + fn).node.args
        ps = [a.arg for a in f.posonlyargs + f.args]
        if len(ps) < 2:
            ctx.ob('within', R.qual, None, 'other parameters')
            continue
        s, names = ('sym', ps[0]), ('sym', ps[1])
        for x, v, t, facts in outcomes(R):
            other = any(mentions(a, s) and not (a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith(
                '.more_specific') and s in [y for k, y in a[1][2]]) for a, w in facts if a[0] != 'forall')
            if t is None:
                ctx.ob('within', R.qual, None, 'result not understood')
            elif t != pol and fn == 'permitted' or fn == 'excluded' and t is True:
                ctx.ob('within', R.qual, True, 'refuses')
            elif fn == 'permitted':
                ok = any(a[0] == 'truthy' and w and a[1][0] == 'call' and a[1][1].endswith('.more_specific') and
                         [y for k, y in a[1][2]][0] == s and [y for k, y in a[1][2]][1][0] == 'elem' and
                         [y for k, y in a[1][2]][1][2] == names for a, w in facts)
                if not ok and other:
                    ok = None
                ctx.ob('within', R.qual, ok, 'permitted without being within one of the permitted names', R.where(x),
                       R.path(x))
            else:
                ok = x.st.know(a_truthy(names)) is False

                def differs(a, w):
                    # that it is not the very same name does not put it outside
                    return not w and a[0] in ('eq', 'in') and all(y == s or y == names or y[0] == 'elem' and y[2] == names
                                                                  for y in a[1:3])
                other = any(mentions(a, s) and not differs(a, w) and not (
                    a[0] == 'truthy' and a[1][0] == 'call' and a[1][1].endswith('.more_specific') and
                    s in [y for k, y in a[1][2]]) for a, w in facts if a[0] != 'forall')
                for lid, dom, alts in foralls(R.A, facts):
                    if dom == names and alts and all(
                            any(b[0] == 'truthy' and not w and b[1][0] == 'call' and b[1][1].endswith('.more_specific')
                                and [y for k, y in b[1][2]] == [s, ('elem', lid, dom)] for b, w in d)
                            for d, ev, _ in alts):
                        ok = True
                    elif dom == names and any(mentions(b, s) and not differs(b, w) and not mentions(
                            b, lambda y: y[0] == 'call' and y[1].endswith('.more_specific')) for d, ev, _ in alts for b, w in d):
                        other = True
                if not ok and other:
                    ok = None
                ctx.ob('within', R.qual, ok, 'not excluded though not compared to all the excluded names', R.where(x),
                       R.path(x))
    R = ctx.run(MOD + 'more_specific', boundary=('remove_scheme',))
    f = ctx.repo.func(MOD + 'more_specific').node.args
    ab = [('sym', a.arg) for a in f.posonlyargs + f.args][:2]
    for x, v, t, facts in outcomes(R):
        view = R.view(x)
        if len(ab) < 2:
            break
        if t is False:
            ctx.ob('more-specific', R.qual, *refused(R.A, view, facts, *ab), R.where(x), R.path(x))
            continue
        ok = None
        why = ''
        zips = [(dom, alts, lid) for lid, dom, alts in foralls(R.A, facts) if dom[0] == 'zip']
        if t is None and v[0] != 'call' and False:
            ok = None
        elif zips:
            dom, alts, lid = zips[0]
            ls = dom[1:] if isinstance(dom[1], tuple) and isinstance(dom[1][0], str) else dom[1]
            eqs = all(any(b[0] == 'eq' and w for b, w in d) for d, ev, _ in alts)
            la = [strip_set(l) for l in ls][:2]
            if not all(from_the_end(b) for d, ev, _ in alts for b, w in d if b[0] == 'eq' and b[1][0] == b[2][0] == 'elem'):
                eqs = False
            longer = len(la) == 2 and view.know(neg(a_lt(('len', la[0]), ('len', la[1])))) is True
            ok = eqs and longer
            why = 'the labels are not all equal' if not eqs else 'shorter than the name it is to be within'
        else:
            eq = any(a[0] == 'eq' and w for a, w in facts)
            ne = any(a[0] == 'eq' and not w for a, w in facts)
            empty = any(a[0] == 'truthy' and not w and a[1][0] == 'elem' and mentions(a[1], ab[1]) for a, w in facts) and \
                all(from_the_end(a) for a, w in facts if a[0] == 'eq' and all(e[0] == 'elem' for e in a[1:3]))
            lenck = any(a[0] == 'lt' and not w and any(k[0] == 'len' for k, c in a[1]) for a, w in facts)
            if ne and not eq:
                ok = empty and lenck
                why = 'within a name though a label differs'
            elif not eq and recognised(facts) and not mentions(v, lambda t: t[0] == 'call'):
                ok, why = False, 'within a name though no labels have been compared'
        ctx.ob('more-specific', R.qual, ok, why or 'not understood', R.where(x), R.path(x))
