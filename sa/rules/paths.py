"""The candidate trust chains are the paths through the collected superiors (C35)."""
from .base import *
from .abstract import about
from .collector import uniq
from .marks import arg
from .metadata import FN
from .metadata import args_of
from .metadata import last
from .metadata import same
from .metadata import worst

UNIT = ('sym', 'unit')
COLL = FN + '.trust_chain_collector.TrustChainCollector'
VCALL = 'TrustChainVerifier.__call__'


def strip(t):
    """Copies do not matter, choosing some of the elements does."""
    while t[0] == 'deep' or t[0] == 'list' and len(t) == 2 and t[1][0] == 'all' or t[0] == 'call' and last(t) in (
            'list', 'copy', 'deepcopy', 'tuple'):
        t = t[1] if t[0] == 'deep' else t[1][1] if t[0] == 'list' else t[2][0][1]
    return t


def rounds(A, v):
    """How a list is built in a loop: [(lid, dom, facts, segments, are earlier results kept)]"""
    norm = norm_of(A)
    if v[0] == 'list':
        for s in v[1:]:
            if s[0] == 'many':
                for d, ev, segs in A.alts[s[3]]:
                    yield s[1], s[2], d, tuple(segs or ()), True
    if v[0] == 'lo':
        prev = ('lv',) + tuple(v[1:3])
        dom = None
        for d, ev, val in A.alts[v[3]]:
            val = val if val is not None else NONE
            if val[0] == 'list':
                kept = any(s == ('all', prev) for s in val[1:])
                yield v[1], None, d, tuple(s for s in val[1:] if s != ('all', prev)), kept or _empty(A, d, prev)
            elif val[0] == 'lin' and (prev, 1) in val[1]:  # + of lists
                yield v[1], None, d, tuple(('all', t) for t, k in val[1] if t != prev), True
            elif val == prev:
                yield v[1], None, d, (), True
            else:
                yield v[1], None, d, (('all', val),), _empty(A, d, prev)


def left_early(A, view, dom):
    """The loop over it has been left before everything was gone through."""
    norm = norm_of(A)
    if any(strip(norm(d)) == dom for l, d, alts in foralls(A, view.facts.items())):
        return False
    return any(y[0] == 'elem' and strip(norm(y[2])) == dom for a, w in view.facts.items() if a[0] != 'forall' for y in subterms(a))


def _empty(A, d, prev):
    v = View(A, list(d))
    return v.know(a_truthy(prev)) is False or v.know(a_eq(('len', prev), C(0))) is True or v.know(a_none(prev)) is True


def tree_chains(ctx, done):
    qual = FN + '.tree2chains'
    R = ctx.run(qual, boundary=('tree2chains',))
    A, norm = R.A, norm_of(R.A)
    if R.limit:
        ctx.ob('every-path', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        if v[0] in ('deep', 'set') and v[1][0] in ('list', 'lo'):
            v = v[1]
        view = R.view(x)
        if left_early(A, view, UNIT):
            uniq(ctx, 'none-lost', done, qual, False, 'not all superiors are gone through', R.where(x), R.path(x))
            continue
        for lid, dom, d, segs, kept in rounds(A, v):
            n += 1
            v2 = view.plus(d)
            w, path = R.where(x), R.path(x)
            uniq(ctx, 'none-lost', done, qual, True if kept else None if v2.opaque([('lv', lid)]) else False,
                 'the chains found so far are thrown away', w, path)
            b = branch_of(A, d, segs, lid, dom)
            if dom is not None and strip(norm(dom)) != UNIT and not (norm(dom)[0] == 'call' and last(norm(dom)) in (
                    'items', 'values')):
                part = norm(dom)[0] in ('slice', 'item')
                uniq(ctx, 'every-path', done, qual, False if part else None, 'not all superiors are gone through', w, path)
                continue
            ok, why = round_ok(A, v2, d, segs, b, R)
            uniq(ctx, 'every-path', done, qual, ok, why, w, path)
    if not n:
        ctx.ob('every-path', qual, None, 'no loop that builds the list')
    # order: the statement comes last
    for e in A.log:
        if e.kind == 'mut' and e.name in ('insert', 'append', 'extend', 'appendleft') and e.args:
            t = dict(e.args)['target']
            if t[0] == 'elem' and last(norm(t[2])) == 'tree2chains':
                pos = e.name == 'append' or e.name == 'extend' or e.name == 'insert' and None
                if e.name == 'insert':
                    pos = False if dict(e.args).get('0') == C(0) else None
                uniq(ctx, 'order', done, qual, pos, 'the statement is not placed last', e.where)


def branch_of(A, d, segs, lid, dom):
    """What stands for the branch in this round."""
    norm = norm_of(A)
    for t in [y for a, w in d for y in subterms(a)] + [y for s in segs for p in s[1:] if isinstance(p, tuple) for y in subterms(p)]:
        t = norm(t)
        if t[0] == 'item' and t[1] == UNIT and t[2][0] == 'elem' and t[2][1] == lid:
            return t
        if t[0] == 'elem' and t[1] == lid and last(t[2]) == 'values':
            return t
    return ('item', UNIT, ('elem', lid, UNIT))


def round_ok(A, view, d, segs, b, R):
    norm = norm_of(A)
    stmt, sub = ('item', b, C(0)), ('item', b, C(1))
    rec = [y for s in segs for p in s[1:] if isinstance(p, tuple) for y in subterms(p) if last(y) == 'tree2chains']
    segs = tuple(expand(A, segs))
    none = view.know(a_none(b)) is True or view.know(a_truthy(b)) is False
    if none:
        if not segs:
            return (None if view.opaque([b]) else False), 'a path is lost'
        return (segs == (('item', ('list',)),)) or None, 'what has no superiors is not a path'
    if view.know(a_truthy(sub)) is False or view.know(a_eq(('len', sub), C(0))) is True or view.know(a_none(sub)) is True:
        if not segs:
            return (None if view.opaque([b]) else False), 'a path is lost'
        if len(segs) == 1 and segs[0][0] == 'item':
            v = norm(segs[0][1])
            if v == ('list', ('item', stmt)):
                return True, ''
            if v == ('list',):
                return False, 'a statement is lost'
        return None, 'not understood'
    if not segs:
        return (None if view.opaque([b]) or view.know(a_truthy(sub)) is None else False), 'the paths above are lost'
    if not rec:
        return None, 'not understood'
    for s in segs:
        if s[0] == 'all':
            r = norm(s[1])
            if r[0] == 'slice' or r[0] == 'item':
                return False, 'paths are lost'
            if last(strip(r)) != 'tree2chains':
                return None, 'not understood'
            call = strip(r)
            added = [e for e in A.log if e.kind == 'mut' and e.name in ('append', 'insert', 'extend') and norm(
                dict(e.args)['target'])[0] == 'elem' and strip(norm(dict(e.args)['target'])[2]) == call]
            part = [e for e in A.log if e.kind == 'mut' and any(
                y[0] == 'slice' and strip(norm(y[1])) == call for y in subterms(dict(e.args)['target']))]
            if not added:
                return (False if part or not any(mentions(dict(e.args)['target'], call) for e in A.log if e.kind == 'mut')
                        else None), 'the statement is not added to the paths above'
            for e in added:
                a = [y for k, y in e.args if k != 'target']
                if norm(a[-1]) not in (stmt, ('list', ('item', stmt))):
                    return (None if about(norm(a[-1])) and not mentions(norm(a[-1]), b) else False), 'another statement is added'
                if not {q for q, w in e.facts.items()} <= {q for q, w in view.raw} | {
                        q for q, w in e.facts.items() if not mentions(q, norm(dict(e.args)['target']))}:
                    return None, 'added under a condition'
            if len(added) > 1 and len({(e.where, e.name) for e in added}) > 1:
                return None, 'added in several ways'
            return same_sub(norm(dict(call[2])['unit']), sub), 'the paths of another branch are used'
        if s[0] == 'many':
            dom = norm(s[2])
            if dom[0] in ('slice', 'item'):
                return False, 'paths are lost'
            if last(strip(dom)) != 'tree2chains':
                return None, 'not understood'
            el = ('elem', s[1], dom)
            alts = A.alts[s[3]]
            for d2, ev, vv in alts:
                vv = vv or ()
                if not vv:
                    return (None if View(A, list(d2)).opaque([el]) else False), 'paths are lost'
                if len(vv) != 1 or vv[0][0] != 'item':
                    return None, 'not understood'
                c = norm(vv[0][1])
                if c == ('list', ('all', el), ('item', stmt)):
                    continue
                if c == ('list', ('item', stmt), ('all', el)):
                    return False, 'the statement is not placed last'
                if strip(c) == el:
                    return (None if any(e.kind == 'mut' for e in A.log) else False), 'the statement is not added'
                return None, 'not understood'
            return same_sub(norm(dict(strip(dom)[2])['unit']), sub), 'the paths of another branch are used'
    return None, 'not understood'


def same_sub(t, sub):
    return True if strip(t) == sub else None if about(t) else False


def expand(A, segs):
    """('all', [..many..]) -> its segments"""
    norm = norm_of(A)
    for s in segs:
        if s[0] == 'all':
            t = norm(s[1])
            if t[0] == 'list':
                yield from expand(A, t[1:])
                continue
        yield s


def kept_chains(ctx, done):
    """Only what has been verified is kept, and all of that."""
    qual = FN + '.verify_trust_chains'
    R = ctx.run(qual, boundary=(VCALL, 'verify_trust_chain'))
    A, norm = R.A, norm_of(R.A)
    CH, ES = ('sym', 'chains'), ('sym', 'entity_statements')
    if R.limit:
        ctx.ob('verified-kept', qual, None, 'exploration limit')
        return
    n = 0

    def is_call(t):
        return t[0] == 'call' and (t[1].endswith(VCALL) or last(t) == 'verify_trust_chain')

    for x, v in R.returns():
        view = R.view(x)
        w, path = R.where(x), R.path(x)
        if left_early(A, view, CH):
            uniq(ctx, 'verified-kept', done, qual, False, 'not all chains are verified', w, path)
            continue
        if v[0] == 'slice' or v[0] == 'list' and any(s[0] == 'item' for s in v[1:]):
            uniq(ctx, 'verified-kept', done, qual, None, 'not all are kept', w, path)
            continue
        if v in (('list',), NONE):
            ok = view.know(a_truthy(CH)) is False or view.know(a_eq(('len', CH), C(0))) is True
            uniq(ctx, 'verified-kept', done, qual, ok or None, 'trust chains are lost', w, path)
            continue
        for lid, dom, d, segs, kept in rounds(A, v):
            n += 1
            v2 = view.plus(d)
            if not kept:
                uniq(ctx, 'verified-kept', done, qual, None if v2.opaque([('lv', lid)]) else False,
                     'those verified so far are thrown away', w, path)
            dm = norm(dom) if dom is not None else CH
            if strip(dm) != CH:
                part = dm[0] in ('slice', 'item') and mentions(dm, CH)
                uniq(ctx, 'verified-kept', done, qual, False if part else None, 'not all chains are verified', w, path)
                continue
            c = ('elem', lid, dm)
            calls = [y for a, _ in v2.facts.items() for y in subterms(a) if is_call(y)] + [
                norm(y) for s in segs for p in s[1:] if isinstance(p, tuple) for y in subterms(p) if is_call(y)]
            if not calls:
                ok = None if v2.opaque([c]) else False
                uniq(ctx, 'verified-kept', done, qual, ok, 'a chain is kept or dropped without being verified', w, path)
                continue
            call = calls[0]
            chain = norm(arg(args_of(call), 0, 'chain'))
            ln = ('len', ES)
            es = v2.know(a_truthy(ES))
            if v2.know(a_eq(ln, C(0))) is True or v2.know(a_lt(ln, C(1))) is True:
                es = False
            fog = [a for a, _ in v2.facts.items() if mentions(a, ES) and a[0] not in ('lt', 'eq') and not is_call(a[1]) and a[1] != ES]
            if chain[0] == 'list':
                want = (('all', c), ('all', ES))
                ok = True if chain[1:] == want else False if set(chain[1:]) == set(want) else None
            else:
                if strip(chain) == c:
                    ok = es is False or (None if fog else False)
                else:
                    ok = False if mentions(chain, CH) and not mentions(chain, c) else None
            uniq(ctx, 'chain-verified', done, qual, ok, 'what is verified is not the chain followed by the statements given', w,
                 path)
            t = v2.know(a_truthy(call))
            if t is None and v2.know(a_none(call)) is not None:
                t = not v2.know(a_none(call))
            if segs:
                ok = len(segs) == 1 and segs[0][0] == 'item' and is_call(norm(segs[0][1])) and (t is True or None)
                if t is False:
                    ok = False
                if t is None and len(segs) == 1 and segs[0][0] == 'item' and is_call(norm(segs[0][1])):
                    ok = None if v2.opaque([call]) else False
                uniq(ctx, 'verified-kept', done, qual, ok or (ok if ok is False else None),
                     'a chain is kept that could not be verified', w, path)
            else:
                ok = t is False or (None if v2.opaque([call, c]) else False)
                uniq(ctx, 'verified-kept', done, qual, ok, 'a verified trust chain is lost', w, path)
    if not n:
        ctx.ob('verified-kept', qual, None, 'no loop over the chains')


def collected(ctx, done):
    qual = FN + '.collect_trust_chains'
    R = ctx.run(qual, boundary=('tree2chains', 'collect_tree', 'TrustChainCollector.__call__', 'verify_self_signed_signature'))
    A, norm = R.A, norm_of(R.A)
    EID = ('sym', 'entity_id')
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        if v[0] != 'tuple' or len(v) != 3:
            ctx.ob('all-paths', qual, None, 'not understood')
            continue
        t = v[1]
        trees = [y for a, w in view.facts.items() for y in [a[1]] if isinstance(y, tuple) and y and isinstance(
            y[0], str) and (last(y) in ('collect_tree', '__call__') or y[0] == 'item' and last(y[1]) == '__call__')]
        n += 1
        w, path = R.where(x), R.path(x)
        if t == ('list',):
            ok = any(view.know(a_truthy(y)) is False or view.know(a_none(y)) is True for y in trees) or view.any(
                lambda a, w: a[0] == 'eq' and w and any(y in a for y in trees))
            uniq(ctx, 'all-paths', done, qual, ok or None, 'the paths are lost', w, path)
            continue
        if t[0] in ('slice', 'item') and mentions(t, lambda y: last(y) == 'tree2chains'):
            uniq(ctx, 'all-paths', done, qual, False, 'paths are lost', w, path)
            continue
        t = strip(t)
        if last(t) != 'tree2chains':
            uniq(ctx, 'all-paths', done, qual, None, 'not understood', w, path)
            continue
        tree = norm(arg(args_of(t), 0, 'unit'))
        call = tree[1] if tree[0] == 'item' and tree[2] == C(0) else tree
        if last(call) in ('collect_tree', '__call__'):
            ok = same(view, arg(args_of(call), 0, 'entity_id'), EID)
        else:
            ok = None
        uniq(ctx, 'all-paths', done, qual, ok, 'the superiors of another entity are used', w, path)
    if not n:
        ctx.ob('all-paths', qual, None, 'nothing is returned')


def superiors(ctx, done):
    """Every authority hint gives a branch."""
    qual = COLL + '.collect_tree'
    R = ctx.run(qual, boundary=('collect_branch',))
    A, norm = R.A, norm_of(R.A)
    EID, EC, SEEN = ('sym', 'entity_id'), ('sym', 'entity_configuration'), ('sym', 'seen')
    hints, stop = ('item', EC, C('authority_hints')), ('sym', 'stop_at')
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        w, path = R.where(x), R.path(x)
        if left_early(A, view, hints):
            uniq(ctx, 'every-superior', done, qual, False, 'not all superiors are collected', w, path)
            continue
        if v in (NONE, ('dict', None, ())):
            ok = view.know(a_in(C('authority_hints'), EC)) is False or view.know(a_eq(('item', EC, C('iss')), stop)) is True \
                or view.know(a_truthy(hints)) is False or view.know(a_eq(EID, stop)) is True
            uniq(ctx, 'every-superior', done, qual, ok or (None if view.opaque([EC, EID]) or view.know(a_in(C('iss'), EC)) is False else False),
                 'the superiors are not collected', w, path)
            continue
        for seg in v[2] if v[0] == 'dict' else ():
            if seg[0] != 'many':
                continue
            dom = norm(seg[2])
            n += 1
            if strip(dom) != hints and not (dom[0] in ('get',) and mentions(dom, EC)):
                part = dom[0] in ('slice', 'item') and mentions(dom[1], hints)
                uniq(ctx, 'every-superior', done, qual, False if part else None, 'not all superiors are collected', w, path)
                continue
            el = ('elem', seg[1], dom)
            for d, ev, segs in A.alts[seg[3]]:
                v2 = view.plus(d)
                if not segs:
                    ok = view_in(v2, el, SEEN)
                    uniq(ctx, 'every-superior', done, qual, ok or (None if v2.opaque([el]) else False),
                         'a superior is left out', w, path)
                for s in segs or ():
                    val = norm(s[2]) if s[0] == 'set' else NONE
                    ok = None
                    if s[0] == 'set' and last(val) == 'collect_branch':
                        a = args_of(val)
                        ok = worst(norm(s[1]) == el or (None if about(norm(s[1])) and norm(s[1])[0] != 'sym' else False),
                                   same(v2, norm(arg(a, 0, 'entity') or NONE), EID),
                                   same(v2, norm(arg(a, 1, 'authority') or NONE), el))
                    uniq(ctx, 'every-superior', done, qual, ok, 'not the branch of this superior', w, path)
        # the loop has been left early
        if v[0] == 'dict' and v[2] and not foralls(A, x.st.facts.items()):
            full = [s for s in v[2] if s[0] == 'many']
            ok = None
            if any(s[0] == 'set' for s in v[2]):
                ok = None if view.opaque([EID]) else False
            elif full:
                ok = True
            uniq(ctx, 'every-superior', done, qual, ok, 'not all superiors are collected', w, path)
    if not n:
        ctx.ob('every-superior', qual, None, 'no loop over the superiors')


def view_in(view, el, seen):
    return any(a[0] == 'in' and w and a[1] == el and mentions(a[2], seen) for a, w in view.facts.items())


def branches(ctx, done):
    """A branch is what the superior says about the entity and, above it, what is said about the superior."""
    qual = COLL + '.collect_branch'
    R = ctx.run(qual, boundary=('collect_tree', '_get_entity_statement', 'get_federation_fetch_endpoint',
                                'get_entity_configuration', 'verify_self_signed_signature'))
    A, norm = R.A, norm_of(R.A)
    ENT, AUTH, SEEN = ('sym', 'entity'), ('sym', 'authority'), ('sym', 'seen')
    if R.limit:
        ctx.ob('branch', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        view = R.view(x)
        v = norm(v)
        w, path = R.where(x), R.path(x)
        if v == NONE:
            continue
        if v[0] not in ('tuple', 'list') or len(v) != 3:
            uniq(ctx, 'branch', done, qual, None, 'not understood', w, path)
            continue
        n += 1
        st, up = v[1], v[2]
        if v[0] == 'list':
            st, up = v[1][1], v[2][1]
        ok = None
        if last(st) == '_get_entity_statement':
            a = args_of(st)
            ok = worst(same(view, arg(a, 0, 'entity'), ENT), same(view, arg(a, 1, 'authority'), AUTH))
        uniq(ctx, 'branch', done, qual, ok, 'not the statement of the superior about the entity', w, path)
        ok = None
        if last(up) == 'collect_tree':
            a = args_of(up)
            ok = same(view, arg(a, 0, 'entity_id'), AUTH)
            ec = norm(arg(a, 1, 'entity_configuration') or NONE)
            s = norm(arg(a, 2, 'seen') or NONE)
            if s == NONE or s == ('list',):
                ok = worst(ok, None)
            elif s[0] == 'list':
                ok = worst(ok, ('item', AUTH) in s[1:] and (('all', SEEN) in s[1:] or view.know(a_none(SEEN)) is True or view.know(
                    a_truthy(SEEN)) is False) or None)
        elif up in (NONE, ('dict', None, ())):
            ok = None if view.opaque([AUTH, ENT]) else False
        uniq(ctx, 'branch', done, qual, ok, 'not what is above the superior', w, path)
    if not n:
        ctx.ob('branch', qual, None, 'no branch is returned')
    # what has been seen on one path says nothing about the others
    hit = False
    for e in A.log:
        if e.kind == 'mut' and norm(dict(e.args)['target']) == SEEN:
            hit = True
            uniq(ctx, 'apart', done, qual, False, 'the list of seen superiors is shared by the branches', e.where)
    if not hit:
        ctx.ob('apart', qual, True)
    qual = COLL + '.collect_tree'
    R = ctx.run(qual, boundary=('collect_branch',))
    hit = False
    for e in R.A.log:
        if e.kind == 'mut' and e.loops and norm_of(R.A)(dict(e.args)['target']) in (SEEN, ('lv', e.loops[-1][0], SEEN)):
            hit = True
            uniq(ctx, 'apart', done, qual, False, 'the list of seen superiors is shared by the branches', e.where)
    if not hit:
        ctx.ob('apart', qual, True)
    # the statement is by the superior and about the entity
    qual = COLL + '._get_entity_statement'
    R = ctx.run(qual, boundary=('get_federation_fetch_endpoint', 'get_entity_statement', 'unverified_entity_statement'))
    norm = norm_of(R.A)
    n = 0
    for e in R.A.log:
        if e.kind == 'call' and e.name.rpartition('.')[2] in ('get_entity_statement', 'get_federation_fetch_endpoint'):
            n += 1
            a = [y for y in e.args if y[0] != 'self']
            view = View(R.A, list(e.facts.items()))
            if e.name.endswith('get_entity_statement'):
                ok = worst(same(view, norm(arg(a, 1, 'issuer')), AUTH), same(view, norm(arg(a, 2, 'subject')), ENT))
            else:
                ok = same(view, norm(arg(a, 0, 'intermediate')), AUTH)
            uniq(ctx, 'asked', done, qual, ok, 'the statement is not asked for from the superior, about the entity', e.where)
    if not n:
        ctx.ob('asked', qual, None, 'no statement is asked for')


def c35(ctx):
    done = set()
    for f in (tree_chains, kept_chains, collected, superiors, branches):
        ctx.part(f, done)
