"""Which trust chain is used when there is more than one (C25)."""
import ast

from .base import *
from .abstract import about
from .collector import uniq
from .marks import arg
from .metadata import CHAINS
from .metadata import FENT
from .metadata import FN
from .metadata import args_of
from .metadata import last
from .metadata import murky
from .metadata import tr_chain
from .metadata import worst

STAND = 'fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity'
# where a trust chain is chosen to take metadata from
SITES = (FENT + '.get_verified_metadata', FN + '.get_entity_endpoint', FN + '.trust_anchor.get_verified_endpoint',
         STAND + '._collect_metadata', 'fedservice.appserver.oidc.registration.Registration.process_request',
         'fedservice.appserver.oauth2.registration.Registration.process_request',
         'fedservice.appserver.oidc.authorization.Authorization.do_automatic_registration',
         'fedservice.appserver.oauth2.authorization.Authorization.do_automatic_registration',
         'fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization.do_automatic_registration')


def is_prio(t):
    return t[0] == 'attr' and t[2] == 'tr_priority'


def base_of(t):
    while t[0] in ('deep', 'keys') or t[0] == 'call' and last(t) in ('list', 'keys', 'iter', 'tuple'):
        t = t[1] if t[0] in ('deep', 'keys') else t[2][0][1]
    return t


def in_order(t):
    """Elements of the priority list, in that order? True / False / None"""
    if is_prio(t):
        return True
    return False if any(is_prio(y) for y in subterms(t)) and t[0] in ('rev', 'slice', 'sorted', 'set') else None


def lnum(lid):
    return int(lid[1:])


def none_matches(A, view, chains):
    """Nothing in the priority list is the trust anchor of any of the chains."""
    for lid, dom, alts in foralls(A, view.facts.items()):
        dom = norm_of(A)(dom)
        if is_prio(dom):
            p = ('elem', lid, dom)
            if all(missing(A, view.plus(d), p, chains) for d, ev, v in alts):
                return True
        if base_of(dom) == chains:
            c = ('elem', lid, dom)
            if all(any(w is False and a[0] == 'in' and a[1] == ('attr', c, 'anchor') and is_prio(a[2])
                       for a, w in view.plus(d).facts.items()) for d, ev, v in alts):
                return True
    return False


def missing(A, view, p, chains):
    for a, w in view.facts.items():
        if a[0] == 'none' and w or a[0] == 'truthy' and not w:
            y = a[1]
            if y[0] == 'elem' and base_of(norm_of(A)(y[2])) == chains or y[0] in ('item', 'get') and (
                    y[1] == chains or by_anchor(A, y[1], chains)) and y[2] == p:
                return True
        if a[0] == 'in' and w is False and a[1] == p and (a[2] == chains or by_anchor(A, a[2], chains)):
            return True
        if a[0] == 'forall' and w and base_of(norm_of(A)(a[2])) == chains:
            c = ('elem', a[1], norm_of(A)(a[2]))
            if all(view.plus(d).know(a_eq(('attr', c, 'anchor'), p)) is False for d, ev, v in A.alts[a[3]]):
                return True
    return False


def by_anchor(A, t, chains):
    """A mapping from trust anchor to one of the chains."""
    t = norm_of(A)(t)
    return t[0] == 'dict' and any(s[0] == 'many' and base_of(norm_of(A)(s[2])) == chains for s in t[2])


def unclear(view, terms):
    fog = [a for a, w in view.facts.items() if a[0] not in ('forall', 'in', 'none', 'lt', 'eq', 'completed') and any(
        mentions(a, t) for t in terms) and not (a[0] == 'truthy' and (a[1] in terms or is_prio(a[1]) or plain_attr(a[1]) or
                                                                      a[1][0] in ('list', 'and', 'bin', 'inter')))]
    return bool(fog) or any(y[0] in ('lv', 'lo') for a, w in view.facts.items() for y in subterms(a))


def plain_attr(t):
    """Something of the chain that has nothing to do with where it leads."""
    while t[0] == 'item':
        t = t[1]
    return t[0] == 'attr' and t[2] not in ('anchor', 'iss_path')


def chosen(A, view, t, chains, keyed=False):
    """Is it the one that the priority list says? True / False / None"""
    norm = norm_of(A)
    t = norm(t)
    if t[0] == 'cond':
        return None
    if t[0] == 'lo':
        # what the last round that found something has left
        return False if overwritten(A, view, t, chains) else None
    prios = [y for a, w in view.facts.items() for y in subterms(a) if is_prio(y)]
    single = view.know(a_eq(('len', chains), C(1))) is True or view.know(a_lt(('len', chains), C(2))) is True
    nothing = any(view.know(a_truthy(p)) is False or view.know(a_eq(('len', p), C(0))) is True for p in prios)
    if t[0] == 'item' and base_of(t[1]) == chains or t[0] == 'elem' and base_of(t[2]) == chains:
        if single or nothing:
            return True
    if t[0] == 'elem' and base_of(t[2]) == chains:
        r = None
        for a, w in view.facts.items():
            if a[0] == 'eq' and w and ('attr', t, 'anchor') in a[1:]:
                o = a[1] if a[2] == ('attr', t, 'anchor') else a[2]
                if o[0] == 'elem' and in_order(o[2]):
                    return lnum(o[1]) < lnum(t[1])
                if o[0] == 'elem' and in_order(o[2]) is False:
                    return False
        if view.any(lambda a, w: w and a[0] == 'in' and a[1] == ('attr', t, 'anchor') and is_prio(a[2])):
            return False
        return None if unclear(view, [t, chains]) else False
    if t[0] == 'item' and keyed and base_of(t[1]) == chains or t[0] == 'item' and by_anchor(A, t[1], chains):
        k = t[2]
        if k[0] == 'elem' and any(is_prio(y) for y in subterms(k[2])):
            there = view.know(a_in(k, t[1])) is True or view.know(a_in(k, chains)) is True
            return worst(in_order(k[2]), there or None)
        if k[0] == 'elem' and base_of(k[2]) == chains and view.any(
                lambda a, w: w and a[0] == 'in' and a[1] == k and is_prio(a[2])):
            return False
    if t[0] == 'item' and base_of(t[1]) == chains:
        if none_matches(A, view, chains):
            return True
        return None if unclear(view, [chains]) else False
    if t[0] == 'item' and t[1][0] == 'list' and t[2] in (C(0), C(-1)):
        return first_of(A, view, t, chains)
    return None


def overwritten(A, view, t, chains):
    """Does the loop go on after it has found one?"""
    norm = norm_of(A)
    for d, ev, v in A.alts[t[3]]:
        v2 = view.plus(d)
        v = norm(v) if v else NONE
        if v[0] == 'lo' and overwritten(A, v2, v, chains):
            return True
        if v[0] == 'elem' and base_of(v[2]) == chains and v2.know(a_truthy(v)) is not False and v2.know(
                a_none(v)) is not True and any(y[0] == 'elem' and is_prio(y[2]) for a, w in d for y in subterms(a)):
            return True
    return False


def first_of(A, view, t, chains):
    """The first of those that match, collected in the order of the priorities."""
    r = True
    for val, facts, lids in each(A, t[1]):
        if len(lids) == 2 and is_prio(lids[0][1]) and base_of(norm_of(A)(lids[1][1])) == chains:
            ok = view.plus(facts).know(a_eq(('attr', norm_of(A)(val[-1] if val[0] == 'item' else val), 'anchor'),
                                            ('elem',) + tuple(lids[0][:2]))) is True
            r = worst(r, (t[2] == C(0)) if ok else None)
        else:
            return None
    return r


def picks(ctx, done, qual, chains, keyed=False):
    R = ctx.run(qual)
    A = R.A
    if R.limit:
        ctx.ob('by-priority', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        n += 1
        t = norm_of(A)(v)
        c = chains
        if c is None:
            c = next((y for y in subterms(t) if y[0] == 'item' and tr_chain(y[1])), None)
        ok = chosen(A, R.view(x), t, c, keyed) if c is not None else None
        uniq(ctx, 'by-priority', done, qual, ok, 'not the trust chain with the highest priority', R.where(x), R.path(x))
    if not n:
        ctx.ob('by-priority', qual, None, 'nothing is returned')


def site(ctx, done, qual):
    """Where metadata is taken from one of several trust chains it has been picked by priority."""
    R = ctx.run(qual, boundary=CHAINS + ('get_stored_trust_chains', 'get_trust_chains', 'save_trust_chains',
                                         'store_trust_chains', 'verify_self_signed_signature', 'import_client_keys',
                                         'get_keys', 'non_fed_process_request', 'step2_process_request',
                                         'create_entity_statement', '_import_keys', 'get_authority_hints'))
    A = R.A
    norm = norm_of(A)
    found = []
    for x, v in R.returns():
        found.append((norm(v), R.view(x), R.where(x), R.path(x)))
    for e in A.log:
        if e.kind in ('call', 'setattr', 'mut', 'new') and e.name.rpartition('.')[2] not in ('debug', 'info', 'warning'):
            view = View(A, list(e.facts.items()))
            found += [(norm(v), view, e.where, None) for k, v in e.args if isinstance(v, tuple)]
    n = 0
    for v, view, w, path in found:
        for y in subterms(v):
            if y[0] == 'attr' and y[2] in ('metadata', 'anchor'):
                c = norm(y[1])
                if last(c) == 'pick_trust_chain':
                    ok = True
                elif c[0] == 'item' and c[2][0] == 'const' and c[2][1] == 'int' or c[0] == 'elem':
                    b = c[1] if c[0] == 'item' else c[2]
                    if not from_chains(A, b):
                        continue
                    ok = chosen(A, view, c, base_of(b))
                    if ok is None and c[0] == 'item' and not any(is_prio(z) for a, _ in view.facts.items() for z in subterms(a)):
                        ok = None if b[0] in ('sorted', 'call') and last(b) not in (
                            'get_verified_trust_chains', 'apply_policies', 'verify_trust_chains') else False
                elif c[0] == 'call' and last(c) in ('min', 'max', 'next') and from_chains(A, c):
                    ok = unrelated_order(A, c)
                else:
                    continue
                n += 1
                uniq(ctx, 'picked', done, qual, ok, 'the trust chain used is not the one with the highest priority', w, path)
    if not n:
        ctx.ob('picked', qual, None, 'no metadata from trust chains')


def unrelated_order(A, c):
    """Is one of them chosen by something that has nothing to do with the priorities? False / None (not known)"""
    key = arg(c[2], 9, 'key')
    if key is None or key[0] != 'closure' or any(is_prio(z) for z in subterms(c)):
        return None
    body = A.closures[key[1]][0]
    calls = [z for z in ast.walk(body) if isinstance(z, ast.Call)]
    return False if 'prio' not in ast.dump(body) and 'anchor' not in ast.dump(body) and all(
        isinstance(z.func, ast.Name) and z.func.id in ('len', 'str', 'int') for z in calls) else None


def from_chains(A, t):
    return any(last(y) in ('get_verified_trust_chains', 'verify_trust_chains', 'apply_policies', 'get_trust_chains',
                           'get_stored_trust_chains') or tr_chain(y) for y in subterms(t))


def shortest(ctx, done):
    """Of those that lead to the same trust anchor none that is kept is longer than one that is dropped."""
    qual = 'fedservice.entity_statement.statement.chains2dict'
    R = ctx.run(qual)
    A, norm = R.A, norm_of(R.A)
    tcs = ('sym', 'trust_chains')
    if R.limit:
        ctx.ob('shortest', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        for seg in (norm(v)[2] if norm(v)[0] == 'dict' else ()):
            if seg[0] != 'many':
                continue
            lid, dom, alts = seg[1], norm(seg[2]), A.alts[seg[3]]
            tc = ('elem', lid, dom)
            if base_of(dom) != tcs and not (dom[0] in ('sorted', 'rev') and base_of(dom[1]) == tcs):
                continue
            for d, ev, segs in alts:
                view = View(A, list(d))
                n += 1
                ok = keeps_shortest(view, tc, segs or (), norm)
                if ok is False and base_of(dom) != tcs:
                    ok = None  # up to the order they come in
                uniq(ctx, 'shortest', done, qual, ok, 'a trust chain is kept that is longer than one that is dropped',
                     R.where(x), R.path(x))
    if not n:
        ctx.ob('shortest', qual, None, 'no table of trust chains is filled in a loop')


def keeps_shortest(view, tc, segs, norm):
    key, mine = ('attr', tc, 'anchor'), ('len', ('attr', tc, 'verified_chain'))
    others = {y for a, w in view.facts.items() for y in subterms(a) if y[0] == 'len' and y != mine and
              y[1][0] == 'attr' and y[1][2] == 'verified_chain' and y[1][1][0] in ('item', 'get')}
    absent = [w for a, w in view.facts.items() if a[0] == 'in' and a[1] == key] + [
        not w for a, w in view.facts.items() if a[0] in ('none',) and a[1][0] in ('item', 'get') and a[1][2] == key] + [
        w for a, w in view.facts.items() if a[0] == 'truthy' and a[1][0] in ('item', 'get') and a[1][2] == key]
    fog = [a for a, w in view.facts.items() if mentions(a, tc) and a[0] not in ('in', 'lt', 'truthy', 'none', 'eq')] + [
        a for a, w in view.facts.items() if a[0] == 'lt' and mentions(a, tc) and not any(mentions(a, o) for o in others)]
    sets = [(norm(s[1]), norm(s[2])) for s in segs if s[0] == 'set']
    if len(sets) != len(segs):
        return None
    if not sets:
        if True not in absent:
            return None if fog else False
        return True if any(view.know(a_lt(mine, o)) is False for o in others) else None if fog else False
    for k, val in sets:
        if val != tc:
            return None
        if k != key:
            return None if view.know(a_eq(k, key)) is not None or about(k) and not mentions(k, tc) else False
        if False in absent:
            continue
        if not any(view.know(a_lt(o, mine)) is False for o in others):
            return None if fog else False
    return True


def saved(ctx, done):
    """Storing trust chains does not throw away those that lead to other trust anchors."""
    qual = 'fedservice.save_trust_chains'
    R = ctx.run(qual, boundary=('chains2dict',))
    A, norm = R.A, norm_of(R.A)
    n = 0
    for e in A.log:
        if e.kind != 'mut' or e.name not in ('[]=', 'update', 'setdefault'):
            continue
        a = dict(e.args)
        view = View(A, list(e.facts.items()))
        val = norm(a.get('value', a.get('0', NONE)))
        if e.name == '[]=' and val[0] == 'dict' and norm(a['key'])[0] == 'item':
            n += 1
            k = norm(a['key'])
            old = [w for q, w in view.facts.items() if q[0] == 'in' and q[1] == k]
            ok = True if False in old or val[1] is not None else None if view.opaque([k]) or any(
                s[0] != 'set' for s in val[2]) else False
            uniq(ctx, 'saved', done, qual, ok, 'trust chains that lead to other trust anchors are thrown away', e.where)
        for s in val[2] if val[0] == 'dict' else ():
            if s[0] == 'set':
                k, c = norm(s[1]), norm(s[2])
                if c[0] == 'item' and last(c[1]) == 'chains2dict':
                    n += 1
                    uniq(ctx, 'saved', done, qual, k == c[2] or k == ('attr', c, 'anchor') or (None if view.opaque([c]) else False),
                         'stored under another trust anchor', e.where)
    if not n:
        ctx.ob('saved', qual, None, 'nothing recognised that stores trust chains')


def configured(ctx, done):
    """The priorities are the configured ones."""
    qual = 'fedservice.entity.context.FederationContext.__init__'
    R = ctx.run(qual)
    A, norm = R.A, norm_of(R.A)
    pr, cfg = ('sym', 'priority'), ('sym', 'config')
    n = 0
    for e in A.log:
        if e.kind == 'setattr' and e.name == 'tr_priority':
            n += 1
            v = norm(dict(e.args)['value'])
            view = View(A, list(e.facts.items()))
            given = ('item', cfg, C('priority'))
            if v in (pr, NONE, given) or base_of(v) == pr:
                ok = True
            elif v[0] in ('sorted', 'set', 'rev', 'slice') and any(y == pr or y == ('item', cfg, C('priority')) for y in subterms(v)):
                ok = False
            elif view.know(a_truthy(pr)) is not False and view.know(a_none(pr)) is not True:
                ok = None if view.opaque([pr]) or mentions(v, pr) else False
            elif any(y[0] in ('item', 'get') and C('priority') in y for y in subterms(v)):
                ok = True
            elif view.know(a_truthy(given)) is False or view.know(a_none(given)) is True:
                ok = True
            elif view.know(a_in(C('priority'), cfg)) is not False:
                ok = None if mentions(v, cfg) and not mentions(v, ('attr', ('SELF',), 'trusted_roots')) or view.opaque(
                    [cfg]) or view.know(a_none(cfg)) is True else False
            else:
                ok = True
            uniq(ctx, 'configured', done, qual, ok, 'the configured priorities are not used', e.where)
    if not n:
        ctx.ob('configured', qual, None, 'the priorities are never set')


def c25(ctx):
    done = set()
    ctx.part(picks, done, FENT + '.pick_trust_chain', ('sym', 'trust_chains'))
    ctx.part(picks, done, FENT + '.pick_from_stored_trust_chains', None, True)
    ctx.part(picks, done, STAND + '.pick_from_stored_trust_chains', None, True)
    for q in SITES:
        ctx.part(site, done, q)
    ctx.part(shortest, done)
    ctx.part(saved, done)
    ctx.part(configured, done)
