"""What the federation endpoints answer (C27 - C30, C32)."""
import ast

from .base import *
from .abstract import about
from .collector import fpath
from .collector import uniq
from .marks import arg
from .metadata import CHAINS
from .metadata import args_of
from .metadata import chain_of
from .metadata import chains_of
from .metadata import from_metadata
from .metadata import last
from .metadata import metadata_of
from .metadata import same
from .metadata import worst
from .registration import calls
from .registration import is_who
from .registration import params

SRV = 'fedservice.entity.server'
RESOLVE = SRV + '.resolve.Resolve'
FETCH = SRV + '.fetch.Fetch'
LIST = SRV + '.list.List'
CONFIGURATION = SRV + '.entity_configuration.EntityConfiguration'
CREATE = 'fedservice.entity_statement.create.create_entity_statement'
REQ = ('sym', 'request')


def of_request(t, key):
    return t[0] in ('item', 'get') and t[1] == REQ and t[2] == C(key)


def q(key):
    return ('item', REQ, C(key))


def mine(view, t):
    """Is it my own entity identifier? True / False / None"""
    if t is None:
        return None
    if t == ('up', 'attribute', 'entity_id'):
        return True
    if t[0] == 'attr' and t[2] == 'entity_id':
        return True if t[1][0] in ('up', 'self', 'attr', 'FE', 'item') and not mentions(t[1], REQ) else None
    if t[0] == 'call' and last(t) in ('get_attribute', 'upstream_get') and any(v == C('entity_id') for k, v in t[2]):
        return True
    if t[0] == 'const' or mentions(t, REQ) and t[0] in ('item', 'get', 'sym'):
        return False
    if t[0] == 'attr' and t[2] in ('anchor', 'trust_chain_anchor'):
        return False
    return None


def metadata_of_type(A, view, md):
    """(where the metadata comes from, the entity type it is restricted to or None)"""
    md = norm_of(A)(md)
    if md[0] == 'dict' and md[1] in (None, ()) and len(md[2]) == 1 and md[2][0][0] == 'set':
        _, k, v = md[2][0]
        v = norm_of(A)(v)
        if v[0] in ('item', 'get') and v[2] == k:
            return v[1], k
        return v, ('?', k)
    return md, None


def resolve(ctx, done):
    qual = RESOLVE + '.process_request'
    R = ctx.run(qual, boundary=CHAINS + ('get_chain', 'create_entity_statement'))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('resolve', qual, None, 'exploration limit')
        return
    n = 0
    for e in calls(R, 'create_entity_statement'):
        n += 1
        view = View(A, list(e.facts.items()))
        a = [(k, norm(v)) for k, v in e.args if k != 'self' and isinstance(v, tuple)]
        path = fpath(e.facts.items())
        uniq(ctx, 'own-name', done, qual, mine(view, arg(a, 0, 'iss')),
             'a resolve response that is not issued in the name of the resolver', e.where, path)
        sub = arg(a, 1, 'sub')
        uniq(ctx, 'asked-for-entity', done, qual, None if sub is None else True if of_request(sub, 'sub') else is_who(
            view, sub, q('sub')) or (None if about(sub) and not end_of_path(sub) else False),
             'a resolve response about another entity than the one in the request', e.where, path)
        md = arg(a, 3, 'metadata')
        if md is None:
            uniq(ctx, 'verified-metadata', done, qual, None, 'the metadata in the response is not known', e.where, path)
            continue
        src, typ = metadata_of_type(A, view, md)
        uniq(ctx, 'verified-metadata', done, qual, metadata_of(A, view, src, q('sub')),
             'metadata that does not come from a verified trust chain of the entity with the policies applied', e.where, path)
        uniq(ctx, 'asked-for-anchor', done, qual, leads_to(A, view, src, q('anchor')),
             'metadata from a trust chain that leads to another trust anchor than the one in the request', e.where, path)
        uniq(ctx, 'trust-chain', done, qual, chain_in(A, view, arg(a, 99, 'trust_chain'), src),
             'the trust chain in the response is not the one the metadata comes from', e.where, path)
        asked = view.know(a_truthy(q('type')))
        if asked is None:
            asked = view.know(a_in(C('type'), REQ))
        if typ is None:
            ok = True if asked is False else (False if src[0] == 'attr' else None)
        elif typ[0] == '?':
            ok = None
        else:
            ok = True if of_request(typ, 'type') and asked is not False else None if about(typ) else False
        uniq(ctx, 'asked-for-type', done, qual, ok, 'the response is not restricted to the entity type in the request',
             e.where, path)
    if not n:
        ctx.ob('own-name', qual, None, 'no response is created')
    for x, v in R.returns():
        v = norm(v)
        if v == NONE or v[0] == 'const':
            continue
        signed = any(last(y) == 'create_entity_statement' for y in subterms(v))
        raw = any(y[0] == 'attr' and y[2] == 'metadata' for y in subterms(v))
        uniq(ctx, 'own-name', done, qual, signed or (False if raw else None), 'the response is not signed', R.where(x),
             R.path(x))


COLL = 'fedservice.entity.function.trust_chain_collector.TrustChainCollector'


def chain_in(A, view, t, md):
    """Is the trust chain in the response that of the trust chain the metadata is from?"""
    if t is None:
        return False
    if last(t) != 'get_chain':
        return None if about(t) and not (t[0] == 'attr' and t[2] in ('verified_chain', 'iss_path')) else False
    a = args_of(t)
    path, ta = arg(a, 0, 'iss_path'), arg(a, 1, 'trust_anchor')
    if path is None or ta is None:
        return None
    while md[0] == 'item':
        md = md[1]
    if md[0] != 'attr' or md[2] != 'metadata':
        return None
    if path != ('attr', md[1], 'iss_path'):
        return None if path[0] != 'attr' and about(path) and not of_request(path, 'sub') and not partial(path) else False
    return True if ta == q('anchor') or view.know(a_eq(ta, q('anchor'))) is True or ta in (
        ('attr', md[1], 'anchor'), ('item', path, C(-1))) else None if about(ta) and ta[0] not in ('attr', 'item') else False


def partial(t):
    """Something else than all of a list, in its order"""
    while t[0] in ('list', 'all', 'fresh') and len(t) == 2 or last(t) == 'list' and t[2]:
        t = t[1] if t[0] != 'call' else t[2][0][1]
    return t[0] in ('slice', 'rev')


def keys_of_statements(ctx):
    """How the key of an entity statement in the cache is made: ('fstr', authority, .., entity)"""
    for x, v in ctx.run(COLL.rsplit('.', 1)[0] + '.cache_key').returns():
        if v[0] == 'fstr' and {y for y in v[1:] if y[0] == 'sym'} == {('sym', 'authority'), ('sym', 'entity')} and len(v) == 4:
            return v
    return None


def from_cache(t, form):
    """What an element of the chain is: ('ec', of whom), ('es', by, about) or None"""
    def root(y, name):
        while y[0] in ('item', 'get', 'lv', 'attr'):
            if y[0] == 'attr' and y[2] == name:
                return True
            y = y[2] if y[0] == 'lv' else y[1]
        return False
    if t[0] in ('item', 'get', 'attr') and t[2] in (C('_jws'), '_jws') and t[1][0] in ('item', 'get') and root(t[1][1], 'config_cache'):
        return 'ec', t[1][2]
    if t[0] in ('item', 'get') and root(t[1], 'entity_statement_cache'):
        k = t[2]
        if k[0] == 'fstr' and form is not None:
            if len(k) != 4 or k[2] != form[2]:
                return 'other', k
            at = form[1:].index(('sym', 'authority')) + 1
            return 'es', k[at], k[4 - at]
        return 'es', None, None
    return None


def chain_got(ctx, done):
    """The trust chain for a path: the configuration of the first, the statement of each about the one before"""
    qual = COLL + '.get_chain'
    R = ctx.run(qual)
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('trust-chain', qual, None, 'exploration limit')
        return
    path = ('sym', 'iss_path')
    form = keys_of_statements(ctx)
    for x, v in R.returns():
        v = norm(v)
        if v == NONE:
            continue
        view = R.view(x)

        def ob(ok, why):
            uniq(ctx, 'trust-chain', done, qual, ok, why, R.where(x), R.path(x))
        if v[0] != 'list' or not v[1:]:
            ob(False if v[0] == 'list' or partial(v) else None, 'what is returned is not the trust chain')
            continue
        segs = list(v[1:])
        first = from_cache(norm(segs[0][1]), form) if segs[0][0] == 'item' else None
        if first is None or first[0] != 'ec':
            only = segs[0][0] == 'many' and all(g[0] == 'item' and (norm(g[1]) == NONE or (from_cache(norm(g[1]), form) or ' ')[0] == 'es')
                                                for d, ev, new in A.alts[segs[0][3]] for g in new or ())
            ob(False if first or only else None, 'a trust chain that does not begin with the entity configuration of the entity')
            continue
        ob(first[1] == ('item', path, C(0)) or (None if about(first[1]) and first[1][0] not in ('item', 'sym') else False),
           'a trust chain that does not begin with the entity configuration of the entity')
        end = None
        if len(segs) > 1 and segs[-1][0] == 'item':
            end = from_cache(norm(segs.pop()[1]), form)
            end = end or ('?',)
        wanted = view.know(a_truthy(('sym', 'with_ta_ec')))
        ta = [('sym', 'trust_anchor'), ('item', path, C(-1))]
        if end is None:
            ob(True if wanted is False else None if wanted is None and opaque_in(view.facts.items()) else False,
               'a trust chain without the entity configuration of the trust anchor, though it is asked for')
        else:
            ob(None if end[0] == '?' else end[0] == 'ec' and end[1] in ta and wanted is True,
               'a trust chain that ends with something else than the entity configuration of the trust anchor')
        if len(segs) != 2 or segs[1][0] != 'many':
            short = len(segs) == 1
            ob(False if short else None, 'a trust chain without the statements of the superiors')
            continue
        _, lid, dom, altid = segs[1]
        doms = dom[1:] if dom[0] == 'zip' else (dom,)
        ob(True if set(doms) <= {path, *ALL_BUT_ONE(path)} and set(doms) != {path} and view.any(
            lambda a, w: w and a[0] == 'forall' and a[1] == lid)
           else False if all(y[0] == 'slice' and y[1] == path or y == path for y in doms) else None,
           'a trust chain without some of the statements of the superiors')
        for d, ev, new in A.alts[altid]:
            for g in new or ((None,),):
                el = from_cache(norm(g[1]), form) if g[0] == 'item' else None
                if g[0] is None:
                    ob(None if opaque_in(d) else False, 'a trust chain without some of the statements of the superiors')
                elif el is None:
                    # nothing in the cache
                    ob(True if norm(g[1]) == NONE else None, 'an element of the trust chain is not known')
                elif el[0] != 'es' or el[1] is None:
                    ob(False if el[0] != 'es' else None, 'an element of the trust chain is not the statement of a superior')
                else:
                    ob(order(el[1], el[2], path, lid, dom), 'an element of the trust chain is not the statement of the superior about the one below')


def signed_form_found(ctx, done):
    """There may be entity configurations in the cache that do not have their signed form among the claims."""
    W = ctx.run('fedservice.entity.client.entity_configuration.EntityConfiguration.post_parse_response')
    bare = []
    for e in W.A.log:
        d = dict(e.args)
        if e.kind == 'mut' and e.name == '[]=' and mentions(d['target'], lambda y: y[0] == 'attr' and y[2] == 'config_cache'):
            v = d['value']
            if not (v[0] == 'dict' and any(g[0] == 'set' and g[1] == C('_jws') for g in v[2])):
                bare.append(e)
    R = ctx.run(COLL + '.get_chain')
    norm = norm_of(R.A)
    rets = [(x, norm(v), R.view(x)) for x, v in R.returns()]
    for x, v, view in rets:
        for t in subterms(v):
            if t[0] == 'item' and len(t) == 3 and t[2] == C('_jws') and (from_cache(t, None) or ' ')[0] == 'ec':
                alone = bare and not any(w.know(a_in(C('_jws'), t[1])) is False or w.know(a_truthy(t)) is False for _, _, w in rets)
                uniq(ctx, 'signed-form', done, R.qual, not alone,
                     'the signed form is only looked for among the claims, where there is none when a service fetched it: ' + show(t)[-80:],
                     R.where(x))


def kept_as_read(ctx, done):
    """The statements are in the cache under the key that they are looked for under."""
    form = keys_of_statements(ctx)
    R = ctx.run(COLL + '._get_entity_statement', boundary=('get_federation_fetch_endpoint', 'get_entity_statement'))
    norm = norm_of(R.A)
    for e in R.A.log:
        d = dict(e.args)
        if not (e.kind == 'mut' and e.name == '[]=' and mentions(d['target'], lambda y: y[0] == 'attr' and y[2] == 'entity_statement_cache')
                and last(norm(d['value'])) == 'get_entity_statement'):
            continue
        call, k = norm(d['value']), norm(d['key'])
        by, about_ = dict(call[2]).get('issuer'), dict(call[2]).get('subject')
        ok = None
        if form is not None and by and about_ and k[0] == 'fstr':
            ok = k == ('fstr',) + tuple({('sym', 'authority'): norm(by), ('sym', 'entity'): norm(about_)}.get(y, y) for y in form[1:])
        uniq(ctx, 'trust-chain', done, R.qual, ok, 'an entity statement is kept under another key than it is looked for under', e.where)


def order(by, about_, path, lid, dom):
    i, j = (pos(y, path, lid, dom) for y in (by, about_))
    return None if i is None or j is None else (i, j) == (1, 0)


def ALL_BUT_ONE(path):
    return ('slice', path, NONE, C(-1), NONE), ('slice', path, C(0), C(-1), NONE), ('slice', path, C(1), NONE, NONE)


def pos(y, path, lid, dom):
    """How far from the first, the second, .. in the n:th round?"""
    if y[0] == 'item' and y[1] == path and is_const(y[2]):
        return y[2]
    if y == ('elem', lid, path) or y == ('item', path, ('idx', lid)):
        return 0
    if y[0] == 'item' and y[1] == path and y[2][0] == 'lin' and y[2][1] == ((('idx', lid), 1),):
        return y[2][2]
    return None


def end_of_path(t):
    """The trust anchor of a trust chain"""
    return t[0] == 'item' and t[1][0] == 'attr' and t[1][2] == 'iss_path' and t[2] == C(-1)


def leads_to(A, view, md, ta):
    """Is the metadata that of a trust chain which leads to the trust anchor?"""
    norm = norm_of(A)
    md = norm(md)
    while md[0] == 'item' or last(md) in ('copy', 'deepcopy', 'dict') and md[2]:
        md = md[1] if md[0] == 'item' else md[2][0][1]
    if md[0] != 'attr' or md[2] != 'metadata':
        return None
    tc = md[1]
    if view.know(a_eq(('attr', tc, 'anchor'), ta)) is True:
        return True
    if view.know(a_eq(('item', ('attr', tc, 'iss_path'), C(-1)), ta)) is True:
        return True
    l = tc[1] if tc[0] == 'item' else tc[2] if tc[0] == 'elem' else None
    if last(tc) == 'pick_trust_chain':
        l = arg(args_of(tc), 0, 'trust_chains')
    if l is not None:
        l = norm(l)
        r = None
        if l[0] == 'list':
            r = True
            for val, facts, lids in each(A, l):
                val = norm(val)
                r = worst(r, True if view.plus(facts).know(a_eq(('attr', val, 'anchor'), ta)) is True else None)
        if r is True:
            return True
        if last(l) == 'apply_policies' and arg(args_of(l), 1, 'trust_chains') is not None:
            if leads_to(A, view, ('attr', ('item', arg(args_of(l), 1, 'trust_chains'), C(0)), 'metadata'), ta) is True:
                return True
    if view.any(lambda a, w: a[0] not in ('in', 'none', 'truthy', 'forall', 'completed') and mentions(a, ta) and
                mentions(a, lambda y: y == tc) and not (a[0] == 'eq' and not w)):
        return None
    if tc[0] == 'lo':
        return last_one(A, view, tc, ta)
    if about_more(view, tc):
        return None
    return False


def last_one(A, view, tc, ta):
    """The chain that a loop leaves behind"""
    kept = [('lv', tc[1], tc[2]), ('phi', tc[1], tc[2], tc[4]), ('pv', tc[1], tc[2])]
    r = True if tc[4] == NONE else None
    for d, ev, v in A.alts[tc[3]]:
        if v in kept or v == NONE:
            continue
        if v is None or about(v) and v[0] not in ('elem', 'item'):
            return None
        k = Facts(dict(d)).know(a_eq(('attr', v, 'anchor'), ta))
        if k is False and not view.any(lambda a, w: any(y[0] in ('lo', 'up', 'lv') and y[1] == tc[1] and y != tc
                                                        for y in subterms(a))) and not view.any(
                lambda a, w: a[0] not in ('none', 'truthy', 'completed') and mentions(a, tc)):
            return False
        if k is not True:
            r = None
    return r


def about_more(view, tc):
    return view.any(lambda a, w: a[0] == 'truthy' and a[1][0] == 'call' and any(
        mentions(v, tc) for k, v in a[1][2] if isinstance(v, tuple)))


def c27(ctx):
    done = set()
    ctx.part(resolve, done)
    ctx.part(chain_got, done)
    ctx.part(kept_as_read, done)
    ctx.part(signed_form_found, done)


# ---------------------------------------------------------------------- C28
def kept_in(t, name):
    """The key something is kept under in one of the tables of the server (subordinate, policy)"""
    if t[0] in ('item', 'get') and len(t) == 3 and t[1][0] == 'attr' and t[1][2] == name:
        return t[2]
    if last(t) in ('get', '__getitem__'):
        a = dict((k, v) for k, v in t[2])
        s = a.get('self')
        if s is not None and s[0] == 'attr' and s[2] == name:
            return arg([x for x in t[2] if x[0] != 'self'], 0, 'key', 'entity_id', 'k')
    return None


def lookup(A, t, key, facts=(), view=None):
    """What a (merged) dictionary has for a key: (value - None if there is nothing, 'unknown' -, facts)"""
    norm = norm_of(A)
    t = norm(t)
    while t[0] == 'fresh' or last(t) in ('copy', 'deepcopy', 'dict') and t[2]:
        t = t[1] if t[0] == 'fresh' else t[2][0][1]
    if t[0] != 'dict':
        yield item(t, key), facts
        return
    rest = list(t[2])
    while rest:
        seg = rest.pop()
        if seg[0] == 'set':
            if seg[1] == key:
                yield seg[2], facts
                return
            if seg[1][0] != 'const':
                yield 'unknown', facts
        elif seg[0] == 'del':
            if seg[1] == key:
                yield None, facts
                return
            if seg[1][0] != 'const':
                yield 'unknown', facts
        elif seg[0] == 'upd':
            yield from (x for x in lookup(A, seg[1], key, facts, view) if x[0] is not None)
            if view and view.know(a_in(key, norm(seg[1]))) is True:
                return
        elif seg[0] == 'many':
            el = ('elem', seg[1], seg[2])

            def it(x):
                return key if x == el else x
            for d, ev, segs in A.alts[seg[3]]:
                kept = False
                fs = tuple((subst(a, it), v) for a, v in d)
                if any(a[0] == 'eq' and is_const(a[1]) and is_const(a[2]) and (a[1] == a[2]) != v for a, v in fs):
                    continue
                for s in segs or ():
                    if s[0] == 'set' and s[1] == el:
                        kept = True
                        v = norm(subst(s[2], it))
                        if v[0] == 'item' and v[1][0] == 'dict':
                            yield from lookup(A, v[1], key, facts + fs, view)
                        else:
                            yield v, facts + fs
                    elif s[0] == 'set' and s[1] == key:
                        kept = True
                        yield norm(s[2]), facts + tuple(d)
                    elif s[0] != 'set' or s[1][0] != 'const':
                        kept = True
                        yield 'unknown', facts
                if not kept:
                    yield from lookup(A, ('dict', t[1], tuple(rest)), key, facts + fs, view)
            return
        else:
            yield 'unknown', facts
            return
    if t[1]:
        yield from lookup(A, t[1], key, facts, view)
    else:
        yield None, facts


def given(A, args, key):
    """What the keyword argument is"""
    for k, v in args:
        if k == key:
            yield v, ()
            return
    for k, v in args:
        if k == '**':
            yield from lookup(A, v, C(key))


def pull(t, name, A=None):
    r = [x for x in subterms(t) if kept_in(x, name) is not None]
    if A:
        seen = set()
        todo = [t]
        while todo:
            for x in subterms(todo.pop()):
                if x[0] == 'many' and len(x) == 4 and x[3] not in seen:
                    seen.add(x[3])
                    for d, ev, segs in A.alts[x[3]]:
                        todo.extend(y for g in segs or () for y in g[1:] if isinstance(y, tuple))
                elif kept_in(x, name) is not None and x not in r:
                    r.append(x)
    return r


def outside(t):
    """Does it depend on the request other than by selecting what is registered?"""
    def f(x):
        return ('const', 'str', '?') if kept_in(x, 'subordinate') is not None or kept_in(x, 'policy') is not None else x
    return mentions(subst(t, f), REQ)


def fetch(ctx, done):
    qual = FETCH + '.process_request'
    R = ctx.run(qual, boundary=('create_entity_statement',))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('own-name', qual, None, 'exploration limit')
        return
    n = 0
    sub = q('sub')
    for e in calls(R, 'create_entity_statement'):
        n += 1
        view = View(A, list(e.facts.items()))
        a = [(k, norm(v)) for k, v in e.args if k != 'self' and isinstance(v, tuple)]
        path = fpath(e.facts.items())

        def ob(rule, ok, why):
            uniq(ctx, rule, done, qual, ok, why, e.where, path)
        ob('own-name', mine(view, arg(a, 0, 'iss')), 'a statement that is not issued in the name of the entity itself')
        s = arg(a, 1, 'sub')
        kj = arg(a, 2, 'key_jar')
        ob('own-keys', None if kj is None else True if kj[0] == 'attr' and kj[2] == 'keyjar' or kj == (
            'up', 'attribute', 'keyjar') else None if about(kj) else False, 'a statement that is not signed with the keys of the entity')
        if s is None:
            ob('known-subordinate', None, 'the subject is not known')
            continue
        regs = [(v, x) for k, v in a for x in pull(v, 'subordinate')]
        if mine(view, s) is True or same(view, s, ('up', 'attribute', 'entity_id')) is True:
            ob('about-itself', False if regs else True, 'a statement about the entity itself with what is registered about a subordinate')
            asked = view.any(lambda t, w: w and t[0] == 'eq' and sub in t[1:] and any(
                y != sub and mine(view, y) for y in t[1:] if isinstance(y, tuple))) or view.know(a_truthy(sub)) is False or view.know(
                a_in(C('sub'), REQ)) is False or view.know(a_truthy(REQ)) is False or view.know(a_none(sub)) is True
            ob('asked-for', True if asked else None if view.any(lambda t, w: t[0] == 'eq' and w and mentions(t, sub)) else False,
               'a statement about the entity itself when it was asked about another entity')
            continue
        if is_who(view, s, sub) is not True:
            ob('asked-for', None if about(s) and not pull(s, 'policy') else False, 'a statement about another entity than the one asked for')
            continue
        ob('asked-for', True, '')
        recs = {x for v, x in regs}
        good = {x for x in recs if is_who(view, kept_in(x, 'subordinate'), sub) is True}
        known = view.any(lambda t, w: w and t[0] == 'in' and t[1] == sub and t[2][0] == 'attr' and t[2][2] == 'subordinate' or w
                         and t[0] == 'truthy' and kept_in(t[1], 'subordinate') is not None and is_who(
                             view, kept_in(t[1], 'subordinate'), sub) is True)
        ob('known-subordinate', True if known else None if unsure_about(view, sub) else False,
           'a statement about an entity that is not known as a subordinate')
        ob('registered-data', False if recs - good else True, 'a statement with what is registered about another subordinate')
        for k, v in a:
            if k not in ('iss', 'sub', 'key_jar', '**'):
                ob('registered-data', False if outside(v) else True, f'{k} in the statement comes from the request')
            if k == '**':
                ob('registered-data', False if outside(v) else True, 'the content of the statement comes from the request')
        for key in ('jwks', 'constraints', 'crit', 'policy_language_crit', 'metadata_policy', 'metadata'):
            ok = True
            for v, facts in given(A, a, key) or ():
                ok = worst(ok, carried(view.plus(facts), A, key, v, good))
            if not any(True for _ in given(A, a, key)):
                ok = False if key == 'jwks' else None
            ob('registered-data' if key != 'jwks' else 'registered-keys', ok,
               f'{key} in the statement is not what is registered about the subordinate (and its policy)')
        ob('policy', False if overwritten(A, a) else policy_used(A, view, a, sub), 'a statement without the policy that there is for the subordinate')
    if not n:
        ctx.ob('own-name', qual, None, 'no statement is created')
    for x, v in R.returns():
        v = norm(v)
        if v == NONE or v[0] == 'const':
            continue
        signed = any(last(y) == 'create_entity_statement' for y in subterms(v))
        raw = pull(v, 'subordinate')
        uniq(ctx, 'own-name', done, qual, True if signed else (False if raw else None), 'the response is not signed', R.where(x),
             R.path(x))


FE_ID = ('up', 'attribute', 'entity_id')


def unsure_about(view, t):
    return view.any(lambda a, w: a[0] == 'truthy' and a[1][0] == 'call' and kept_in(a[1], 'policy') is None and mentions(a, t))


def carried(view, A, key, v, recs):
    """Is the value for the key the registered one (or, but for the keys, from the policy)?"""
    if v == 'unknown':
        return None
    if v is None:
        if key in ('metadata', 'metadata_policy'):
            return True
        return False
    v = norm_of(A)(v)
    if v[0] in ('item', 'get') and v[1] in recs and v[2] == C(key):
        return True
    if v[0] in ('item', 'get') and kept_in(v[1], 'policy') is not None and v[2] == C(key):
        return True
    if key in ('metadata', 'metadata_policy') and pull(v, 'policy', A):
        return by_type(A, view, key, v, recs)
    if outside(v):
        return False
    if about(v):
        return None
    return False


def by_type(A, view, key, v, recs):
    """The dictionary with the policies of the entity types"""
    if v[0] != 'dict' or v[1]:
        return None
    ok = True
    for s in v[2]:
        if s[0] != 'many':
            ok = worst(ok, None)
            continue
        if s[2][0] == 'slice' and any(y in recs for y in subterms(s[2])):
            ok = worst(ok, False)
            continue
        if not (s[2][0] in ('item', 'get') and s[2][1] in recs and s[2][2] in (C('entity_types'), C('entity_type'))):
            ok = worst(ok, some_of(A, s[2], recs))
            continue
        el = ('elem', s[1], s[2])
        if s[2][2] == C('entity_type') and not view.any(lambda a, w: not w and (
                a[0] == 'in' and a[1] == C('entity_types') or a[0] == 'truthy' and a[1][0] in ('item', 'get') and a[1][2] == C('entity_types'))):
            ok = worst(ok, False)
        if not view.any(lambda a, w: w and a[0] == 'forall' and a[1] == s[1]) and any(d for d, ev, segs in A.alts[s[3]]):
            ok = worst(ok, False)
        for d, ev, segs in A.alts[s[3]]:
            segs = segs or ()
            for g in segs:
                if g[0] != 'set':
                    ok = worst(ok, None)
                    continue
                src = g[2]
                p = kept_in(src[1], 'policy') if src[0] in ('item', 'get') else None
                if g[1] != el or p is not None and (p != el or src[2] != C(key)):
                    ok = worst(ok, False)
                elif p is None:
                    ok = worst(ok, None)
            if not segs:
                w = View(A, list(d))
                ok = worst(ok, True if without_policy(w, el, key) else None if opaque_in(
                    [x for x in d if mentions(x[0], el)]) or w.any(lambda a, u: mentions(a, el) and a[0] not in ('truthy', 'none', 'in') and not (
                        a[0] == 'eq' and el in a[1:]))
                    else False)
    return ok


def some_of(A, t, recs):
    """Only some of the entity types?"""
    if t[0] == 'list' and len(t) == 2 and t[1][0] == 'many' and t[1][2][0] in ('item', 'get') and t[1][2][1] in recs and any(
            not segs for d, ev, segs in A.alts[t[1][3]]):
        return False
    return None


def overwritten(A, args):
    """In a loop over entity types: does the policy for one of them replace that for the others?"""
    for k, v in args:
        for t in subterms(v):
            if t[0] != 'lo' or t[1] not in A.loopinfo:
                continue
            alts = A.loopinfo[t[1]]['vals'].get(t[3])
            for d, ev, new in A.alts[alts] if alts is not None else ():
                if not new or new[0] != 'dict' or new[1] != ('lv', t[1], t[3]):
                    continue
                for s in new[2]:
                    if s[0] == 'set' and s[1] in (C('metadata'), C('metadata_policy')) and not mentions(s[2], lambda y: y[0] in ('lv', 'prev', 'pv')) and any(
                            kept_in(x, 'policy') == ('elem',) + tuple(y[1:3]) for x in pull(s[2], 'policy') for y in subterms(x)
                            if y[0] == 'elem' and y[1] == t[1]):
                        return True
    return False


def one_type(a, typ):
    """Is it about one of the entity types only?"""
    return a[0] in ('in', 'truthy', 'none') and a[1][0] == 'item' and a[1][1][0] in ('item', 'get') and a[1][1][2] in typ and a[1][2][0] == 'const'


def idle(A, a, w, typ):
    """A loop over the entity types that does not use the policies that there are"""
    if not (a[0] == 'forall' and w and a[2][0] in ('item', 'get') and a[2][2] in typ):
        return False
    alts = A.alts[a[3]]
    return not any(opaque_in([x]) for d in alts for x in d[0]) and not all(without_policy(View(A, list(d[0])), (
        'elem', a[1], a[2])) for d in alts)


def without_policy(w, el, key=None):
    """Is there no policy for the entity type (with the key)?"""
    keyed = lambda y: key is not None and y[0] in ('item', 'get') and y[2] == C(key)
    return w.any(lambda a, u: not u and (a[0] == 'truthy' and kept_in(a[1], 'policy') == el or a[0] == 'in' and (
        key is not None and a[1] == C(key) and kept_in(a[2], 'policy') == el or a[1] == el) or a[0] == 'truthy' and keyed(a[1]))
        or u and a[0] == 'none' and (kept_in(a[1], 'policy') == el or keyed(a[1])))


def policy_used(A, view, args, sub):
    own, types = [], []
    for t in [v for k, v in args] + [a for a, v in view.facts.items()]:
        for x in pull(t, 'policy', A):
            k = kept_in(x, 'policy')
            (own if is_who(view, k, sub) is True else types).append(x)
    for x in own:
        if any(mentions(v, x) for k, v in args):
            # all of it
            for key in ('metadata', 'metadata_policy'):
                got = next(given(A, args, key), (None, ()))[0]
                if got is None or got == 'unknown':
                    return None
                if got != item(x, C(key)):
                    return None if got[0] in ('item', 'get') and about(got[1]) and mentions(got, x) and got[1] != x else False
            return True
    if not own:
        return False
    if not any(view.know(a_truthy(x)) is False or view.know(a_none(x)) is True or view.know(
            a_in(kept_in(x, 'policy'), under(x))) is False for x in own):
        return False if any(view.know(a_truthy(x)) is True for x in own) else None
    # no policy for the entity: by its entity types
    used = {key: [v for v, f in given(A, args, key) if isinstance(v, tuple) and any(
        x in types for x in pull(v, 'policy', A))] for key in ('metadata', 'metadata_policy')}
    empty = [(a, w == (a[0] == 'eq')) for a, w in view.facts.items() if a[0] in ('eq', 'truthy') and any(
        x in types for y in a[1:] if isinstance(y, tuple) for x in pull(y, 'policy', A))]
    none = {key for a, w in empty if w for key in keys_in(A, a)}
    if all(v or key in none for key, v in used.items()):
        return True
    if any(used.values()):
        return False
    typ = (C('entity_types'), C('entity_type'))
    if view.any(lambda a, w: a[0] == 'in' and not w and a[1] in typ or a[0] in ('truthy', 'none') and w == (a[0] == 'none') and
                a[1][0] in ('item', 'get') and a[1][2] in typ):
        return True
    if not types:
        return None if view.any(lambda a, w: mentions(a, lambda y: y in typ) and not (
            a[0] == 'in' and a[1] in typ or a[0] == 'truthy' and a[1][0] in ('item', 'get') or one_type(a, typ)
            or idle(A, a, w, typ))) or view.any(lambda a, w: mentions(a, lambda y: y[0] in ('obj', 'opaque'))) else False
    if any(w for a, w in empty):
        # nothing of it: neither of the two
        return True if len(none) != 1 else False
    return False if empty else None


def keys_in(A, a):
    return {key for key in ('metadata', 'metadata_policy') if any(y[0] == 'many' and any(
        g[0] == 'set' and g[2][0] in ('item', 'get') and g[2][2] == C(key) for d, ev, segs in A.alts[y[3]] for g in segs or ())
        for y in deep(A, a))}


def under(x):
    return x[1] if x[0] in ('item', 'get') else dict(x[2]).get('self', NONE)


def registered_unchanged(ctx, done):
    """Serving requests does not change what is registered."""
    for cls in (FETCH, LIST):
        qual = cls + '.process_request'
        R = ctx.run(qual, boundary=('create_entity_statement',) if cls == FETCH else ('collect_subordinates',))
        A = R.A
        if R.limit:
            ctx.ob('nothing-changed', qual, None, 'exploration limit')
            continue
        bad = 0
        for e in A.log:
            if e.kind not in ('mut', 'setattr', 'del'):
                continue
            t = next((v for k, v in e.args if k in ('target', 'self', 'obj') and isinstance(v, tuple)), None)
            if t is None:
                continue
            if changes_registered(t):
                bad += 1
                uniq(ctx, 'nothing-changed', done, f'{qual} {e.name}', False, 'what is registered is changed when a request is served',
                     e.where, fpath(e.facts.items()))
        if not bad:
            uniq(ctx, 'nothing-changed', done, qual, True, '')


def changes_registered(t):
    if t[0] == 'fresh':
        return False
    while True:
        if t[0] == 'attr' and t[2] in ('subordinate', 'policy'):
            return True
        if kept_in(t, 'subordinate') is not None or kept_in(t, 'policy') is not None:
            return True
        if t[0] in ('item', 'get', 'elem'):
            t = t[2] if t[0] == 'elem' else t[1]
        elif t[0] == 'dict' and t[1]:
            t = t[1]
        else:
            return False


def c28(ctx):
    done = set()
    ctx.part(fetch, done)
    ctx.part(registered_unchanged, done)


# ---------------------------------------------------------------------- C29
CRITERIA = ('intermediate', 'entity_type', 'trust_marked', 'trust_mark_id')


def is_db(t):
    while t[0] in ('set', 'sorted', 'list', 'all', 'deep', 'fresh') and len(t) == 2 and isinstance(t[1], tuple) and isinstance(t[1][0], str):
        t = t[1]
    while t[0] == 'call' and last(t) in ('keys', 'items', 'copy', 'list', 'dict', 'set') and t[2]:
        t = t[2][0][1]
    return t[0] == 'attr' and t[2] == 'subordinate'


def is_collected(t):
    return last(t) == 'collect_subordinates'


class Membership:
    """Who is in a list of subordinates: present[c]: only those that meet criterion c (if it is asked for);
    complete: everyone that meets what is asked for; registered: only identifiers of subordinates. True / False / None"""

    def __init__(self, A, view, t, out=False):
        self.A, self.view, self.out = A, view, out
        self.present = {c: True if not_asked(view, c) else None if murky_about(view, c) else False for c in CRITERIA}
        self.complete, self.registered, self.known = True, True, True
        self.visit(norm_of(A)(t))

    def unknown(self):
        self.known = False
        self.present = {c: v if v is True else None for c, v in self.present.items()}
        self.complete = None

    def visit(self, t):
        A = self.A
        if is_db(t) or is_collected(t):
            if self.out:
                self.present, self.complete = {c: True for c in CRITERIA}, False
            return
        if t[0] in ('set', 'sorted', 'deep', 'fresh', 'rev'):
            return self.visit(t[1])
        if t[0] == 'call' and last(t) in ('list', 'set', 'sorted', 'keys') and t[2]:
            return self.visit(t[2][0][1])
        if t[0] in ('inter', 'union', 'diff'):
            x = Membership(A, self.view, t[1], self.out)
            y = Membership(A, self.view, t[2], self.out != (t[0] == 'diff'))
            both = t[0] == 'inter' if not self.out else t[0] == 'union'
            if t[0] == 'diff':
                both = not self.out
            for c in CRITERIA:
                p, q_ = x.present[c], y.present[c]
                self.present[c] = worst(p, q_) if not both else True if p is True or q_ is True else \
                    None if p is None or q_ is None else False
            p, q_ = x.complete, y.complete
            self.complete = worst(p, q_) if both else True if p is True or q_ is True else None if p is None or q_ is None else False
            self.registered = x.registered if t[0] != 'union' else worst(x.registered, y.registered)
            self.known = x.known and y.known
            return
        segs = t[1:] if t[0] == 'list' else t[2] if t[0] == 'dict' and not t[1] else ()
        if len(segs) == 1 and segs[0][0] == 'all':
            return self.visit(segs[0][1])
        if len(segs) == 1 and segs[0][0] == 'many':
            self.visit(segs[0][2])
            return self.loop(segs[0])
        if len(segs) > 1 and t[0] == 'list':
            return self.visit(('union', ('list', segs[0]), ('list',) + tuple(segs[1:])))
        if t[0] == 'list' and not segs:
            if self.out:
                return
            self.present, self.complete = {c: True for c in CRITERIA}, False
            return
        self.unknown()

    def loop(self, seg):
        A, norm = self.A, norm_of(self.A)
        _, lid, dom, altid = seg
        el = norm(('elem', lid, dom))
        alts = [(d, [] if bool(segs) == self.out else segs or [()]) for d, ev, segs in A.alts[altid]]
        for c in CRITERIA:
            good = True
            for d, segs in alts:
                if not segs:
                    continue
                w = self.view.plus(d)
                met = fulfilled(A, w, c, el)
                if not_asked(w, c) or met is True or self.inside(w, el, c):
                    continue
                if met is False and is_asked(w, c):
                    good = False
                    break
                good = worst(good, None if puzzled(A, w, d, c, el) else False)
            self.present[c] = True if self.present[c] is True or good is True else None if self.present[c] is None or good is None \
                else False
        for d, segs in alts:
            w = self.view.plus(d)
            for s in segs:
                if not s:
                    continue
                val = norm(s[1])
                if val != el:
                    self.registered = worst(self.registered, False if val[0] in (
                        'item', 'get', 'payload', 'verified') and not opaque_in([(val, True)]) else None if about(val) and val[0] != 'elem' else False)
            if not segs and not any(is_asked(w, c) and fulfilled(A, w, c, el) is False for c in CRITERIA) and not self.left_out(w, el):
                un = any(fulfilled(A, w, c, el) is False and not not_asked(w, c) and murky_about(w, c) for c in CRITERIA)
                self.complete = worst(self.complete, None if un or opaque_in(d) else False)
        if not self.view.any(lambda a, w: w and a[0] == 'forall' and a[1] == lid) and any(d for d, s in alts):
            self.complete = worst(self.complete, False)

    def lists(self, w, el, v):
        for a, u in w.facts.items():
            if a[0] == 'in' and a[1] == el and u is v and not is_db(a[2]) and not is_collected(a[2]):
                yield a[2]

    def inside(self, w, el, c):
        return any(Membership(self.A, self.view, l).present[c] is True for l in self.lists(w, el, True))

    def left_out(self, w, el):
        return any(Membership(self.A, self.view, l).complete is True for l in self.lists(w, el, False))


def not_asked(view, c):
    v = q(c)
    if view.know(a_in(C(c), REQ)) is False or view.know(a_truthy(v)) is False or view.know(a_none(v)) is True or \
            view.know(a_truthy(REQ)) is False:
        return True
    if view.any(lambda a, w: w and a[0] == 'subset' and a[1] == REQ and not mentions(a[2], C(c)) and a[2][0] in ('list', 'tuple')):
        return True
    if view.any(lambda a, w: not w and a[0] == 'truthy' and a[1][0] == 'inter' and mentions(a, REQ) and mentions(a, C(c))):
        return True
    if c in ('intermediate', 'trust_marked'):
        return view.any(lambda a, w: not w and a[0] in ('eq', 'in') and mentions(a, v) and mentions(a, lambda y: y in (
            C('true'), C('True'), C(True)))) or view.any(lambda a, w: w and a[0] == 'eq' and mentions(a, v) and mentions(
                a, lambda y: y in (C('false'), C('False'), C(False))))
    return False


def is_asked(view, c):
    """Known to be asked for (as far as that is visible)?"""
    v = q(c)
    if c in ('intermediate', 'trust_marked'):
        # 'false' is not a request for it
        return view.know(a_truthy(v)) is True and view.any(lambda a, w: a[0] == 'isinst' and a[1] == v) or view.any(
            lambda a, w: w and a[0] in ('eq', 'in') and mentions(a, v) and mentions(a, lambda y: y in (C('true'), C('True'), C(True))))
    return view.know(a_in(C(c), REQ)) is True or view.know(a_truthy(v)) is True


KEYS = {'intermediate': ('intermediate',), 'entity_type': ('entity_types', 'entity_type', 'metadata'),
        'trust_marked': ('trust_marks',), 'trust_mark_id': ('trust_marks',)}


def conf_of(t, el):
    return t[0] in ('item', 'get') and len(t) == 3 and (is_db(t[1]) or is_collected(t[1])) and t[2] == el


def fulfilled(A, view, c, el):
    """Does the subordinate meet the criterion? True / False / None"""
    def data(t):
        return t[0] in ('item', 'get') and len(t) == 3 and t[2] in [C(k) for k in KEYS[c]] and conf_of(t[1], el)
    vals = set()
    for a, w in view.facts.items():
        for x in subterms(a):
            if data(x):
                vals.add(x)
    if c in ('intermediate', 'trust_marked'):
        if any(view.know(a_truthy(x)) is True or view.any(lambda a, w: w and a[0] == 'eq' and x in a[1:] and C(True) in a[1:])
               for x in vals):
            return True
        if any(view.know(a_truthy(x)) is False or view.know(a_none(x)) is True for x in vals) or view.any(
                lambda a, w: not w and a[0] == 'in' and a[1] in [C(k) for k in KEYS[c]] and conf_of(a[2], el)):
            return False
        return None
    v = q(c)
    out = None
    without, lacks = set(), set()
    for a, w in view.facts.items():
        if a[0] == 'in' and a[1] == v:
            src = a[2]
            hit = any(data(x) for x in deep(A, src))
            if hit and w:
                return True
            if w and opaque_in([(src, True)]):
                return None
            if hit and data(src):
                if src[2] != C('metadata') or is_collected(src[1][1]):
                    without.add(src[2][2])
            elif hit:
                out = False
        elif a[0] in ('truthy', 'none') and any(data(x) for x in (a[1],)) and w == (a[0] == 'none'):
            lacks.add(a[1][2][2])
        elif a[0] == 'in' and not w and a[1] in [C(k) for k in KEYS[c]] and conf_of(a[2], el):
            lacks.add(a[1][2])
        elif a[0] in ('eq', 'anyall', 'forall', 'exists') and mentions(a, v) and any(data(x) for x in deep(A, a)):
            out = 'unsure'
    if out is None and (c != 'entity_type' and (without or lacks) or without & {'entity_types', 'metadata'} or 'metadata' in lacks or
                        'entity_types' in lacks and 'entity_type' in without | lacks):
        out = False
    return None if out == 'unsure' else out


def deep(A, t):
    seen, todo = set(), [t]
    while todo:
        for x in subterms(todo.pop()):
            yield x
            if x[0] == 'many' and len(x) == 4 and x[3] not in seen:
                seen.add(x[3])
                for d, ev, segs in A.alts[x[3]]:
                    todo.extend(y for g in segs or () for y in g[1:] if isinstance(y, tuple))


def listing(ctx, done):
    qual = LIST + '.process_request'
    R = ctx.run(qual, boundary=('collect_subordinates',))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('only-matching', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        v = norm(v)
        if v == NONE:
            continue
        n += 1
        path, where = R.path(x), R.where(x)

        def ob(rule, ok, why):
            uniq(ctx, rule, done, qual, ok, why, where, path)
        got = next(lookup(A, v, C('response_msg')), (None, ()))[0]
        if got is None or got == 'unknown':
            ob('only-matching', None, 'the response is not known')
            continue
        if last(got) == 'dumps' and got[2]:
            got = got[2][0][1]
        view0 = R.view(x)
        m = Membership(A, view0, got)
        if not m.known:
            made_of = [y for y in deep(A, got) if is_db(y) or is_collected(y)]
            ob('only-registered', None if made_of or about(got) else False, 'the response is not a list of registered subordinates')
        else:
            ob('only-registered', m.registered, 'something else than the identifiers of registered subordinates is listed')
        for c in CRITERIA:
            ob('only-matching', m.present[c], f'subordinates that do not meet the criterion {c} in the request are listed')
        ob('all-matching', m.complete, 'a subordinate is left out though it meets the criteria in the request')
    if not n:
        ctx.ob('only-matching', qual, None, 'nothing is returned')


def opaque_in(d):
    return any(mentions(a, lambda y: y[0] in ('opaque', 'phi', 'lo', 'lv') or y[0] == 'call' and last(y) not in (
        'collect_subordinates', 'lower', 'get_payload', 'get', 'keys', 'items', 'upstream_get', 'strip')) for a, v in d)


def murky_about(view, c):
    """Something about the criterion is known that is not understood."""
    return view.any(lambda a, w: mentions(a, q(c)) and (a[0] not in ('truthy', 'none', 'eq', 'in', 'isinst') or opaque_in([(a, w)]))
                    or a[0] == 'in' and a[1] == C(c) and a[2] != REQ and mentions(a[2], REQ))


def puzzled(A, view, d, c, el):
    if murky_about(view, c):
        return True
    if opaque_in([(a, v) for a, v in d if mentions(a, lambda y: y == el)]):
        return True
    return view.any(lambda a, w: a[0] not in ('truthy', 'none', 'in', 'isinst', 'eq', 'forall') and mentions(a, lambda y: y == el)) or \
        view.any(lambda a, w: a[0] in ('eq', 'in') and mentions(a, q(c)) and w and mentions(a, lambda y: y == el))


def collected(ctx, done):
    """What is known about the subordinates comes from entity configurations verified with the registered keys."""
    qual = LIST + '.collect_subordinates'
    R = ctx.run(qual, boundary=('get_entity_configuration',))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('verified', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        if v[0] != 'dict':
            ctx.ob('verified', qual, None, 'what is collected is not known')
            continue
        for seg in v[2]:
            if seg[0] != 'many':
                uniq(ctx, 'verified', done, qual, None, 'what is collected is not known')
                continue
            for d, ev, segs in A.alts[seg[3]]:
                for s in segs or ():
                    n += 1
                    if s[0] != 'set':
                        uniq(ctx, 'verified', done, qual, None, 'what is collected is not known')
                        continue
                    ok = registered_keys(A, s[1], s[2])
                    uniq(ctx, 'verified', done, qual, ok, 'an entity configuration that is not verified with the keys registered for the '
                         'subordinate (and those only)', R.where(x), fpath(d))
                    db = norm(s[1])
                    uniq(ctx, 'only-registered', done, qual, True if db[0] == 'elem' and is_db(db[2]) else False if
                         db[0] == 'item' and db[1][0] == 'payload' else None if about(db) and db[0] != 'elem'
                         else False, 'something is collected about others than the registered subordinates', R.where(x))
                if not segs:
                    uniq(ctx, 'all-collected', done, qual, None if opaque_in(d) or d else False,
                         'nothing is collected about a registered subordinate', R.where(x), fpath(d))
        uniq(ctx, 'all-collected', done, qual, True, '')
    if not n:
        ctx.ob('verified', qual, None, 'nothing is collected')


def registered_keys(A, who, t):
    norm = norm_of(A)
    while t[0] in ('deep', 'fresh'):
        t = t[1]
    if t[0] == 'payload' or last(t) in ('get_payload', 'jws_payload'):
        return False
    if t[0] != 'verified':
        return None
    tok, keys = t[1], t[2]
    tok_ok = any(last(y) == 'get_entity_configuration' and norm(arg(args_of(y), 0, 'entity_id') or NONE) == norm(who) for y in subterms(tok))
    if not tok_ok:
        return None if about(tok) and not mentions(tok, who) else None
    if keys[0] == 'jarkeys':
        keys = keys[1]
    ops = keys[3] if keys[0] == 'extobj' and len(keys) > 3 else None
    if keys[0] == 'attr' and keys[2] == 'keyjar':
        return False
    if ops is None:
        return None
    if mentions(keys, lambda y: y[0] == 'lo') or any(y[0] in ('prev', 'pv') for y in subterms(keys)):
        return False
    n = 0
    for op in ops:
        jw = [v for k, v in op[1] if k in ('jwks', '1', '0', 'jwks_as_json') and isinstance(v, tuple) and v[0] in ('item', 'get')]
        if len(jw) != 1:
            return None
        j = norm(jw[0])
        if j[2] != C('jwks') or not (j[1][0] in ('item', 'get') and is_db(j[1][1]) and j[1][2] == norm(who)):
            return False
        n += 1
    return True if n else False


def c29(ctx):
    done = set()
    ctx.part(listing, done)
    ctx.part(collected, done)


# ---------------------------------------------------------------------- C32
WHO = SRV + '.who.Who'


def paths(A, t, depth=0):
    """The elements of a list that is built in several steps, each with everything known about it: [(element, facts)]"""
    while t[0] in ('set', 'sorted', 'rev', 'deep', 'fresh') or t[0] == 'call' and last(t) in ('list', 'set', 'sorted', 'keys', 'copy') and t[2]:
        t = t[1] if t[0] != 'call' else t[2][0][1]
    if t[0] == 'inter':
        t = t[1]
    segs = t[1:] if t[0] in ('list', 'tuple') else t[2] if t[0] == 'dict' else None
    if segs is None or depth > 12:
        return [(('elem', '$', t), ())]
    out = []
    if t[0] == 'tuple':
        return [(v, ()) for v in segs]
    if t[0] == 'dict' and t[1]:
        out.extend(paths(A, t[1], depth + 1))
    for s in segs:
        out.extend(seg_paths(A, s, depth))
    return out


def seg_paths(A, s, depth):
    if s[0] in ('item', 'set'):
        return [(s[1], ())]
    if s[0] in ('all', 'upd'):
        return paths(A, s[1], depth + 1)
    if s[0] != 'many':
        return [(('opaque', 'segment'), ())] if s[0] != 'prev' else []
    out = []
    src = paths(A, s[2], depth + 1)
    el = ('elem', s[1], s[2])
    for d, ev, segs in A.alts[s[3]]:
        for seg in segs or ():
            for v, f in apart(seg_paths(A, seg, depth + 1), seg):
                for v0, f0 in src:
                    def it(x, v0=v0):
                        return v0 if x == el else x
                    out.append((subst(v, it), tuple(f0) + tuple((subst(a, it), w) for a, w in tuple(d) + tuple(f))))
                if len(out) > 400:
                    return out
    return out


def apart(found, seg):
    """The elements of a list that is added as a whole are not the ones the loop around it is about"""
    if seg[0] not in ('all', 'upd'):
        return found
    own = {y[1] for y in subterms(seg[1]) if y[0] == 'many'} | {'$'}

    def other(y):
        return ('elem', ('other', y[1]), y[2]) if y[0] == 'elem' and y[1] in own else y
    return [(subst(v, other), tuple((subst(a, other), w) for a, w in f)) for v, f in found]


def who(ctx, done):
    qual = WHO + '.process_request'
    R = ctx.run(qual, boundary=('trawl', 'get_verified_metadata', 'get_trust_chains', 'verify_trust_mark', 'do_request',
                                'TrustChainCollector.get_metadata',
                                'get_federation_entity'))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('trusted-anchor', qual, None, 'exploration limit')
        return
    n = 0
    ta = sym_('trust_anchor')
    for e in calls(R, 'do_request'):
        a = [(k, norm(v)) for k, v in e.args if k != 'self' and isinstance(v, tuple)]
        if arg(a, 0, 'request_type') != C('list'):
            continue
        n += 1
        view = View(A, list(e.facts.items()))
        t = arg(a, 1, 'entity_id')
        ok = None
        if t is not None:
            m = mine(view, t)
            trusted = view.any(lambda f, w: w and f[0] == 'in' and f[1] == t and mentions(f[2], is_anchors))
            own_ = view.any(lambda f, w: w and f[0] == 'eq' and t in f[1:] and any(y != t and mine(view, y) for y in f[1:] if isinstance(y, tuple)))
            ok = True if m or trusted or own_ else True if t[0] == 'elem' and mentions(t, is_anchors) else None if view.any(
                lambda f, w: f[0] not in ('truthy', 'none', 'eq', 'in') and mentions(f, t)) or unsure_about(view, t) else False
        uniq(ctx, 'trusted-anchor', done, qual, ok, 'an entity that is not a trusted trust anchor is asked for its subordinates', e.where,
             fpath(e.facts.items()))
    if not n:
        ctx.ob('trusted-anchor', qual, None, 'nobody is asked')
    n = 0
    for x, v in R.returns():
        if v[0] != 'dict':
            continue
        ra = next(lookup(A, v, C('response_args')), (None, ()))[0]
        if not isinstance(ra, tuple):
            uniq(ctx, 'verified-metadata', done, qual, None, 'the response is not known')
            continue
        got = raw_of(raw_of(v, 'response_args'), 'entities_to_use')
        if got is None:
            uniq(ctx, 'verified-metadata', done, qual, None, 'the response is not known')
            continue
        n += 1
        for val, facts in paths(A, got):
            eid = norm(val)
            view = R.view(x, [(norm(a), w) for a, w in facts])
            path = R.path(x)[-6:] + fpath(facts)[-8:]
            same_as = [eid] + [y for a, w in view.facts.items() if w and a[0] == 'eq' and eid in a[1:] for y in a[1:] if y != eid]
            uniq(ctx, 'verified-metadata', done, qual, best(wanted_type(A, view, y) for y in same_as),
                 'an entity without verified metadata for the credential type is reported', R.where(x), path)
            uniq(ctx, 'verified-mark', done, qual, best(wanted_mark(A, view, y) for y in same_as),
                 'an entity without a verified trust mark of that kind about itself is reported', R.where(x), path)
    if not n:
        ctx.ob('verified-metadata', qual, None, 'nothing is reported')


def best(oks):
    oks = list(oks)
    return True if True in oks else None if None in oks else False


def sym_(n):
    return ('sym', n)


def raw_of(t, key):
    if t is None or t[0] != 'dict':
        return None
    for s in reversed(t[2]):
        if s[0] == 'set' and s[1] == C(key):
            return s[2]
    return None


def is_anchors(y):
    return y[0] == 'attr' and y[2] == 'trust_anchors' or y[0] == 'up' and 'trust_anchors' in y[1:] or last(y) == 'trust_anchors' or \
        last(y) in ('get_attribute', 'upstream_get') and any(v == C('trust_anchors') for k, v in y[2])


def is_setting(t, name):
    """The value in the request or the one that is configured"""
    return t == q(name) or t[0] == 'attr' and t[2] == name


def verified_of(t, eid):
    return last(t) == 'get_verified_metadata' and arg([a for a in t[2] if a[0] != 'self'], 0, 'entity_id') == eid


def wanted_type(A, view, eid):
    hits = [a for a, w in view.facts.items() if w and a[0] == 'in' and is_setting(a[1], 'credential_type') and mentions(
        a[2], lambda y: verified_of(y, eid))]
    if hits:
        return True
    if view.any(lambda a, w: w and a[0] in ('in', 'eq', 'anyall', 'exists') and mentions(a, lambda y: is_setting(y, 'credential_type')) and mentions(
            a, lambda y: verified_of(y, eid))):
        return None
    if opaque_in([(a, w) for a, w in view.facts.items() if mentions(a, eid) and not known_calls(a)]) or eid[0] == 'opaque':
        return None
    return False


def known_calls(a):
    return not any(y[0] in ('opaque', 'phi', 'lo', 'lv') for y in subterms(a)) and all(last(y) in (
        'get_verified_metadata', 'get_metadata', 'get_trust_chains', 'verify_trust_mark', 'do_request', 'trawl', 'get', 'get_payload', 'factory') for y in subterms(a) if y[0] == 'call')


def wanted_mark(A, view, eid):
    names = [y for a, w in view.facts.items() for y in subterms(a) if is_setting(y, 'trust_mark_id')]
    if any(view.know(a_truthy(q_)) is False for q_ in names):
        # the first that is set counts
        if not any(view.know(a_truthy(q_)) is True for q_ in names):
            return True
    marks = {y for a, w in view.facts.items() for y in subterms(a) if last(y) == 'verify_trust_mark'}
    ok = False
    for m in marks:
        i = any(view.know(a_eq(item(m, C('id')), n)) is True or view.know(a_eq(item(m, C('trust_mark_id')), n)) is True for n in names)
        s = view.know(a_eq(item(m, C('sub')), eid)) is True or view.know(a_none(eid)) is True
        if i and s:
            chk = arg([a for a in m[2] if a[0] != 'self'], 1, 'check_with_issuer')
            return False if chk is not None and chk[0] == 'const' and not chk[2] else True
        if view.any(lambda a, w: w and a[0] not in ('truthy', 'none', 'eq', 'in') and mentions(a, m) or a[0] == 'truthy' and mentions(
                a, m) and not known_calls(a)):
            ok = None
    if not marks and opaque_in([(a, w) for a, w in view.facts.items() if mentions(a, eid) and not known_calls(a)]) or eid[0] == 'opaque':
        return None
    return ok


def c32(ctx):
    done = set()
    ctx.part(who, done)
