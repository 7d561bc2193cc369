"""When clients are registered automatically, and what becomes of those that are (C39)."""
import ast

from .base import *
from .abstract import about
from .collector import covered
from .collector import fpath
from .collector import uniq
from .marks import arg
from .metadata import args_of
from .metadata import last
from .metadata import worst
from .registration import AUTOMATIC
from .registration import auto_call
from .registration import calls
from .registration import is_cdb
from .registration import params
from .registration import value_of

FLAG = C('automatic_registered')
TYPES = C('client_registration_types_supported')


def announced(view):
    """Is automatic registration among what the OP/AS says it supports?"""
    if view.any(lambda a, w: w and a[0] == 'truthy' and a[1][0] == 'inter' and mentions(a, TYPES) and any(
            x in (('list', ('item', C('automatic'))), ('set', ('item', C('automatic')))) for x in a[1][1:]) or w and a[0] in ('in', 'exists') and mentions(a, C('automatic')) and mentions(a, TYPES)
                or w and a[0] == 'eq' and C('automatic') in a[1:] and mentions(a, TYPES)):
        return True
    return None if view.any(lambda a, w: mentions(a, TYPES) and (a[0] not in ('in', 'none', 'truthy') or mentions(
        a, lambda y: y[0] in ('opaque', 'phi', 'lo', 'lv')))) else False


def info_of(t, cid):
    """What the client database has about the client"""
    return t[0] in ('item', 'get') and len(t) >= 3 and is_cdb(t[1]) and t[2] == cid


def unknown(view, cid):
    """Is there nothing in the client database about the client, or something that was registered automatically?"""
    if view.any(lambda a, w: a[0] == 'none' and w and info_of(a[1], cid) or a[0] == 'truthy' and not w and info_of(a[1], cid)
                or a[0] == 'in' and not w and a[1] == cid and is_cdb(a[2])):
        return True
    return flagged(view, cid) is True


def flagged(view, cid):
    for a, w in view.facts.items():
        if a[0] == 'in' and a[1] == FLAG and info_of(a[2], cid):
            return w
        if a[0] in ('truthy', 'none') and a[1][0] in ('item', 'get') and a[1][2] == FLAG and info_of(a[1][1], cid):
            return w == (a[0] == 'truthy')
        if a[0] == 'eq' and C(True) in a[1:] and any(y[0] in ('item', 'get') and y[2] == FLAG and info_of(y[1], cid) for y in a[1:]):
            return w
    return None


def murky(view, cid):
    return view.any(lambda a, w: a[0] not in ('in', 'none', 'truthy', 'eq', 'completed', 'isinst') and mentions(a, cid) or
                    mentions(a, lambda y: y[0] in ('opaque', 'phi')) and mentions(a, cid) or a[0] == 'truthy' and a[1][0] == 'call'
                    and last(a[1]) not in ('do_automatic_registration', 'get') and mentions(a, cid))


def when(ctx, done, cls):
    """Clients are only registered automatically if that is supported, and they are not registered already."""
    for m, who in (('client_authentication', None), ('find_client_keys', 0)):
        qual = f'{cls}.{m}'
        par = ('sym', params(ctx, qual)[0])
        R = ctx.run(qual, boundary=('do_automatic_registration', 'get_endpoint'))
        if R.limit:
            ctx.ob('supported', qual, None, 'exploration limit')
            continue
        A = R.A
        norm = norm_of(A)
        cid = par if who == 0 else ('item', par, C('client_id'))
        n = 0
        for e in calls(R, 'do_automatic_registration'):
            n += 1
            view = View(A, list(e.facts.items()))
            uniq(ctx, 'supported', done, qual, announced(view), 'a client is registered automatically though that is not supported',
                 e.where, fpath(e.facts.items()))
            if who is None:
                uniq(ctx, 'not-registered', done, qual, True if unknown(view, cid) else None if murky(view, cid) else False,
                     'a client that has been registered in another way is registered automatically', e.where, fpath(e.facts.items()))
        if not n:
            ctx.ob('supported', qual, None, 'nothing is registered')
        kept(ctx, done, R, qual, cid)
        if cls == AUTOMATIC[0]:
            anew(ctx, done, R, qual, cid, cls)


def kept(ctx, done, R, qual, cid):
    """What is changed in the client database is only about the client."""
    A = R.A
    norm = norm_of(A)
    for e in A.log:
        d = dict(e.args)
        t = d.get('target')
        if e.kind == 'setattr' and e.name == 'cdb':
            uniq(ctx, 'others-kept', done, qual, False, 'the client database is replaced', e.where, fpath(e.facts.items()))
        if e.kind != 'mut' or t is None:
            continue
        view = View(A, list(e.facts.items()))
        path = fpath(e.facts.items())
        t = norm(t)
        if is_cdb(t):
            k = d.get('key', d.get('0'))
            k = norm(k) if isinstance(k, tuple) else None
            if e.name in ('del', 'pop'):
                uniq(ctx, 'others-kept', done, qual, None if k is None or murky(view, cid) else k == cid and unknown(view, cid),
                     'the registration of a client that was registered in another way is removed', e.where, path)
            elif e.name == '[]=':
                v = norm(d['value'])
                while v[0] in ('dict', 'fresh') and v[1]:
                    v = v[1]
                reg = v[2] if v[0] in ('item', 'get') and is_cdb(v[1]) else None
                ok = k in (cid, norm(reg) if reg else 0) and reg is not None and auto_call(norm(reg), cid)
                uniq(ctx, 'same-client', done, qual, True if ok else None if k is None or about(v) and reg is None else False,
                     'what is registered about another client is kept as being about this one', e.where, path)
            else:
                uniq(ctx, 'others-kept', done, qual, None if e.name == 'update' else False, 'the client database is changed', e.where, path)
        elif e.name == '[]=' and d.get('key') == C('client_id') and t[0] in ('sym', 'dict', 'fresh'):
            v = norm(d['value'])
            uniq(ctx, 'same-client', done, qual, True if v == cid or auto_call(v, cid) else None if about(v) and v[0] != 'item' else False,
                 'the request is made to be that of another client', e.where, path)


def anew(ctx, done, R, qual, cid, cls):
    """A client that was registered automatically is marked as such, and is registered anew."""
    A = R.A
    norm = norm_of(A)
    marks = {}
    for e in A.log:
        d = dict(e.args)
        if e.kind == 'mut' and isinstance(d.get('target'), tuple):
            t = norm(d['target'])
            while t[0] in ('dict', 'fresh') and t[1]:
                t = t[1]
            if t[0] in ('item', 'get') and is_cdb(t[1]) and (e.name == '[]=' and d['key'] == FLAG or e.name in ('update', 'setdefault')
                                                            and mentions(e.args, FLAG)):
                marks.setdefault(norm(t[2]), []).append(e)

    def marked(view, reg):
        return covered(marks.get(norm(reg), ()), view)

    def got(view):
        return {norm(y) for a, w in view.facts.items() for y in subterms(a) if auto_call(norm(y), cid)}
    for e in calls(R, 'client_authentication'):
        if e.name.startswith(cls):
            continue
        view = View(A, list(e.facts.items()))
        path = fpath(e.facts.items())
        regs = got(view)
        for reg in regs:
            uniq(ctx, 'marked', done, qual, marked(view, reg), 'a client that has been registered automatically is not marked as such',
                 e.where, path)
        if not regs:
            f = flagged(view, cid)
            uniq(ctx, 'anew', done, qual, True if f is False or view.any(lambda a, w: a[0] in ('none', 'truthy') and w == (
                a[0] == 'none') and info_of(a[1], cid)) else False if f or not murky(view, cid) else None,
                'a client that was registered automatically is not registered anew', e.where, path)
    if not qual.endswith('client_authentication'):
        for x, v in R.returns():
            v = norm(v)
            view = R.view(x)
            if auto_call(v, cid) and view.know(a_none(v)) is not True and view.know(a_truthy(v)) is not False:
                uniq(ctx, 'marked', done, qual, marked(view, v), 'a client that has been registered automatically is not marked as such',
                     R.where(x), R.path(x))


def about_any(y):
    return y[0] in ('opaque', 'phi', 'lo')


def told(ctx, done, cls):
    """The trust anchor in a response is that of a trust chain of the client."""
    qual = cls + '.extra_response_args'
    if 'extra_response_args' not in ctx.repo.cls(cls).methods:
        return
    R = ctx.run(qual, boundary=('pick_trust_chain', 'get_endpoint'))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('trust-anchor', qual, None, 'exploration limit')
        return
    cid = ('item', ('sym', 'kwargs'), C('client_id'))
    for e in A.log:
        d = dict(e.args)
        if e.kind != 'mut' or e.name != '[]=' or d.get('key') != C('trust_anchor_id'):
            continue
        v = norm(d['value'])
        ok = None
        if v[0] == 'attr' and v[2] == 'anchor':
            src = v[1]
            if last(src) == 'pick_trust_chain':
                src = arg(args_of(src), 0, 'trust_chains') or src
            own = [y for y in subterms(src) if y[0] in ('item', 'get') and y[1][0] == 'attr' and y[1][2] == 'trust_chain']
            ok = all(norm(y[2]) == cid for y in own) if own else None if mentions(src, cid) or mentions(src, about_any) else False
        elif not about(v) or v[0] in ('item', 'get', 'attr'):
            ok = False
        uniq(ctx, 'trust-anchor', done, qual, ok, 'the trust anchor in the response is not that of a trust chain of the client', e.where,
             fpath(e.facts.items()))


def handled_as(ctx, done, cls):
    """A request is handled as that of the client that was authenticated, under the identifier it is registered with."""
    init = ctx.repo.func(cls + '.__init__')
    hooks = [c.args[0].attr for c in ast.walk(init.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
             c.func.attr in ('append', 'insert', 'extend') and isinstance(c.func.value, ast.Attribute) and c.func.value.attr == 'post_parse_request'
             and c.args and isinstance(c.args[0], ast.Attribute)]
    hooks = [h for h in hooks if ctx.repo.has(cls + '.' + h)]
    if not hooks:
        plain = not any(isinstance(a, ast.Attribute) and a.attr == 'post_parse_request' for a in ast.walk(init.node))
        ctx.ob('handled-as', cls, False if plain else None, 'requests are handled as those of the client identifier in the request',
               f'{init.module.path}:{init.node.lineno}')
    for h in hooks:
        qual = f'{cls}.{h}'
        R = ctx.run(qual)
        norm = norm_of(R.A)
        ps = params(ctx, qual)
        for x, v in R.returns():
            v = norm(v)
            view = R.view(x)
            got = value_of(v, 'client_id')
            same_one = 'client_id' in ps and view.know(a_eq(('item', ('sym', ps[0]), C('client_id')), ('sym', 'client_id'))) is True
            if got == ('sym', 'client_id') or value_of(v, 'error') is not None or same_one:
                ok = True
            elif v == ('sym', ps[0]) or got is not None and (not about(got) or mentions(got, lambda y: y == ('sym', ps[0]))):
                ok = None if v == ('sym', ps[0]) and view.any(lambda a, w: mentions(a, ('sym', 'client_id'))) else False
            else:
                ok = None
            if ok is False and len(hooks) > 1:
                ok = None
            uniq(ctx, 'handled-as', done, qual, ok, 'the request is handled as that of another client identifier', R.where(x), R.path(x))


def c39(ctx):
    done = set()
    for cls in AUTOMATIC:
        ctx.part(when, done, cls)
        ctx.part(told, done, cls)
    for cls in AUTOMATIC[:2]:
        ctx.part(handled_as, done, cls)
