"""What is in the statements that are issued (C30)."""
import ast

from .endpoints import *
from .endpoints import CONFIGURATION, CREATE, FE_ID

CTX = 'fedservice.entity.context.FederationContext'
CREG = ('fedservice.appclient.oidc.registration.Registration', 'fedservice.appclient.oauth2.registration.Registration')


def sym(n):
    return ('sym', n)


def private(t):
    """Does an export ask for the private keys?"""
    for y in subterms(t):
        if y[0] == 'call' and last(y) in ('export_jwks', 'export_jwks_as_json', 'serialize', 'export_private_jwks'):
            if 'private' in last(y):
                return True
            a = [(k, v) for k, v in y[2] if k != 'self']
            v = arg(a, 0, 'private')
            if v is not None and v not in (C(False), NONE, C(0), C('')):
                return True
    return False


def public_keys_of(t, kj):
    """Are they the public keys in the key jar (and those of the owner of it)?"""
    if last(t) != 'export_jwks':
        return None
    a = dict(t[2])
    if a.get('self') != kj or private(t):
        return False
    whose = arg([(k, v) for k, v in t[2] if k != 'self'], 1, 'issuer_id')
    if whose not in (None, NONE, C(''), sym('iss')):
        # Keys of others that happen to be in the key jar
        return False if whose == sym('sub') else None
    return True


def packed(ctx, done):
    qual = CREATE
    R = ctx.run(qual)
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('statement', qual, None, 'exploration limit')
        return
    n = 0
    kw = sym('kwargs')
    for x, v in R.returns():
        v = norm(v)
        n += 1
        view = R.view(x)
        path, where = R.path(x), R.where(x)

        def ob(rule, ok, why):
            uniq(ctx, rule, done, qual, ok, why, where, path)
        if last(v) != 'pack':
            ob('signed', None if about(v) else False, 'what is returned is not a signed JSON Web Token')
            continue
        a = dict(v[2])
        me, payload = a.get('self'), arg([y for y in v[2] if y[0] != 'self'], 0, 'payload')
        if me is None or me[0] != 'extobj' or payload is None:
            ob('signed', None, 'how it is signed is not known')
            continue
        j = dict(me[2])
        ob('signed', worst(j.get('key_jar') == sym('key_jar') or (None if about(j.get('key_jar', NONE)) else False),
                           j.get('iss') == sym('iss') or (None if about(j.get('iss', NONE)) else False)) and
           j.get('sign', C(True)) not in (C(False),), 'a statement that is not signed by the issuer with its keys')
        life = j.get('lifetime')
        for k, w in v[2]:
            if k in ('ttl', 'lifetime'):
                life = w
        ob('expires', True if life == sym('lifetime') or life is not None and life[0] == 'const' and life[2] and life[2] > 0 else
           True if life is not None and mentions(life, sym('lifetime')) and view.know(a_truthy(life)) is not False and positive(life)
           else None if life is not None and (about(life) or mentions(life, sym('lifetime'))) else False,
           'a statement without an expiration time')
        ob('no-private-keys', False if private(payload) else True, 'private keys are put in a statement')
        for key in ('sub', 'metadata', 'metadata_policy', 'authority_hints', 'aud', 'constraints', 'jwks'):
            p = sym(key)
            ok = True
            for val, facts in lookup(A, payload, C(key), (), view):
                ok = worst(ok, claim(view.plus(facts), key, p, val, kw))
            ob('claims' if key != 'jwks' else 'keys-of-subject', ok, f'{key} in the statement is not what was asked for')
        for key in ('trust_marks', 'crit'):
            val = next(lookup(A, payload, C(key)), (None, ()))[0]
            ok = True if val == item(kw, C(key)) or view.know(a_truthy(kw)) is False else None if val == 'unknown' or val is not None and about(
                val) else False
            ob('claims', ok, 'the other claims are left out of the statement')
    if not n:
        ctx.ob('signed', qual, None, 'nothing is returned')


def positive(t):
    return t[0] in ('max', 'min', 'call', 'or', 'lin')


def claim(view, key, p, val, kw):
    """Is the value of the claim the one that was given?"""
    if val == 'unknown':
        return None
    if val is None or val == item(kw, C(key)) and key not in ('jwks',):
        # not there
        if val is not None and view.know(a_in(C(key), kw)) is None and key in (
                'sub', 'metadata', 'metadata_policy', 'authority_hints', 'aud', 'constraints'):
            return True  # a parameter of its own, never among the others
        if key == 'sub':
            return False
        if key == 'jwks':
            return True if view.know(a_truthy(sym('include_jwks'))) is False else False
        if view.know(a_truthy(p)) is False or view.know(a_none(p)) is True:
            return True
        return None if unsure_of(view, p) else False
    if key == 'jwks':
        if val == item(kw, C('jwks')):
            w = view.know(a_in(C('jwks'), kw))
            return True if w is not False else False
        if mentions(val, kw):
            return None
        ok = public_keys_of(val, sym('key_jar'))
        if ok is True:
            given_ = view.know(a_in(C('jwks'), kw))
            if given_ is False or view.know(a_truthy(kw)) is False or view.know(a_truthy(item(kw, C('jwks')))) is False:
                return True
            return False if given_ is True or not unsure_of(view, kw) else None
        return ok if ok is not None or about(val) else False
    if val == p or last(val) in ('copy', 'deepcopy', 'list', 'dict') and any(v == p for k, v in val[2]):
        return True
    if key == 'authority_hints' and val[0] == 'call' and val[2] and dict(val[2]).get('self') == p:
        return True
    return None if about(val) else False


def unsure_of(view, p):
    return view.any(lambda a, w: a[0] not in ('truthy', 'none', 'in') and mentions(a, p))


def context_statement(ctx, done):
    qual = CTX + '.create_entity_statement'
    R = ctx.run(qual, boundary=('fedservice.entity_statement.create.create_entity_statement',))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('statement', qual, None, 'exploration limit')
        return
    n = 0
    kw = sym('kwargs')
    for e in calls(R, 'create_entity_statement'):
        n += 1
        view = View(A, list(e.facts.items()))
        a = [(k, norm(v)) for k, v in e.args if k != 'self' and isinstance(v, tuple)]
        path = fpath(e.facts.items())

        def ob(rule, ok, why):
            uniq(ctx, rule, done, qual, ok, why, e.where, path)
        for i, key in enumerate(('iss', 'sub', 'key_jar', 'metadata', 'metadata_policy', 'authority_hints')):
            v = arg(a, i, key)
            p = sym(key)
            ok = v == p or v is not None and mentions(v, p)
            if not ok and key == 'key_jar':
                ok = v is not None and (view.know(a_truthy(p)) is False or view.know(a_none(p)) is True) and (
                    True if v[0] == 'up' or v[0] == 'attr' and v[2] == 'keyjar' else None if about(v) else False)
            elif not ok and key == 'authority_hints':
                ok = (view.know(a_truthy(p)) is False or view.know(a_none(p)) is True) and (
                    True if v is None or v[0] == 'attr' and v[2] == 'authority_hints' or last(v) == 'get_authority_hints' else None)
            elif not ok and v is None and key in ('metadata', 'metadata_policy'):
                ok = view.know(a_truthy(p)) is False
            ob('claims', ok if ok is not False else None if v is not None and about(v) else False,
               f'{key} of the statement is not what was asked for')
        life = arg(a, 6, 'lifetime')
        p = sym('lifetime')
        if life is None or life == p:
            known = view.know(a_truthy(p))
            ok = True if life is None else True if known is True else False
        else:
            ok = True if (view.know(a_truthy(p)) is False and life[0] == 'attr' and 'lifetime' in life[2]) or mentions(
                life, p) and mentions(life, lambda y: y[0] == 'attr' and 'lifetime' in str(y[2])) else False if life[0] == 'const' and not (
                life[2] and life[2] > 0) else None if about(life) else False
        ob('expires', ok, 'a statement without an expiration time')
        tm = next(given(A, a, 'trust_marks'), (None, ()))[0]
        own_tm = item(kw, C('trust_marks'))
        if tm == own_tm and (view.know(a_truthy(tm)) is not True or view.know(a_in(C('trust_marks'), kw)) is False):
            tm = None
        if tm is None or tm == 'unknown':
            ob('trust-marks', None if tm is not None else no_marks(view), 'a statement without the trust marks')
        else:
            ob('trust-marks', True if mentions(tm, is_marks) or mentions(tm, kw) else None, '')
        jw = sym('jwks')
        ok = True
        got = list(given(A, a, 'jwks'))
        for v, facts in got or [(None, ())]:
            w = view.plus(facts)
            asked = w.know(a_truthy(jw))
            if v == 'unknown':
                ok = worst(ok, None)
            elif v == jw:
                pass
            elif asked is False or w.know(a_none(jw)) is True:
                ok = worst(ok, True if v is None or v == item(kw, C('jwks')) or mentions(v, item(kw, C('keys'))) else
                           False if private(v) else None if about(v) else False)
            else:
                ok = worst(ok, None if v is not None and mentions(v, jw) else False)
        ob('keys-of-subject', ok, 'the keys in the statement are not those given for the subject')
    if not n:
        ctx.ob('signed', qual, None, 'no statement is created')


def configuration(ctx, done, qual, registration=False):
    R = ctx.run(qual, boundary=('create_entity_statement',)) if not registration else ctx.run(
        qual, boundary=('FederationContext.create_entity_statement', 'fedservice.entity_statement.create.create_entity_statement',
                        'get_metadata', 'get_federation_entity'))
    A = R.A
    norm = norm_of(A)
    if R.limit:
        ctx.ob('about-itself', qual, None, 'exploration limit')
        return
    n = 0
    for e in calls(R, 'create_entity_statement'):
        if e.stack and e.stack[-1].endswith('FederationContext.create_entity_statement'):
            continue
        n += 1
        view = View(A, list(e.facts.items()))
        a = [(k, norm(v)) for k, v in e.args if k != 'self' and isinstance(v, tuple)]
        path = fpath(e.facts.items())

        def ob(rule, ok, why):
            uniq(ctx, rule, done, qual, ok, why, e.where, path)
        iss, sub = arg(a, 0, 'iss'), arg(a, 1, 'sub')
        for v in (iss, sub):
            m = mine(view, v)
            if m is None and v is not None and v[0] == 'item' and mentions(v, is_hints):
                m = False
            ob('about-itself', m, 'the entity configuration is not issued by the entity and about itself')
        kj = arg(a, 2, 'key_jar')
        ob('own-keys', (None if not registration else True) if kj is None else True if own_keyjar(kj) else
           False if kj[0] == 'extobj' or kj == NONE else None, 'the entity configuration is not signed with the federation keys')
        md = arg(a, 3, 'metadata')
        ob('own-metadata', False if md is None or md[0] in ('const', 'dict') and not mentions(md, is_metadata) else
           False if not registration and md[0] == 'dict' and md[1] is None and md[2] and all(
               x[0] == 'set' and x[1] == C('federation_entity') for x in md[2]) and view.know(
                   a_truthy(('attr', ('FE',), 'upstream_get'))) is not False else
           True if mentions(md, is_metadata) else None, 'the entity configuration is without the metadata of the entity')
        ah = arg(a, 5, 'authority_hints')
        ob('authority-hints', True if ah is not None and mentions(ah, is_hints) else True if ah is None and registration else
           None if ah is not None and about(ah) else False, 'the entity configuration is without the authority hints')
        tm = list(given(A, a, 'trust_marks'))
        ok = True
        for v, f in tm or [(None, ())]:
            if v == 'unknown':
                ok = worst(ok, None)
            elif v is None:
                ok = worst(ok, True if registration else no_marks(view))
            else:
                ok = worst(ok, False if sliced(v) else True if mentions(v, is_marks) else None if about(v) else False)
        ob('trust-marks', ok, 'the entity configuration is without the trust marks of the entity')
        jw = list(given(A, a, 'jwks'))
        for v, f in jw:
            if v is None:
                continue
            ob('own-public-keys', None if v == 'unknown' else False if private(v) else None if last(v) != 'export_jwks' else
               own_keyjar(dict(v[2]).get('self', NONE)) or None, 'the keys in the entity configuration')
        if not [v for v, f in jw if v is not None]:
            ob('own-public-keys', True, '')
        life = arg(a, 6, 'lifetime')
        ob('expires', False if life is not None and life[0] == 'const' and not (life[2] and life[2] > 0) and not registration else True,
           'the entity configuration does not expire')
    if not n:
        ctx.ob('about-itself', qual, None, 'no entity configuration is created')
    if registration:
        return
    for x, v in R.returns():
        v = norm(v)
        if v == NONE or v[0] == 'const':
            continue
        uniq(ctx, 'about-itself', done, qual, True if any(last(y) == 'create_entity_statement' for y in subterms(v)) else
             None if about(v) else False, 'what is published is not the entity configuration', R.where(x), R.path(x))


def own_keyjar(t):
    return t == ('up', 'attribute', 'keyjar') or t[0] == 'attr' and t[2] == 'keyjar' or last(t) in ('get_attribute', 'upstream_get') and any(
        v == C('keyjar') for k, v in t[2])


def is_metadata(y):
    return y[0] == 'up' and 'metadata' in y[1:] or last(y) in ('get_metadata', 'upstream_get', 'get_server_metadata') and (
        last(y) != 'upstream_get' or any(v == C('metadata') for k, v in y[2]))


def is_hints(y):
    return y[0] == 'up' and 'authority_hints' in y[1:] or y[0] == 'attr' and y[2] == 'authority_hints' or last(y) in ('get_authority_hints', 'authority_hints') \
        or last(y) == 'upstream_get' and any(v == C('authority_hints') for k, v in y[2])


def no_marks(view):
    """Is it known that there are no trust marks?"""
    if view.any(lambda t, w: (not w and t[0] in ('truthy', 'some') or w and t[0] == 'none') and mentions(t, is_marks)):
        return True
    if any(view.know(a_truthy(y)) is False for t, w in view.facts.items() for y in subterms(t) if is_marks(y) or y[0] == 'call' and mentions(
            y, is_marks)):
        return True
    if view.any(lambda t, w: t[0] not in ('truthy', 'none', 'isinst', 'callable', 'in', 'completed', 'lt', 'le', 'eq') and mentions(t, is_marks)):
        return None
    return False


def sliced(v):
    """Some of the trust marks only?"""
    return v[0] == 'slice' and any(x not in (None, NONE) and (i == 1 or x not in (C(0), C(1)) or (i, x) == (0, C(1))) for i, x in enumerate(v[2:])) and mentions(
        v[1], is_marks)


def is_marks(y):
    return y[0] == 'attr' and y[2] == 'trust_marks' or last(y) in ('get_trust_marks', 'trust_marks')


def sites(ctx):
    """Every place where a statement is asked for."""
    n = 0
    for m in ctx.repo.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name == 'create_entity_statement':
                a = node.args
                names = [x.arg for x in a.args]
                for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                    site = f'{m.name}.{node.name} {nm}'
                    if nm == 'include_jwks':
                        ctx.ob('keys-of-subject', site, not (isinstance(d, ast.Constant) and not d.value) or False,
                               'the keys are not included unless asked for', f'{m.path}:{node.lineno}')
                    if nm == 'lifetime' and m.name == 'fedservice.entity_statement.create':
                        ctx.ob('expires', site, False if isinstance(d, ast.Constant) and not (d.value and d.value > 0) else True,
                               'no expiration time unless asked for', f'{m.path}:{node.lineno}')
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            where = f'{m.path}:{node.lineno}'
            site = f'{m.name} {name}'
            if name in ('export_jwks', 'export_jwks_as_json'):
                v = next((k.value for k in node.keywords if k.arg == 'private'), node.args[0] if node.args else None)
                ctx.ob('no-private-keys', site, True if v is None or isinstance(v, ast.Constant) and not v.value else
                       False if isinstance(v, ast.Constant) else None, 'private keys are exported', where)
            if name == 'create_entity_statement':
                n += 1
                ok, why = True, ''
                for k in node.keywords:
                    c = k.value
                    if k.arg in ('include_jwks',) and isinstance(c, ast.Constant) and not c.value:
                        ok, why = False, 'a statement without the keys of the subject'
                    if k.arg == 'lifetime' and isinstance(c, ast.Constant) and not c.value and isinstance(f, ast.Name):
                        ok, why = False, 'a statement without an expiration time'
                    if k.arg in ('keyjar', 'private_keys', 'keys_private'):
                        ok, why = False, 'a key jar is given as a claim in the statement'
                ctx.ob('no-private-keys' if 'key jar' in why else 'expires' if 'exp' in why else 'keys-of-subject', site, ok, why, where)
    if not n:
        ctx.ob('keys-of-subject', 'create_entity_statement', None, 'never called')


COMBO = 'fedservice.combo.FederationCombo'
ROLES = ('fedservice.entity.FederationEntity', 'fedservice.appserver.ServerEntity')


def left_out(view, facts):
    """May a part be without metadata: it has none, or it stands for many?"""
    fs = list(facts.items() if hasattr(facts, 'items') else facts)
    for a, w in fs:
        if a[0] == 'isinst' and w and str(a[2]).endswith('RPHandler'):
            return True
        if a[0] == 'hasattr' and not w and a[2] in ('get_metadata', C('get_metadata')):
            return True
        if a[0] in ('truthy', 'callable') and not w or a[0] == 'none' and w:
            if a[1][0] == 'attr' and a[1][2] == 'get_metadata' or last(a[1]) == 'getattr' and mentions(a[1], C('get_metadata')):
                return True
    simple = all(a[0] in ('isinst', 'hasattr', 'truthy', 'none', 'callable', 'eq', 'in', 'completed') for a, w in fs)
    return False if simple and not any(a[0] == 'truthy' and a[1][0] == 'call' for a, w in fs) else None


def every_type(ctx, done):
    """The metadata of a combination is that of every part of it, under the type of the part."""
    qual = COMBO + '.get_metadata'
    R = ctx.run(qual)
    A, norm = R.A, norm_of(R.A)
    if R.limit:
        ctx.ob('every-entity-type', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        v = norm(v)
        n += 1
        why = 'the metadata of one of the entity types is left out'
        if v[0] != 'lo':
            ok = False if v[0] == 'const' or v == ('dict', None, ()) else None
            uniq(ctx, 'every-entity-type', done, qual, ok, why, R.where(x), R.path(x))
            continue
        for facts, events, val in A.alts[v[3]]:
            if not isinstance(val, tuple):
                continue
            val = norm(val)
            got = [y for y in subterms(val) if last(y) == 'get_metadata']
            if not got:
                ok = None if val[0] == 'dict' and any(s[0] in ('upd', 'set', 'many') for s in val[2]) else left_out(R.view(x), facts)
            elif last(val) == 'get_metadata':
                ok, why = False, 'the metadata of the last of the entity types is all there is'
            else:
                ok = True
                for y in got:
                    a = dict(y[2])
                    t = arg([(k, w) for k, w in y[2] if k != 'self'], 0, 'entity_type')
                    part = a.get('self', NONE)
                    if t is not None and t[0] == 'const' and t[2] and (part[0] == 'elem' or part[0] == 'item' and part[2][0] == 'elem'):
                        ok, why = False, 'the metadata is given as that of another entity type'
                if not any(s[0] in ('upd', 'set') for s in (val[2] if val[0] == 'dict' else ())):
                    ok = worst(ok, None)
            path = fpath(facts.items() if hasattr(facts, 'items') else facts)
            uniq(ctx, 'every-entity-type', done, qual, ok, why, R.where(x), path)
    if not n:
        ctx.ob('every-entity-type', qual, None, 'nothing is returned')


def own_part(ctx, done, cls):
    """The metadata of a part: what it supports, and where its endpoints are."""
    qual = cls + '.get_metadata'
    R = ctx.run(qual)
    A, norm = R.A, norm_of(R.A)
    if R.limit:
        ctx.ob('every-entity-type', qual, None, 'exploration limit')
        return
    n = 0
    for x, v in R.returns():
        v = norm(v)
        view, where, path = R.view(x), R.where(x), R.path(x)
        n += 1
        if v[0] != 'dict' or v[1] is not None or len(v[2]) != 1 or v[2][0][0] != 'set':
            bare = last(v) == 'get_server_metadata' or v[0] == 'dict' and isinstance(v[1], tuple) and last(v[1]) == 'get_server_metadata'
            uniq(ctx, 'every-entity-type', done, qual, False if bare or v in (NONE, ('dict', None, ())) else None,
                 'the metadata is not given per entity type', where, path)
            continue
        _, key, md = v[2][0]
        ok = True if key == sym('entity_type') or key[0] == 'attr' and key[2] in ('name', 'entity_type') and view.know(
            a_truthy(sym('entity_type'))) is False else False if view.know(a_truthy(sym('entity_type'))) is True and not about(
                key) else None
        if cls == ROLES[0] and key == C('federation_entity'):
            ok = None
        uniq(ctx, 'every-entity-type', done, qual, ok, 'the metadata is given as that of another entity type', where, path)
        src = [y for y in subterms(md) if last(y) == 'get_server_metadata']
        if not src:
            uniq(ctx, 'own-endpoints', done, qual, None if about(md) else False, 'the metadata is not what the entity supports', where, path)
        for y in src:
            ep = arg([(k, w) for k, w in y[2] if k != 'self'], 0, 'endpoints')
            if ep is not None and ep[0] != 'slice' and mentions(ep, lambda z: z[0] == 'attr' and z[2] == 'endpoint'):
                ok = True
            elif ep is None or ep[0] in ('const', 'slice') or ep == ('list',) or ep == ('dict', None, ()):
                server = [z for a, w in view.facts.items() for z in subterms(a) if z[0] == 'attr' and z[2] == 'server']
                ok = any(view.know(a_truthy(z)) is False or view.know(a_none(z)) is True for z in server) and ep is not None and ep[0] != 'slice'
            else:
                ok = None
            uniq(ctx, 'own-endpoints', done, qual, ok, 'the endpoints of the entity are not in its metadata', where, path)
        if cls == ROLES[1]:
            iss = [s[2] for s in (md[2] if md[0] == 'dict' else ()) if s[0] == 'set' and s[1] == C('issuer')]
            known = [w for a, w in view.facts.items() if a[0] == 'in' and a[1] == C('issuer')]
            if iss:
                ok = True if mentions(iss[-1], lambda z: z[0] == 'attr' and z[2] == 'entity_id' or z[0] == 'up' and 'entity_id' in z) else \
                    False if not about(iss[-1]) else None
            elif True in known:
                ok = False
            else:
                ok = True if False in known else None if mentions(md, C('issuer')) or md[0] != 'call' else False
            uniq(ctx, 'issuer-is-entity', done, qual, ok, 'the issuer in the metadata is not the entity identifier', where, path)
    if not n:
        ctx.ob('every-entity-type', qual, None, 'nothing is returned')


def c30(ctx):
    done = set()
    ctx.part(every_type, done)
    for c in ROLES:
        ctx.part(own_part, done, c)
    ctx.part(packed, done)
    ctx.part(context_statement, done)
    ctx.part(configuration, done, CONFIGURATION + '.process_request')
    for c in CREG:
        ctx.part(configuration, done, c + '.create_entity_statement', True)
    ctx.part(sites)
