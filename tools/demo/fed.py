"""A little federation in memory, for demonstrations."""
import logging
import os
import sys
import time
from urllib.parse import parse_qs
from urllib.parse import urlsplit

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fs_shim  # noqa: E402,F401

logging.disable(logging.CRITICAL)

from cryptojwt import JWS  # noqa: E402
from cryptojwt.jwk.ec import new_ec_key  # noqa: E402

WELL_KNOWN = '/.well-known/openid-federation'
WEEK = 7 * 24 * 3600


def now():
    return int(time.time())


def new_key(kid):
    return new_ec_key('P-256', kid=kid, use='sig')


def jwks(*keys):
    return {'keys': [k.serialize(private=False) for k in keys]}


def sign(claims, key, typ='entity-statement+jwt', kid=None, **headers):
    import json
    _jws = JWS(json.dumps(claims), alg='ES256', typ=typ, kid=kid or key.kid, **headers)
    return _jws.sign_compact([key])


class Response:
    def __init__(self, text='', status=200, typ='application/entity-statement+jwt'):
        self.text, self.status_code, self.headers = text, status, {'Content-Type': typ}
        self.content = text.encode()
        self.url = ''
        self.reason = ''

    def json(self):
        import json
        return json.loads(self.text)


class Node:
    """One entity in the federation."""

    def __init__(self, eid, hints=(), metadata=None, **claims):
        self.id = eid
        self.key = new_key(eid.rsplit('/', 1)[-1])
        self.hints = list(hints)
        self.metadata = metadata or {}
        self.claims = claims  # extra claims in the entity configuration
        self.about = {}  # sub -> extra claims in the statement about it
        self.exp = now() + WEEK
        self.sub_exp = {}

    def configuration(self, **extra):
        md = {'federation_entity': {'federation_fetch_endpoint': self.id + '/fetch'}}
        md.update(self.metadata)
        c = {'iss': self.id, 'sub': self.id, 'iat': now() - 60, 'exp': self.exp, 'jwks': jwks(self.key), 'metadata': md}
        if self.hints:
            c['authority_hints'] = self.hints
        c.update(self.claims)
        c.update(extra)
        return sign(c, self.key)

    def statement(self, sub, key=None, **extra):
        c = {'iss': self.id, 'sub': sub.id, 'iat': now() - 60, 'exp': self.sub_exp.get(sub.id, now() + WEEK),
             'jwks': jwks(sub.key)}
        c.update(self.about.get(sub.id, {}))
        c.update(extra)
        return sign(c, key or self.key)


class Net:
    """Answers HTTP requests to the entities."""

    def __init__(self, *nodes):
        self.nodes = {n.id: n for n in nodes}
        self.log = []
        self.pages = {}  # url -> Response or function

    def __call__(self, method, url, **kwargs):
        self.log.append(url)
        p = self.pages.get(url)
        if p is not None:
            return p() if callable(p) else p
        u = urlsplit(url)
        base = f'{u.scheme}://{u.netloc}{u.path}'
        if base.endswith(WELL_KNOWN):
            n = self.nodes.get(base[:-len(WELL_KNOWN)])
            return Response(n.configuration()) if n else Response('', 404)
        if base.endswith('/fetch'):
            n = self.nodes.get(base[:-len('/fetch')])
            sub = self.nodes.get(parse_qs(u.query).get('sub', [''])[0])
            return Response(n.statement(sub)) if n and sub else Response('', 404)
        return Response('', 404)


def entity(eid, anchors, net=None, **kwargs):
    """A federation entity of this code base that trusts `anchors` (nodes)."""
    from fedservice.utils import make_federation_entity
    kw = dict(key_config={'key_defs': [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}]}, preference={},
              trust_anchors={a.id: jwks(a.key) for a in anchors})
    kw.update(kwargs)
    fe = make_federation_entity(entity_id=eid, **kw)
    if net is not None:
        units = [fe, fe.client, fe.server, fe.function] + list(getattr(fe.function, '_part', {}).values())
        for u in units:
            if u is not None and hasattr(u, 'httpc'):
                u.httpc = net
    return fe


def chains(fe, eid, stop_at=''):
    """Collected and verified trust chains."""
    from fedservice.entity.function import collect_trust_chains
    from fedservice.entity.function import verify_trust_chains
    cs, ec = collect_trust_chains(fe, eid, stop_at=stop_at)
    return verify_trust_chains(fe, cs, ec)


def verify(fe, tokens):
    """Verify a trust chain given as signed statements, trust anchor first."""
    return fe.function.verifier(tokens)
