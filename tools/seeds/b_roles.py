TM = 'trust_mark_entity/__init__.py'
TE = 'trust_mark_entity/entity.py'
FN = 'entity/function/__init__.py'
FE = 'entity/__init__.py'
CR = 'entity_statement/create.py'
LI = 'entity/server/list.py'
FT = 'entity/server/fetch.py'
RS = 'entity/server/resolve.py'
ST = 'appclient/stand_alone_client_entity.py'
FED = """
ta = Node('https://ta.example.org')
im = Node('https://im.example.org', [ta.id])
rp = Node('https://rp.example.org', [im.id], metadata={'openid_relying_party': {'client_name': 'x', 'contacts': ['a']}})
me = 'https://me.example.org'
"""
SEEDS = [
 dict(id='c19-issued-since', property='C19',
      needs='a status request with an issue time that is later than that of the trust mark which was issued',
      breaks='a trust mark that was issued before the one asked about makes that one active',
      edits=[(TM, "                if iat == tmi['iat']:\n", "                if iat >= tmi['iat']:\n")],
      demo="""
import tempfile
from fedservice.trust_mark_entity import FileDB
with tempfile.TemporaryDirectory() as d:
    db = FileDB(**{'https://ta.example.org/tm': d + '/tm'})
    db.add({'id': 'https://ta.example.org/tm', 'sub': 'https://a.example.org', 'iat': 100})
    assert db.find('https://ta.example.org/tm', 'https://a.example.org', 100)
    assert not db.find('https://ta.example.org/tm', 'https://a.example.org', 200)
"""),
 dict(id='c20-kwargs-forever', property='C20',
      needs='a trust mark with an extra claim, of a kind that has a life time configured',
      breaks='trust marks with extra claims never expire',
      edits=[(TE, "        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)",
              "        content = self.trust_mark_specification[id].copy()\n        if kwargs:\n            content.update({'iat': _now, 'id': id, 'sub': sub}, **kwargs)\n        else:\n            content.update(_add)\n        self.issued.add(content)")],
      demo="""
from fedservice.trust_mark_entity.entity import TrustMarkEntity
from cryptojwt.jws.jws import factory
fe = entity('https://tmi.example.org', [], key_config={'key_defs': [{'type': 'RSA', 'use': ['sig']}]})
tme = TrustMarkEntity(upstream_get=fe.unit_get, trust_mark_specification={'https://t.example.org/tm': {'ref': 'x', 'lifetime': 600}})
for kw in ({}, {'logo_uri': 'https://t.example.org/logo'}):
    tm = factory(tme.create_trust_mark('https://t.example.org/tm', 'https://rp.example.org', **kw)).jwt.payload()
    assert 'exp' in tm, tm
"""),
 dict(id='c25-lowest-first', property='C25',
      needs='stored trust chains to more than one trust anchor and a priority list',
      breaks='with stored chains the trust anchor with the lowest priority is used',
      edits=[(FE, "            for ta_id in self.context.tr_priority:\n", "            for ta_id in reversed(self.context.tr_priority):\n")],
      demo="""
fe = entity('https://me.example.org', [])
fe.context.tr_priority = ['https://a.example.org', 'https://b.example.org', 'https://c.example.org']
fe.context.trust_chain = {'x': {'https://c.example.org': 'c', 'https://b.example.org': 'b'}}
assert fe.pick_from_stored_trust_chains('x') == 'b'
"""),
 dict(id='c30-bare-statement', property='C30',
      needs='a statement with constraints but no metadata',
      breaks='a statement about an entity without metadata has the keys of the issuer instead of those given for the subject',
      edits=[(CR, '        if "jwks" in kwargs:\n', '        if "jwks" in kwargs and metadata:\n')],
      demo="""
from cryptojwt.jws.jws import factory
from fedservice.entity_statement.create import create_entity_statement
fe = entity('https://ta.example.org', [], key_config={'key_defs': [{'type': 'RSA', 'use': ['sig']}]})
k = jwks(new_key('sub'))
for md in ({'federation_entity': {}}, None):
    p = factory(create_entity_statement('https://ta.example.org', 'https://s.example.org', fe.keyjar, metadata=md, jwks=k)).jwt.payload()
    assert p['jwks'] == k, p
"""),
 dict(id='c35-branch-ends', property='C35',
      needs='an entity with a superior that is a top entity itself, and with another superior after it',
      breaks='the superiors after one that is at the top are forgotten',
      edits=[(FN, "            res.append([statement])\n            continue\n", "            res.append([statement])\n            break\n")],
      demo="""
from fedservice.entity.function import tree2chains
t = {'leaf': ('L', {'ta1': ('A', {}), 'im': ('I', {'ta2': ('B', {})})})}
c = sorted(tree2chains(t))
assert c == [['A', 'L'], ['B', 'I', 'L']], c
"""),
 dict(id='c29-keys-of-others', property='C29',
      needs='a list request about trust marks, with more than one subordinate',
      breaks='the entity configurations of subordinates are used unverified, once one that verifies has been seen',
      edits=[(LI, "            _ec = _jwt.unpack(_entity_configuration)\n            sub[entity_id] = _ec\n",
              "            _ec = get_payload(_entity_configuration) if sub else _jwt.unpack(_entity_configuration)\n            sub[entity_id] = _ec\n")],
      demo=FED + """
net = Net(ta, im, rp)
fe = entity(me, [ta], net)
ls = fe.server.endpoint.get('list') or __import__('fedservice.entity.server.list', fromlist=['List']).List(fe.server.unit_get)
fe.server.subordinate = {im.id: {'jwks': jwks(im.key)}, rp.id: {'jwks': jwks(im.key)}}
try:
    r = ls.collect_subordinates()
except Exception:
    r = {}
assert rp.id not in r, 'a configuration that does not verify is used'
"""),
 dict(id='c28-policy-stays', property='C28',
      needs='a subordinate of more than one entity type, with policies for both',
      breaks='only the policy of the last of the entity types is stated',
      edits=[(FT, "                                try:\n                                    _policy[_typ].update({entity_type: _et_policy[_typ]})\n                                except KeyError:\n                                    _policy[_typ] = {entity_type: _et_policy[_typ]}\n",
              "                                _policy[_typ] = {entity_type: _et_policy[_typ]}\n")],
      demo=FED + """
from cryptojwt.jws.jws import factory
fe = entity(me, [ta], Net(ta, im, rp), key_config={'key_defs': [{'type': 'RSA', 'use': ['sig']}]})
fe.server.subordinate = {rp.id: {'jwks': jwks(rp.key), 'entity_types': ['openid_relying_party', 'oauth_client']}}
fe.server.policy = {t: {'metadata_policy': {'contacts': {'add': [t]}}} for t in ('openid_relying_party', 'oauth_client')}
from fedservice.entity.server.fetch import Fetch
ft = fe.server.endpoint.get('fetch') or Fetch(fe.server.unit_get)
p = factory(ft.process_request({'sub': rp.id})['response_msg']).jwt.payload()
assert set(p['metadata_policy']) == {'openid_relying_party', 'oauth_client'}, p
"""),
 dict(id='c27-any-anchor', property='C27',
      needs='an entity below two trust anchors, with the chain to the other one first',
      breaks='the metadata that is resolved is that of a chain to another trust anchor',
      edits=[(RS, "            if _trust_anchor == trust_chain.anchor:\n", "            if _trust_anchor in _federation_entity.trust_anchors:\n")],
      demo="""
a = Node('https://ta.example.org/a')
b = Node('https://ta.example.org/b')
rp = Node('https://rp.example.org', [a.id, b.id], metadata={'openid_relying_party': {'client_name': 'x', 'contacts': ['x']}})
a.about[rp.id] = {'metadata': {'openid_relying_party': {'client_name': 'A'}}}
b.about[rp.id] = {'metadata': {'openid_relying_party': {'client_name': 'B'}}}
from cryptojwt.jws.jws import factory
from fedservice.entity.server.resolve import Resolve
for anchor, name in ((a, 'A'), (b, 'B')):
    fe = entity('https://me.example.org', [a, b], Net(a, b, rp), key_config={'key_defs': [{'type': 'RSA', 'use': ['sig']}]})
    rs = fe.server.endpoint.get('resolve') or Resolve(fe.server.unit_get)
    r = rs.process_request({'sub': rp.id, 'anchor': anchor.id})
    r = r['response_args']
    p = factory(r).jwt.payload()
    assert p['metadata']['openid_relying_party']['client_name'] == name, p
"""),
 dict(id='c34-stored-first', property='C34',
      needs='an authorization response with an iss parameter, for a state that was created for another provider',
      breaks='what the response says about the issuer is stored before it is compared to what the state was bound to',
      edits=[(ST, "        _context = self.get_context()\n        try:\n            _iss = _context.cstate",
              "        _context = self.get_context()\n        _context.cstate.update(authorization_response[\"state\"], authorization_response)\n        try:\n            _iss = _context.cstate"),
             (ST, "        _context.cstate.update(authorization_response[\"state\"], authorization_response)\n        _srv.update", "        _srv.update")],
      demo="""
from idpyoidc.client.current import Current
from idpyoidc.message.oauth2 import AuthorizationResponse
from fedservice.appclient.stand_alone_client_entity import StandAloneClientEntity
class Ctx:
    issuer = 'https://b.example.org'
    provider_info = {'issuer': 'https://b.example.org'}
    cstate = Current()
class Srv:
    def parse_response(self, response, **kwargs):
        return AuthorizationResponse(**response)
    def update_service_context(self, *a, **k):
        pass
c = StandAloneClientEntity.__new__(StandAloneClientEntity)
c.context = Ctx()
c._service = {'authorization': Srv()}
Ctx.cstate.set('s1', {'iss': 'https://a.example.org'})
try:
    c.finalize_auth({'state': 's1', 'code': 'c', 'iss': 'https://b.example.org'})
except ValueError:
    pass
else:
    raise AssertionError('accepted from another provider')
"""),
 dict(id='c30-rest-of-combo', property='C30',
      needs='a combination with a relying party handler and another entity type, asked for the metadata of one of the clients',
      breaks='the metadata of the other entity types is left out of the entity configuration',
      edits=[('combo/__init__.py', "            elif getattr(item, \"get_metadata\", None):\n",
              "            elif getattr(item, \"get_metadata\", None) and (not client or federation_type == 'federation_entity'):\n")],
      demo="""
from fedservice.combo import FederationCombo
class Part:
    def __init__(self, name):
        self.name = name
    def get_metadata(self, entity_type='', *args):
        return {entity_type or self.name: {'x': self.name}}
c = FederationCombo.__new__(FederationCombo)
c._part = {'federation_entity': Part('federation_entity'), 'openid_provider': Part('openid_provider')}
for client in (None, Part('openid_relying_party')):
    assert set(c.get_metadata(client=client)) >= {'federation_entity', 'openid_provider'}, client
"""),
 dict(id='c39-as-sent', property='C39',
      needs='a client that is registered under another identifier than its entity identifier, and a request that names the latter',
      breaks='the request is handled as that of the identifier in the request, not of the client that was authenticated',
      edits=[('appserver/oauth2/authorization.py', "        request['client_id'] = client_id\n        return request",
              "        request['client_id'] = request.get('client_id', client_id)\n        return request")],
      demo="""
from fedservice.appserver.oauth2.authorization import Authorization
a = Authorization(lambda *args, **kwargs: None)
r = {'client_id': 'https://rp.example.org', 'response_type': 'code'}
for f in a.post_parse_request:
    if f.__module__.startswith('fedservice') or f.__qualname__.startswith('Authorization._reset'):
        r = f(r, client_id='abcd', context=None)
assert r['client_id'] == 'abcd', r
"""),
 dict(id='c21-identifier-of-metadata', property='C21',
      needs='explicit registration of a client that has a client_id in its metadata: that of another client',
      breaks='the client is registered under that identifier, and takes over the registration of the other client',
      edits=[('appserver/oidc/registration.py', "        req[\"client_id\"] = payload['sub']\n", "        req.setdefault(\"client_id\", payload['sub'])\n")],
      demo="""
from fedservice.appserver.oidc import registration as m
class Chain:
    anchor = 'https://ta.example.org'
    metadata = {'openid_relying_party': {'client_id': 'https://victim.example.org', 'redirect_uris': ['https://rp.example.org/cb']}}
class FE:
    trust_chain_anchor = ''
    def pick_trust_chain(self, chains):
        return chains[0]
ec = {'iss': 'https://rp.example.org', 'sub': 'https://rp.example.org', 'metadata': {'openid_relying_party': {}}}
m.verify_self_signed_signature = lambda *a, **k: ec
m.get_federation_entity = lambda *a, **k: FE()
m.get_verified_trust_chains = lambda *a, **k: [Chain()]
m.save_trust_chains = lambda *a, **k: None
seen = []
class R(m.Registration):
    def non_fed_process_request(self, req, **kwargs):
        seen.append(req['client_id'])
        return {'error': 'x'}
r = R.__new__(R)
r.upstream_get = lambda *a, **k: None
r.process_request('x')
assert seen == ['https://rp.example.org'], seen
"""),
]
