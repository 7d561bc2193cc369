V = 'entity/function/verifier.py'
P = 'entity/function/policy.py'
O = 'entity/function/policy_operator.py'
K = 'entity_statement/constraints.py'
COL = 'entity/function/trust_chain_collector.py'
FED = """
ta = Node('https://ta.example.org')
im = Node('https://im.example.org', [ta.id])
rp = Node('https://rp.example.org', [im.id], metadata={'openid_relying_party': {'client_name': 'x', 'contacts': ['a']}})
me = 'https://me.example.org'
"""
SEEDS = [
 dict(id='c04-life-time-of-path', property='C04',
      needs='a chain where the entity configuration (the last statement) expires before all the others',
      breaks='the life time of the chain is longer than that of the leaf statement',
      edits=[(V, "        for entity_statement in trust_chain:\n            if exp >= 0:",
              "        for entity_statement in trust_chain[:-1] or trust_chain:\n            if exp >= 0:")],
      demo=FED + """
rp.exp = now() + 600
t = verify(entity(me, [ta]), [ta.statement(im), im.statement(rp), rp.configuration()])
assert t and t.exp <= rp.exp, (t.exp, rp.exp)
"""),
 dict(id='c04-expired-zero', property='C04',
      needs='a statement that has expired, in a chain, with the expiration time within the last minute',
      breaks='expired statements are accepted for another minute',
      edits=[('utils.py', '        if item["exp"] < now:\n', '        if item["exp"] + 60 < now:\n')],
      demo=FED + """
im.sub_exp[rp.id] = now() - 20
t = verify(entity(me, [ta]), [ta.statement(im), im.statement(rp), rp.configuration()])
assert not t
"""),
 dict(id='c06-allowance-restarts', property='C06',
      needs='three or more levels, where a subordinate sets a max_path_length equal to what it was given by its superior',
      breaks='a subordinate that states the same limit as its superior gets one more level than it is allowed',
      edits=[(K, "        new_current = current_max_path_length - 1\n        if _max_len < new_current:\n",
              "        new_current = current_max_path_length - 1\n        if _max_len <= current_max_path_length:\n")],
      demo="""
ids = ['https://%s.example.org' % x for x in ('ta', 'a', 'b', 'leaf')]
n = [Node(i) for i in ids]
n[0].about[ids[1]] = {'constraints': {'max_path_length': 1}}
n[1].about[ids[2]] = {'constraints': {'max_path_length': 0}}
def chain():
    return [n[0].statement(n[1]), n[1].statement(n[2]), n[2].statement(n[3]), n[3].configuration()]
assert verify(entity('https://me.example.org', [n[0]]), chain()) is None or True
from fedservice.entity_statement.constraints import meets_restrictions
def st(i, j, m=None):
    d = {'iss': ids[i], 'sub': ids[j]}
    if m is not None:
        d['constraints'] = {'max_path_length': m}
    return d
assert meets_restrictions([st(0, 1, 1), st(1, 2), st(2, 3), ])
assert not meets_restrictions([st(0, 1, 0), st(1, 2, 0), st(2, 2)])
"""),
 dict(id='c07-prefix-names', property='C07',
      needs='a subject whose host name has an excluded name as its own trailing labels but fewer labels than compared',
      breaks='an excluded name with a leading dot (all sub domains) no longer excludes sub domains more than one level down',
      edits=[(K, "    if len(a_part) >= len(b_part):\n", "    if len(b_part) <= len(a_part) <= len(b_part) + 1:\n")],
      demo="""
from fedservice.entity_statement.constraints import meets_restrictions
def chain(leaf):
    return [{'iss': 'https://ta.org', 'sub': 'https://im.org', 'constraints': {'naming_constraints': {'excluded': ['https://.bad.org']}}},
            {'iss': 'https://im.org', 'sub': leaf}, {'iss': leaf, 'sub': leaf}]
assert meets_restrictions(chain('https://ok.org'))
assert not meets_restrictions(chain('https://x.bad.org'))
assert not meets_restrictions(chain('https://x.y.z.bad.org'))
"""),
 dict(id='c07-leaf-permitted', property='C07',
      needs='a superior that has both excluded and permitted names, and a leaf outside the permitted ones',
      breaks='subjects at or below are compared to the excluded names only if nothing is permitted',
      edits=[(K, "    for excl in excluded_ids:\n        if more_specific(subject_id, excl):\n            return True\n    return False\n",
              "    for excl in excluded_ids:\n        return more_specific(subject_id, excl)\n    return False\n")],
      demo="""
from fedservice.entity_statement.constraints import meets_restrictions
def chain(leaf, *names):
    return [{'iss': 'https://ta.org', 'sub': 'https://im.org', 'constraints': {'naming_constraints': {'excluded': list(names)}}},
            {'iss': 'https://im.org', 'sub': leaf}, {'iss': leaf, 'sub': leaf}]
assert meets_restrictions(chain('https://ok.org', 'https://.a.org', 'https://.b.org'))
assert not meets_restrictions(chain('https://x.b.org', 'https://.a.org', 'https://.b.org'))
"""),
 dict(id='c09-value-and-essential', property='C09',
      needs='a subordinate policy with both value and essential, with another value than the superior has',
      breaks='the conflict is not noticed',
      edits=[(P, "                if len(child_set) == 1:\n", "                if child_set <= {\"essential\", \"value\"}:\n")],
      demo="""
from fedservice.entity.function.policy import combine_claim_policy
assert combine_claim_policy({'value': 'a'}, {'essential': True}) == {'value': 'a', 'essential': True}
try:
    r = combine_claim_policy({'value': 'a'}, {'value': 'b', 'essential': True})
except Exception:
    pass
else:
    raise AssertionError(r)
"""),
 dict(id='c09-only-in-super', property='C09',
      needs='three levels of policy where only the top one has a rule about a claim and the others share another claim',
      breaks='a rule that only the superior has is lost when both have rules about another claim',
      edits=[(P, "        for claim in super_set.difference(child_set):\n",
              "        for claim in super_set.difference(child_set if not _metadata_policy else super_set):\n")],
      demo="""
from fedservice.entity.function.policy import combine
a = combine({'metadata_policy': {'x': {'value': 1}}}, {'metadata_policy': {'y': {'value': 2}}})
assert a['metadata_policy'] == {'x': {'value': 1}, 'y': {'value': 2}}
a = combine({'metadata_policy': {'x': {'value': 1}, 'y': {'one_of': ['a', 'b']}}}, {'metadata_policy': {'y': {'one_of': ['a']}}})
assert a['metadata_policy'] == {'x': {'value': 1}, 'y': {'one_of': ['a']}}, a
"""),
 dict(id='c10-subset-empty', property='C10',
      needs='a claim with several values of which none is allowed',
      breaks='metadata with only disallowed values is left as it is',
      edits=[(O, "            if _val:\n                metadata[claim] = list(_val)\n            else:\n",
              "            if _val:\n                metadata[claim] = list(_val)\n            elif not isinstance(metadata[claim], list):\n")],
      demo="""
from fedservice.entity.function.policy import apply_metadata_policy
from fedservice.entity.function.policy_operator import construct_evaluation_sequence
ops = construct_evaluation_sequence()
m = apply_metadata_policy({'c': ['a', 'b']}, {'c': {'subset_of': ['a']}}, ops)
assert m['c'] == ['a']
try:
    m = apply_metadata_policy({'c': ['b', 'd']}, {'c': {'subset_of': ['a']}}, ops)
except Exception:
    pass
else:
    raise AssertionError(m)
"""),
 dict(id='c11-default-skips', property='C11',
      needs='a policy with default and subset_of for a claim that is absent',
      breaks='after default has been applied subset_of and superset_of are skipped',
      edits=[(O, "        if claim not in metadata:\n            metadata[claim] = metadata_policy[claim][self.name]\n\n\nclass SubsetOf",
              "        if claim not in metadata:\n            metadata[claim] = metadata_policy[claim][self.name]\n            return 'essential' if 'essential' in metadata_policy[claim] else None\n\n\nclass SubsetOf")],
      demo="""
from fedservice.entity.function.policy import apply_metadata_policy
from fedservice.entity.function.policy_operator import construct_evaluation_sequence
ops = construct_evaluation_sequence()
p = {'c': {'default': ['a', 'b'], 'subset_of': ['a'], 'essential': True}}
m = apply_metadata_policy({}, p, ops)
assert m['c'] == ['a'], m
"""),
 dict(id='c12-leaf-first', property='C12',
      needs='a statement by a superior with metadata about the subject, in a chain with an intermediate',
      breaks='only the statement of the immediate superior and not the ones further up are heard',
      edits=[(P, "        combined_policy = self.gather_policies(trust_chain.verified_chain[:-1], entity_type)\n",
              "        combined_policy = self.gather_policies(trust_chain.verified_chain[-2:-1], entity_type)\n")],
      demo=FED + """
ta.about[im.id] = {'metadata_policy': {'openid_relying_party': {'contacts': {'add': ['ta']}}}}
fe = entity(me, [ta])
t = verify(fe, [ta.statement(im), im.statement(rp), rp.configuration()])
fe.function.policy(t, 'openid_relying_party')
assert set(t.metadata['openid_relying_party']['contacts']) == {'a', 'ta'}, t.metadata
"""),
 dict(id='c13-only-the-last', property='C13',
      needs='a federation where two authorities name each other as superior',
      breaks='a loop over more than one authority is not noticed until the path is as long as it may be',
      edits=[(COL, "            if authority in seen:  # loop ?!\n", "            if authority in seen[-1:]:  # loop ?!\n")],
      demo="""
a = Node('https://a.example.org', ['https://b.example.org'])
b = Node('https://b.example.org', ['https://a.example.org'])
rp = Node('https://rp.example.org', [a.id])
ta = Node('https://ta.example.org')
net = Net(a, b, rp, ta)
fe = entity('https://me.example.org', [ta], net)
tree, ec = fe.function.trust_chain_collector(rp.id)
def depth(t):
    return 0 if not t else 1 + max((depth(v[1]) for v in t.values() if v), default=0)
assert depth(tree) <= 2, depth(tree)
"""),
 dict(id='c14-expiry-key', property='C14',
      needs='two authorities with statements about the same entity, of which the first one fetched expires before the other',
      breaks='the expiration time of a cached statement is that of the statement of another authority',
      edits=[(COL, '    return f"{authority}!exp!{entity}"', '    return f"!exp!{entity}"')],
      demo="""
ta = Node('https://ta.example.org')
a = Node('https://a.example.org', [ta.id])
b = Node('https://b.example.org', [ta.id])
rp = Node('https://rp.example.org', [a.id, b.id])
a.sub_exp[rp.id] = now() + 301
net = Net(a, b, rp, ta)
fe = entity('https://me.example.org', [ta], net)
col = fe.function.trust_chain_collector
col.allowed_delta = 300
col._get_entity_statement(rp.id, a.id)
col._get_entity_statement(rp.id, b.id)
time.sleep(2.1)
net.log.clear()
col._get_entity_statement(rp.id, a.id)
assert any('a.example.org/fetch' in u for u in net.log), 'an outdated statement is used'
"""),
 dict(id='c15-any-success', property='C15',
      needs='a response with a status such as 202 or 206',
      breaks='the body of a response that is not 200 is used',
      edits=[(COL, "        if response.status_code == 200:\n", "        if response.status_code // 100 == 2:\n")],
      demo=FED + """
net = Net(ta, im, rp)
fe = entity(me, [ta], net)
net.pages[rp.id + WELL_KNOWN] = Response(rp.configuration(), 202)
try:
    r = fe.function.trust_chain_collector.get_entity_configuration(rp.id)
except Exception:
    pass
else:
    raise AssertionError('used a 202 response')
"""),
 dict(id='c16-intermediate-unverified', property='C16',
      needs='an intermediate whose entity configuration is not signed with the keys in it',
      breaks='the configuration of an intermediate is used and cached without being verified',
      edits=[(COL, "            entity_config = verify_self_signed_signature(signed_entity_config)\n            logger.debug(f'Verified self signed statement: {entity_config}')\n            fed_fetch",
              "            entity_config = unverified_entity_statement(signed_entity_config)\n            logger.debug(f'Verified self signed statement: {entity_config}')\n            fed_fetch")],
      demo=FED + """
net = Net(ta, im, rp)
fe = entity(me, [ta], net)
good = im.key
class Bad(Node):
    pass
import json
from cryptojwt.jws.jws import factory
c = factory(im.configuration()).jwt.payload()
net.pages[im.id + WELL_KNOWN] = Response(sign(c, new_key(im.key.kid)))
try:
    fe.function.trust_chain_collector.get_federation_fetch_endpoint(im.id)
except Exception:
    pass
else:
    raise AssertionError('used an entity configuration with a bad signature')
"""),
 dict(id='c41-anchor-is-the-end', property='C41',
      needs='a trust anchor that is itself subordinate to another trust anchor',
      breaks='the superiors of a trust anchor are not collected, so that there is no chain to the other trust anchor',
      edits=[(COL, "        if entity == authority and entity in self.trust_anchors:\n", "        if entity in self.trust_anchors:\n")],
      demo="""
top = Node('https://top.example.org')
ta = Node('https://ta.example.org', [top.id])
rp = Node('https://rp.example.org', [ta.id])
net = Net(top, ta, rp)
fe = entity('https://me.example.org', [ta, top], net)
tree, ec = fe.function.trust_chain_collector(rp.id)
assert tree[ta.id][1].get(top.id), 'a superior is left out'
"""),
 dict(id='c41-other-slash', property='C41',
      needs='two entities whose identifiers differ in a slash at the end only, the one without it collected first',
      breaks='the superiors of an entity are collected from the cached configuration of another one',
      edits=[(COL, "        entity_config = self.config_cache.get(entity_id, None)\n", "        entity_config = self.config_cache.get(entity_id.rstrip('/'), None)\n")],
      demo="""
ta = Node('https://ta.example.org')
a = Node('https://rp.example.org', [ta.id])
b = Node('https://rp.example.org/', [ta.id])
net = Net(ta, a)
fe = entity('https://me.example.org', [ta], net)
col = fe.function.trust_chain_collector
col(a.id)
col.collect_tree = lambda *a, **k: {}
col.get_entity_configuration = lambda entity_id: b.configuration()
tree, ec = col(b.id)
assert ec != col.config_cache[a.id]['_jws'], 'the configuration of another entity is used'
"""),
 dict(id='c42-listed-not-walked', property='C42',
      needs='an intermediate that is itself listed as being of the entity type asked for',
      breaks='what is below an intermediate that is of the entity type itself is not reported',
      edits=[('entity/__init__.py', "            for entity_id in _intermediates:\n", "            for entity_id in [i for i in _intermediates if i not in _issuers]:\n")],
      demo="""
FE = lambda i: {'federation_list_endpoint': i + '/list', 'federation_fetch_endpoint': i + '/fetch'}
ta = Node('https://ta.example.org')
a = Node('https://a.example.org', [ta.id], metadata={'federation_entity': FE('https://a.example.org')})
b = Node('https://b.example.org', [a.id], metadata={'federation_entity': FE('https://b.example.org'), 'openid_provider': {}})
below = {(a.id, 'openid_provider'): [b.id], (a.id, None): [b.id], (b.id, 'openid_provider'): ['https://op.example.org']}
net = Net(ta, a, b)
fe = entity('https://me.example.org', [ta], net)
fe.function.trust_chain_collector(b.id)
real = fe.client.do_request
def dr(service, **kw):
    if service == 'list':
        return below.get((kw['entity_id'], kw.get('entity_type')), [])
    return real(service, **kw)
fe.client.do_request = dr
assert 'https://op.example.org' in fe.trawl(ta.id, a.id, 'openid_provider'), 'not all of the providers are reported'
"""),
 dict(id='c42-leaves-or-branches', property='C42',
      needs='an entity that lists entities of the type asked for and that has intermediates too',
      breaks='what is below the intermediates is not reported when there are direct subordinates of the type',
      edits=[('entity/__init__.py', "                if _ids:\n", "                if _ids and not _added_issuers:\n")],
      demo="""
FE = lambda i: {'federation_list_endpoint': i + '/list', 'federation_fetch_endpoint': i + '/fetch'}
ta = Node('https://ta.example.org')
a = Node('https://a.example.org', [ta.id], metadata={'federation_entity': FE('https://a.example.org')})
b = Node('https://b.example.org', [a.id], metadata={'federation_entity': FE('https://b.example.org')})
below = {(a.id, 'openid_provider'): ['https://op1.example.org'], (a.id, None): [b.id], (b.id, 'openid_provider'): ['https://op2.example.org']}
net = Net(ta, a, b)
fe = entity('https://me.example.org', [ta], net)
fe.function.trust_chain_collector(b.id)
real = fe.client.do_request
def dr(service, **kw):
    if service == 'list':
        return below.get((kw['entity_id'], kw.get('entity_type')), [])
    return real(service, **kw)
fe.client.do_request = dr
assert set(fe.trawl(ta.id, a.id, 'openid_provider')) == {'https://op1.example.org', 'https://op2.example.org'}, 'not all of the providers are reported'
"""),
 dict(id='c43-one-filter', property='C43',
      needs='a list that is asked for with both the trust_marked and the trust_mark_id filter',
      breaks='entities are listed that do not have the trust mark asked for',
      edits=[('entity/client/list.py', "            if val:\n", "            if val and not (arg == 'trust_mark_id' and 'trust_marked' in qpart):\n")],
      demo="""
from urllib.parse import urlparse, parse_qs
ta = Node('https://ta.example.org')
net = Net(ta)
fe = entity('https://me.example.org', [ta], net)
from fedservice.entity.client.list import List
info = List(upstream_get=fe.client.unit_get).get_request_parameters(endpoint='https://im.example.org/list', entity_id='https://im.example.org',
    trust_marked=True, trust_mark_id='https://tm.example.org/a')
q = parse_qs(urlparse(info['url']).query)
assert q == {'trust_marked': ['True'], 'trust_mark_id': ['https://tm.example.org/a']}, q
"""),
 dict(id='c43-subject-slash', property='C43',
      needs='a subject whose identifier ends with a slash',
      breaks='the statement asked for is about another entity',
      edits=[('entity/client/entity_statement.py', "msg['sub'] = subject\n", "msg['sub'] = subject.rstrip('/')\n")],
      demo="""
from urllib.parse import urlparse, parse_qs
ta = Node('https://ta.example.org')
net = Net(ta)
fe = entity('https://me.example.org', [ta], net)
from fedservice.entity.client.entity_statement import EntityStatement
info = EntityStatement(upstream_get=fe.client.unit_get).get_request_parameters(fetch_endpoint='https://im.example.org/fetch',
    issuer='https://im.example.org', subject='https://rp.example.org/')
q = parse_qs(urlparse(info['url']).query)
assert q == {'iss': ['https://im.example.org'], 'sub': ['https://rp.example.org/']}, q
"""),
 dict(id='c44-conflict-is-fine', property='C44',
      needs='a response with status 409',
      breaks='what comes with an error status is taken as the response asked for',
      edits=[('appclient/__init__.py', "        if reqresp.status_code in SUCCESSFUL:\n", "        if reqresp.status_code in SUCCESSFUL or reqresp.status_code == 409:\n")],
      demo="""
from fedservice.appclient import ClientEntity
class Response:
    status_code, headers, text, url = 409, {'content-type': 'application/json'}, '{"client_id": "x"}', 'https://op.example.org'
class Service:
    response_body_type = 'json'
    seen = []
    def upstream_get(self, *args): return None
    def parse_response(self, text, *args, **kwargs): return {'client_id': 'x'}
    def update_service_context(self, response, **kwargs): self.seen.append(response)
client = object.__new__(ClientEntity)
client.httpc_params = {}
client.httpc = lambda *args, **kwargs: Response()
service = Service()
try:
    response = client.service_request(service, 'https://op.example.org')
except Exception:
    response = {'error': 'raised'}
assert 'error' in response and not service.seen, response
"""),
 dict(id='c44-any-id-token', property='C44',
      needs='a token response with an ID token that has not been verified',
      breaks='an ID token that was not verified is used',
      edits=[('appclient/stand_alone_client_entity.py', '''            access_token = token_resp["access_token"]
            # May or may not get an ID Token
            id_token = token_resp.get("__verified_id_token")

        return''', '''            access_token = token_resp["access_token"]
            # May or may not get an ID Token
            id_token = token_resp.get("__verified_id_token", token_resp.get("id_token"))

        return''')],
      demo="""
from fedservice.appclient.stand_alone_client_entity import StandAloneClientEntity
class State:
    def get_set(self, *args, **kwargs): return {'response_type': 'code'}
class Context:
    cstate = State()
client = object.__new__(StandAloneClientEntity)
client.get_context = lambda *args: Context()
client.get_tokens = lambda state: {'access_token': 'a', 'id_token': 'not.verified.x'}
token = client.get_access_and_id_token({'state': 's', 'code': 'c'}, state='s')
assert token == {'access_token': 'a', 'id_token': None}, token
"""),
]
