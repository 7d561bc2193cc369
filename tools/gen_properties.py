#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os

S = 'src/fedservice/'
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), (m[0], S + m[1]))) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        }})


TC = 'entity/function/verifier.py'
COL = 'entity/function/trust_chain_collector.py'
POL = 'entity/function/policy.py'
OPS = 'entity/function/policy_operator.py'
CON = 'entity_statement/constraints.py'
FN = 'entity/function/__init__.py'
FE = 'entity/__init__.py'

p('C01', 'Every statement in an accepted trust chain is signature checked',
  'When the trust chain verifier accepts a chain, every statement in it has had its signature verified with a '
  'non-empty set of keys. For the first statement these are keys the verifying entity holds for the issuer; for every '
  'following statement that is issued by the subject of the statement above, they are only the keys listed in that '
  '(already verified) statement above.',
  'inputs', 'all lists of strings offered as a trust chain, of any length and content, for any key jar',
  'Tests verify a handful of well formed three or four link chains; a forged link can sit at any position, be signed with any key (also one in its own header).',
  [TC], [('TrustChainVerifier.verify_trust_chain', TC), ('TrustChainVerifier.__call__', TC)],
  [('key jar', 'federation keys per entity', TC)], ['TrustChainVerifier.__call__', 'verify_trust_chains'])

p('C02', 'An accepted trust chain starts at a configured trust anchor',
  'A trust chain is only accepted if the first statement in it (the one from the top) is issued by an entity that the '
  'verifying federation entity has been configured to use as a trust anchor, or by the verifying entity itself. Having '
  'keys for an entity is not enough.',
  'inputs histories', 'all chains, after any history of previously verified chains (which leave keys behind)',
  'Tests use one configured trust anchor and never offer a chain that ends in an intermediate whose keys are known from earlier.',
  [TC], [('TrustChainVerifier.trusted_anchor', TC)], [('trust anchors', 'configured anchors', COL)])

p('C03', 'The statements in an accepted trust chain are linked to each other',
  'In an accepted trust chain every statement but the first is issued by the subject of the statement directly above it. '
  'The only exception is that the last statement may be issued by somebody else if it is about the verifying entity itself and the '
  'statement above it is too (the response to an explicit registration).',
  'inputs', 'all chains of validly signed statements, in any combination and order',
  'Tests only offer chains collected in the right order; recombining genuine statements of different branches is never tried.',
  [TC], [('TrustChainVerifier.verify_trust_chain', TC), ('TrustChainVerifier.is_linked', TC)])

p('C04', 'Expired statements invalidate a chain and bound its life time',
  'A chain that contains a statement whose expiration time has passed is not accepted. An accepted trust chain expires no later '
  'than any of the statements in it, and its path of issuers and its trust anchor are those of the verified statements.',
  'inputs schedules', 'all chains and all points in time',
  'Tests run with freshly issued statements and cannot wait for, or order, all combinations of expiration times.',
  [TC, 'entity_statement/statement.py', 'utils.py'],
  [('statement_is_expired', 'utils.py'), ('TrustChainVerifier.trust_chain_expires_at', TC), ('TrustChain.is_expired', 'entity_statement/statement.py')])

p('C05', 'Received statements never change the keys of trust anchors or of myself',
  'Verifying trust chains, and walking through a federation, only ever adds keys to the federation key jar that are listed in a verified statement, under the subject '
  'of that statement. Keys are never added that way for a configured trust anchor or for the entity itself.',
  'inputs histories', 'all sequences of chains and statements handled by one entity',
  'Tests look at single runs; key poisoning needs a chain that is harmless now and a later one that exploits the added key.',
  [TC, FE], [('TrustChainVerifier.has_configured_keys', TC), ('FederationEntity.trawl', FE)], [('key jar', 'federation keys per entity', TC)])

p('C06', 'Path length constraints are enforced along the whole chain',
  'If any statement in a chain sets max_path_length to N then a chain with more than N intermediates below that statement is not accepted, '
  'wherever in the chain it is set. A statement further down can make the remaining allowance smaller but never larger, and statements without constraints still use it up.',
  'inputs', 'all chains of any length with any placement of max_path_length, including 0',
  'Tests cover a few lengths with the constraint in one place.',
  [CON], [('calculate_path_length', CON), ('meets_restrictions', CON)])

p('C07', 'Naming constraints apply to everything below the statement that sets them',
  'A chain is not accepted if the subject of any statement at or below a statement with naming constraints, the leaf included, is within an excluded name or, where there are permitted names, '
  'outside all of the permitted ones. Names that have been excluded higher up stay excluded whatever is stated further down; exclusion wins over permission.',
  'inputs', 'all chains, entity identifiers and permitted/excluded lists in any statement of the chain',
  'Tests cover one or two levels with fixed names.',
  [CON], [('meets_restrictions', CON), ('update_naming_constraints', CON), ('excluded / permitted', CON)])

p('C08', 'Unknown critical claims and critical policy operators are refused',
  'A trust chain containing a statement that marks a claim as critical (crit) which the library does not know, or a policy operator as critical (policy_language_crit) which it does not implement, is not accepted. '
  'The message classes also refuse statements with critical extensions that the caller has not declared to know and a crit that is empty although there are extensions.',
  'inputs', 'all statements with any crit/policy_language_crit content at any position',
  'Tests exercise one message class with one unknown claim.',
  [TC, 'message.py'], [('TrustChainVerifier.verify_trust_chain', TC), ('EntityStatement.verify / Policy.verify', 'message.py')])

p('C09', 'Combining policies only makes them more restrictive',
  'When the metadata policies of a chain are combined, whatever the combination allows each of the combined policies allows too: allowed sets are intersected, added values united, essential is kept, '
  'value and default may not be changed, and conflicts or combinations that would cancel a superior rule are errors. Rules that only one party has are kept as they are.',
  'inputs', 'all pairs and sequences of metadata policies over all operators and values',
  'Tests have a table of combinations; the number of operator and value combinations is unbounded.',
  [POL], [('combine', POL), ('combine_claim_policy', POL), ('combine_metadata', POL), ('TrustChainPolicy.gather_policies', POL)])

p('C10', 'Applying a policy operator leaves compliant metadata or raises an error',
  'After a policy operator has been applied to a metadata claim that is present the value satisfies the operator: it equals value, contains everything in add, is one of one_of, lies within subset_of and is a subset of what it was, contains all of superset_of; otherwise an error is raised. '
  'default only applies to absent claims and essential raises an error when the claim is absent; no operator touches another claim.',
  'inputs', 'all metadata values (single valued or lists) and all operator values',
  'Tests use a few values per operator.',
  [OPS], [('Value, Add, Default, OneOf, SubsetOf, SupersetOf, Essential', OPS)])

p('C11', 'All operators of a policy are evaluated, in the specified order',
  'For every claim with a policy the operators are evaluated in the order value, add, default, one_of, subset_of, superset_of, essential, and none is left out, except that after value and one_of, which can not be combined with the others, evaluation goes on directly with essential. '
  'Evaluation always terminates.',
  'inputs', 'all policies (any combination of operators)',
  'Tests cover the combinations found in examples.',
  [OPS, POL], [('POLICY_APPLICATION_ORDER, construct_evaluation_sequence', OPS), ('apply_metadata_policy, op_place', POL)])

p('C12', 'Exposed metadata is the verified metadata with superiors having the last word',
  'The metadata of a processed trust chain is, per entity type, the metadata in the verified leaf statement, overridden by metadata stated by superiors, and with the combined policy of all the superior statements applied. '
  'The verified statements themselves are not changed by this, and neither is the exported chain.',
  'inputs histories', 'all verified chains and repeated processing of the same chain',
  'Tests compare a few results; they never look at whether inputs were modified or at conflicts between metadata and policy.',
  [POL, 'entity_statement/statement.py'], [('TrustChainPolicy.__call__ / _policy / apply_policy', POL), ('TrustChain.export_chain', 'entity_statement/statement.py')])

p('C13', 'Collecting trust chains always ends',
  'Collecting the trust chains of an entity ends for every federation topology: an authority that is already on the path is not visited again, and no path gets longer than the maximum number of superiors. '
  'An authority that is skipped for this reason does not prevent the others from being used.',
  'inputs', 'all (also hostile, cyclic or unbounded) authority_hints graphs',
  'Tests use a fixed acyclic three level federation.',
  [COL], [('collect_tree / collect_branch', COL)], [('seen', 'authorities on the current path', COL)])

p('C14', 'Caches never hand out outdated statements',
  'What a statement cache hands out, whichever way it is asked (indexing, get, membership), has not expired and does not expire within the allowed delta; outdated entries are dropped and fetched anew. '
  'A cached statement is only used for the authority and entity it was fetched for.',
  'histories schedules', 'all sequences of insertions, look-ups and clock advances',
  'Tests look up entries right after inserting them.',
  ['entity_statement/cache.py', COL], [('ESCache', 'entity_statement/cache.py'), ('TrustChainCollector._get_entity_statement / too_old', COL)])

p('C15', 'Only successful HTTP responses are taken as statements',
  'The body of an HTTP response is only used as an entity statement when the status code is 200; every other status, and connection failures, end in an error. '
  'Only a missing page makes the collector try the alternative (tenant) location.',
  'inputs fault_sequences', 'all status codes and transport failures for each of the fetches of a collection',
  'Tests mock responses with status 200.',
  [COL], [('TrustChainCollector.get_document', COL), ('TrustChainCollector.get_entity_configuration', COL)])

p('C16', 'Entity configurations are self verified before they are used or cached',
  'An entity configuration fetched while collecting trust chains is only used or cached after its signature has been verified with the keys it contains. It is cached together with the signed form it was verified from, under the entity it was fetched for.',
  'inputs', 'all fetched documents',
  'Tests only serve correctly signed configurations.',
  [COL], [('verify_self_signed_signature', COL), ('TrustChainCollector.__call__ / get_federation_fetch_endpoint', COL)], [('config_cache', 'verified configurations', COL)])

p('C17', 'A trust mark is only accepted when it can be verified',
  'The trust mark verifier only returns a trust mark whose signature was verified with a non-empty set of keys of the issuer, which has all required claims, has not expired, is about the asked-for entity if one was given, '
  'and whose issuer has a verified trust chain to the given trust anchor. Whether a trust mark is verified together with its issuer, an answer that does not say active makes it invalid.',
  'inputs', 'all trust marks, issuers and trust anchors',
  'Tests verify genuine trust marks.',
  ['entity/function/trust_mark_verifier.py', FE], [('TrustMarkVerifier.__call__', 'entity/function/trust_mark_verifier.py'), ('FederationEntity.verify_trust_mark', FE)])

p('C18', 'A delegated trust mark needs a valid delegation',
  'A trust mark with a delegation is only accepted if the trust anchor, in a statement verified with its configured keys, names the kind of trust mark and its owner, and the delegation is signed with the owner\'s keys, has not expired, and is to the issuer of the trust mark for that kind of trust mark.',
  'inputs', 'all trust marks with all kinds of delegations',
  'Tests have one correct delegation.',
  ['entity/function/trust_mark_verifier.py', 'entity/function/trust_anchor.py'],
  [('TrustMarkVerifier.verify_delegation', 'entity/function/trust_mark_verifier.py'), ('get_verified_trust_anchor_statement', 'entity/function/trust_anchor.py')])

p('C19', 'Trust mark status and listings only report issued trust marks that are valid',
  'The status endpoint answers active for, and only for, a trust mark of that kind issued to that subject and recorded as not expired; if it is given a trust mark it must first verify it. The list endpoint names those that hold such a trust mark, all of them and nobody else. '
  'The two trust mark stores give the same answers: a holder is found as long as the last trust mark issued to it has not expired, whatever has been issued to others; listings leave out holders whose trust marks have expired; asking about an unknown kind of trust mark is not an error.',
  'histories inputs', 'all sequences of issuing and querying, any mix of kinds and holders, any point in time',
  'Tests issue one trust mark and ask for it.',
  ['trust_mark_entity/__init__.py', 'trust_mark_entity/server/trust_mark_status.py', 'trust_mark_entity/server/trust_mark_list.py', 'trust_mark_entity/entity.py'],
  [('FileDB / SimpleDB', 'trust_mark_entity/__init__.py'), ('TrustMarkStatus.process_request', 'trust_mark_entity/server/trust_mark_status.py'), ('TrustMarkList.process_request', 'trust_mark_entity/server/trust_mark_list.py')],
  [('issued', 'the issued trust marks', 'trust_mark_entity/entity.py')])

p('C20', 'Trust marks are only issued as configured and every one is recorded',
  'A trust mark issuer only issues trust marks of the kinds it has a specification for, to the subject that was asked for, in its own name and signed with its federation keys, with an expiration time whenever a life time is configured. '
  'Every issued trust mark has been recorded with the subject, identifier and times that are signed, and issuing never changes the specifications (the life times in them are kept).',
  'inputs histories', 'all requests and sequences of requests',
  'Tests issue one trust mark of a known kind.',
  ['trust_mark_entity/entity.py', 'trust_mark_entity/server/trust_mark.py'],
  [('TrustMarkEntity.create_trust_mark', 'trust_mark_entity/entity.py'), ('SelfSignedTrustMarkEntity.__call__', 'trust_mark_entity/entity.py')])

p('C21', 'Explicit registration only registers clients with verified metadata',
  'An OP/AS handles an explicit registration only after the signature on the request has been verified and a verified trust chain for its subject has been found; what gets registered, and under which identifier, is the policy adjusted metadata in that chain and not what the request says. '
  'The response is signed by the OP/AS, addressed to the requester and names the trust anchor of the chain that was used.',
  'inputs', 'all requests',
  'Tests register one honest client.',
  ['appserver/oidc/registration.py', 'appserver/oauth2/registration.py'],
  [('Registration.process_request (OIDC)', 'appserver/oidc/registration.py'), ('Registration.process_request (OAuth2)', 'appserver/oauth2/registration.py')])

p('C22', 'Automatic registration needs a verified trust chain of the client itself',
  'An OP/AS that registers a client automatically (authorization and pushed authorization requests, OIDC and OAuth2) only does so after a trust chain for exactly that client identifier has been verified; a chain provided in the request must end in the client\'s own entity configuration. '
  'Metadata and keys come from that verified and policy adjusted chain, keys are stored under that client identifier, and without a valid chain the request is refused; a client that has been registered is authenticated like any other.',
  'inputs', 'all requests with or without a provided trust chain',
  'Tests have one honest client per flow.',
  ['appserver/oidc/authorization.py', 'appserver/oauth2/authorization.py', 'appserver/oauth2/pushed_authorization.py', 'appserver/__init__.py'],
  [('do_automatic_registration (three)', 'appserver/oidc/authorization.py'), ('client_authentication', 'appserver/oidc/authorization.py')])

p('C23', 'A client only accepts registration responses it can trace to a trust anchor',
  'A client accepts the response to an explicit registration only if its signature verifies, the trust anchor it names is one the client has been configured to trust, the OP/AS has a verified trust chain to that trust anchor and the response verifies at the end of the client\'s own chain to it; the registration it then goes by is the policy adjusted metadata of that chain. (Where a metadata verification service has been configured, that service decides instead of the trust chains.)',
  'inputs', 'all responses',
  'Tests process one honest response.',
  ['appclient/oidc/registration.py', 'appclient/oauth2/registration.py'],
  [('Registration.parse_federation_registration_response (OIDC)', 'appclient/oidc/registration.py'), ('Registration.parse_federation_registration_response (OAuth2)', 'appclient/oauth2/registration.py')])

p('C24', 'Provider metadata used by a client comes from a verified trust chain',
  'Metadata about another entity that is handed out or used (provider discovery, verified metadata look-ups, endpoint look-ups) comes from a trust chain that has been verified and to which the policies have been applied, or for a configured trust anchor from a statement signed with its configured keys. '
  'Without such a chain there is no metadata, and a client does not accept metadata for another issuer than the one it asked about.',
  'inputs', 'all entities and all states of the federation',
  'Tests only look up honest members.',
  ['appclient/stand_alone_client_entity.py', FE, FN, 'entity/function/trust_anchor.py'],
  [('ClientEntity._collect_metadata', 'appclient/stand_alone_client_entity.py'), ('get_verified_trust_chains', FN), ('FederationEntity.get_verified_metadata / get_trust_chains', FE), ('get_verified_endpoint', 'entity/function/trust_anchor.py')])

p('C25', 'The configured trust anchor priority decides which trust chain is used',
  'Where the metadata of a provider, a client or a federation entity are taken from one of several trust chains the one leading to the trust anchor with the highest configured priority is used, whether freshly verified or stored; if none is in the priority list one of the given chains is used. '
  'Of chains verified together that lead to the same trust anchor the one kept is never longer than one that is dropped.',
  'inputs configurations', 'all sets of trust chains and priority lists',
  'Tests have a single trust anchor.',
  [FE, 'appclient/stand_alone_client_entity.py', 'entity_statement/statement.py', '__init__.py'],
  [('FederationEntity.pick_trust_chain / pick_from_stored_trust_chains', FE), ('chains2dict', 'entity_statement/statement.py')])

p('C26', 'Stored trust chains are not used after they have expired',
  'When asked for the trust chains or the verified metadata of an entity, a federation entity never answers from a stored trust chain that has expired; when no stored chain is usable the chains are collected and verified anew, and only verified chains are stored.',
  'histories schedules', 'all sequences of look-ups over time',
  'Tests do not let time pass.',
  [FE, 'entity_statement/statement.py'], [('FederationEntity.get_stored_trust_chains', FE), ('TrustChain.is_expired', 'entity_statement/statement.py')],
  [('trust_chain', 'stored chains per entity', FE)])

p('C27', 'A resolve response is about the asked-for entity and trust anchor',
  'A resolver only answers with metadata from a verified, policy adjusted trust chain that leads to exactly the trust anchor in the request; the response is about the entity in the request, issued in the name of the resolver, and restricted to the entity type if one was given. '
  'The trust chain in it is the one the metadata comes from: the entity configuration of the entity, then the statement of each superior about the one below, up to the trust anchor (and its entity configuration only when that is asked for); it is found whichever part of the entity fetched the entity configurations.',
  'inputs', 'all requests and federations',
  'Tests resolve one entity with one trust anchor.',
  ['entity/server/resolve.py', 'entity/function/trust_chain_collector.py'], [('Resolve.process_request', 'entity/server/resolve.py'), ('TrustChainCollector.get_chain', 'entity/function/trust_chain_collector.py')])

p('C28', 'Subordinate statements are only issued for known subordinates in own name',
  'The fetch endpoint only issues statements in the name of the entity itself; about others only for registered subordinates, with what is registered about that subordinate (its keys in particular) and the policy for it, or for all of its entity types if there is none. '
  'Serving requests never changes what is registered.',
  'inputs histories', 'all requests and sequences of requests and configuration changes',
  'Tests make single requests.',
  ['entity/server/fetch.py'], [('Fetch.process_request', 'entity/server/fetch.py')], [('subordinate, policy', 'registered subordinates and policies', 'entity/server/__init__.py')])

p('C29', 'The list endpoint lists exactly the subordinates that match the request',
  'The list endpoint returns only registered subordinates, all of them when nothing is asked for, and otherwise those, all of them and no others, that satisfy every one of the criteria in the request (entity type, intermediate, trust marked, trust mark identifier). '
  'What it says about trust marks comes from entity configurations verified with the registered keys.',
  'inputs', 'all combinations of criteria and subordinates',
  'Tests use one criterion at a time.',
  ['entity/server/list.py'], [('List.process_request / filter / collect_subordinates', 'entity/server/list.py')])

p('C30', 'Entity configurations and statements say what they should and nothing secret',
  'A published entity configuration is issued by and about the entity itself, signed with its federation keys and contains its metadata, authority hints and trust marks. '
  'Its metadata is that of every entity type it is configured as, each under the name of that type and with the endpoints it has; the issuer in the metadata of an OP or AS is the entity identifier. '
  'Statements always carry the keys given for the subject (otherwise those of the issuer), only public key material is ever exported, and they always get an expiration time.',
  'inputs configurations', 'all configurations',
  'Tests look at a few configurations and never at the private part of keys.',
  ['entity_statement/create.py', 'entity/server/entity_configuration.py', 'entity/context.py'],
  [('create_entity_statement', 'entity_statement/create.py'), ('EntityConfiguration.process_request', 'entity/server/entity_configuration.py'), ('FederationCombo.get_metadata', 'combo/__init__.py')])

p('C31', 'Building entities does not change the default tables they are built from',
  'Constructing an entity from the default tables of services, endpoints and functions gives it its own copy: configuring one entity never changes the tables or another entity. '
  'Every class named in the tables exists.',
  'histories configurations', 'all sequences of entity constructions in one process, all configurations',
  'Each test builds a fixed set of entities with the same settings.',
  ['defaults.py', 'build_entity.py', 'utils.py'], [('federation_services / federation_endpoints / federation_functions', 'defaults.py'), ('FederationEntityBuilder', 'build_entity.py')])

p('C32', 'The who endpoint only reports entities that are verified',
  'Asking who has a trust mark only goes through trust anchors that are trusted, and only reports entities with verified metadata for the wanted credential type and, if a trust mark is asked for, with a verified trust mark of that kind about themselves.',
  'inputs', 'all requests and federation contents',
  'There is one test with honest entities.',
  ['entity/server/who.py'], [('Who.process_request', 'entity/server/who.py')])

p('C33', 'Federation messages require the claims the protocol depends on',
  'Entity statements without issuer, subject, issue or expiration time, trust marks without issuer, subject, issue time or identifier, and resolve, trust mark and status requests without the required parameters are refused by their message classes. So are '
  'resolve responses without metadata, historical keys without issuer, issue time or keys, authorization server metadata without issuer, and '
  'client information without client identifier, or with a client secret whose expiration time is not stated. '
  'A trust mark checked for an entity is refused when it is about another one.',
  'inputs', 'all messages',
  'Tests have a few examples.',
  ['message.py'], [('c_param tables and verify methods', 'message.py')])

p('C34', 'An authorization response is only accepted from the issuer it was requested from',
  'A client only finalizes an authorization response whose state it has created and whose issuer binding is the provider the client is using; error responses never yield tokens, and the code exchanged for tokens is the one received for that state. '
  'Access tokens and authentications are reported as valid only as long as they have not expired.',
  'inputs histories', 'all responses, states and points in time',
  'Tests do not mix providers or let time pass.',
  ['appclient/stand_alone_client_entity.py'], [('StandAloneClientEntity.finalize_auth', 'appclient/stand_alone_client_entity.py'), ('get_valid_access_token / has_active_authentication', 'appclient/stand_alone_client_entity.py')])

p('C35', 'The trust chains of an entity are exactly the paths through its superiors',
  'From the collected superiors every path from the entity to a top entity gives one candidate chain, with the statement from the top first and the one about the entity last; only verified candidates are kept. '
  'Different candidate chains never share or lose statements.',
  'inputs', 'all trees of superiors',
  'Tests have one or two branches.',
  [FN], [('tree2chains', FN), ('collect_trust_chains / verify_trust_chains', FN)])

p('C36', 'Trust anchors come from configuration only',
  'The set of trust anchors and their keys is only ever set by the configuration and the explicit call for adding a trust anchor; adding one makes both the name and the keys known.',
  'histories', 'all sequences of operations',
  'Tests do not observe the set after running other operations.',
  [COL, FE], [('TrustChainCollector.__init__ / add_trust_anchor', COL), ('FederationEntity.trust_anchors / add_trust_anchor', FE)])

p('C37', 'Dumping and loading trust mark stores, caches and trust chains loses nothing',
  'Everything the answers of a trust mark store, a statement cache or a trust chain depend on (for a federation context: life time, authority hints, priorities and trust marks) is in what is dumped of it, and loading that gives it back: both trust mark stores dump and load every recorded trust mark under its identifier, and trust chains and caches dump all their state as the kind of value it is.',
  'histories', 'all states reached by any history',
  'Tests round trip one state.',
  ['trust_mark_entity/__init__.py', 'entity_statement/cache.py', 'entity_statement/statement.py', 'entity/context.py'],
  [('FileDB.dump / load, SimpleDB.dump / load', 'trust_mark_entity/__init__.py'), ('ESCache.parameter', 'entity_statement/cache.py'),
   ('TrustChain.parameter', 'entity_statement/statement.py'), ('FederationContext.parameter', 'entity/context.py')])

p('C38', 'Trust chains and metadata are only refused for a reason that is specified',
  'The trust chain verifier only refuses a chain whose first issuer is neither a trust anchor nor itself, or that has a statement that is not signed, is not linked to the one above, has no key it can be verified with, has expired, marks something unknown as critical or lacks keys that are needed further down, or that does not meet the constraints in it. It only fails to meet them when it is longer than some statement allows, or the subject of a statement at or below the one that says so is within an excluded name or outside the permitted ones. A policy operator only raises an error about a value that does not satisfy it: value, add and default never do.',
  'inputs', 'all trust chains, constraints, metadata and policies',
  'Tests have a handful of chains that are accepted.',
  [TC, CON, OPS], [('TrustChainVerifier.__call__', TC), ('meets_restrictions', CON), ('PolicyOperator subclasses', OPS)])

p('C39', 'Automatic registration is only used when announced, and does not touch the registrations of others',
  'A client is only registered automatically if the OP or AS announces that it supports automatic registration (client_registration_types_supported has automatic), whatever would make it want to: a request for authorization, or looking for the keys of who signed one. Client authentication never replaces or removes the registration of a client that was registered in another way, or that of another client than the one in the request: what is registered automatically under another identifier than the entity identifier is known, and used, for exactly the client that it was registered for (looking for the keys of the one that signed a request may register that one again). A request for authorization is handled as that of the client that was authenticated. An OpenID Connect OP marks every client that it has registered automatically, however that came about, and registers such a client anew for its next request. The trust anchor that is named in a response is the one of a trust chain of the client that made the request.',
  'histories', 'all authorization requests, sequences of them, client databases and configurations of the OP and AS',
  'Tests have one automatic registration with a fixed configuration.',
  ['appserver/oidc/authorization.py', 'appserver/oauth2/authorization.py', 'appserver/oauth2/pushed_authorization.py'], [('Authorization.client_authentication, find_client_keys, extra_response_args', 'appserver/oidc/authorization.py'), ('Authorization.client_authentication, find_client_keys, extra_response_args', 'appserver/oauth2/authorization.py'), ('PushedAuthorization.client_authentication, find_client_keys', 'appserver/oauth2/pushed_authorization.py')])

p('C40', 'A client is registered with values that were verified, or not at all',
  'When the registration of a client fails, for whatever reason, the client database of the OP or OAuth2 AS has about that client what it had before: nothing if it was unknown, otherwise its former registration; what is left is never the beginning of a registration. What an OAuth2 AS registers is metadata that has been checked and of which every claim that the AS has a preference for has been matched with what it supports: a value that the AS does not support is left out or the registration is refused, and of a list only what both have is kept. Of the URIs only these are registered: redirect URIs of a web client that are https (http also for a client that says that it only uses the response type code) and have no fragment; redirect URIs of a native client that have a scheme of their own or are http on localhost or 127.0.0.1; a post logout redirect URI without fragment; request URIs without query; policy, logo and terms of service URIs that the redirect URIs vouch for. A client secret is only kept as the key of the client it was made for.',
  'inputs histories', 'all client metadata, all preferences of the AS, and all sequences of registrations',
  'Tests register one well formed client.',
  ['appserver/oauth2/registration.py', 'appserver/oidc/registration.py'], [('Registration.client_registration_setup, do_client_registration, verify_redirect_uris, match_claim, filter_client_request', 'appserver/oauth2/registration.py'), ('Registration.non_fed_process_request', 'appserver/oidc/registration.py')])

p('C41', 'No superior is left out of the collection without a reason',
  'Every superior that the entity configuration of an entity names is asked for its statement about that entity, and the superiors above it are those that its own entity configuration names, collected in the same way up to the same trust anchor and the same maximum length. A superior is only left out when it is on the path already, when the path would get longer than the maximum, when a trust anchor names itself, when it states nothing about the entity, or when there is no usable entity configuration of it even after an attempt to fetch one anew; nothing is collected above the trust anchor at which the caller wants to stop, or above an entity that names no superiors. Leaving one out for such a reason is not an error and leaves the others. Collection starts with the entity configuration of exactly the entity that is asked for, which is what is returned in signed form.',
  'inputs histories', 'all topologies, and contents of the caches when collection starts',
  'Tests have one topology in which every superior can be used.',
  [COL], [('TrustChainCollector.collect_tree, collect_branch, __call__, get_federation_fetch_endpoint', COL)])

p('C42', 'Going down the federation ends, and finds what the superiors there list',
  'Looking for entities of a type below a superior (trawling, which the who endpoint does for what a trust anchor lists) ends for every federation, whatever the entities in it list as theirs: an entity that is on the path already is not visited again, and no path gets longer than the maximum. The configuration of an entity that is not known is only fetched after its superior (the trust anchor, for what that lists) has made a statement about it. An entity is found if its own configuration has metadata of the type, or if an entity that is visited lists it as being of the type; visited are all that a visited one lists as intermediates. One that does not say where its subordinates are listed has none. Nothing else is found and nothing of this is left out.',
  'inputs', 'all federations, also with loops and with entities that list others wrongly',
  'Tests do not go down a federation.',
  ['entity/__init__.py', 'entity/server/who.py'], [('FederationEntity.trawl', 'entity/__init__.py'), ('Who.process_request', 'entity/server/who.py')])

p('C43', 'A federation request asks the party concerned for what the caller wants, and for nothing else',
  'Every request that the federation client composes is about what the caller says and goes to the party that is to answer it, for all arguments. The entity configuration of the entity asked for (or one\'s own if none is) is at the well-known location computed from that entity\'s identifier alone, with the path of the identifier when it is asked for as a tenant. A statement is asked for at the fetch endpoint given, or else at the one in the entity configuration of the issuer, naming the issuer and, if there is one, the subject as given. A list of subordinates is asked for at the endpoint given, or else at the verified list endpoint of the entity asked, with every one of the filters (entity type, trust marked, trust mark id, intermediate) that is given, as given, and with no other. A request to resolve has the arguments given and is not sent unless it is complete. The requests for the status of a trust mark and for its holders have the subject, trust mark id and issue time given. A trust mark is asked for by its id, at the endpoint in the verified metadata of its issuer. The client sends what was composed to the location it was composed for, and what it returns is the response to that request.',
  'inputs', 'all arguments, given or left out in any combination',
  'Tests compose a few requests with fixed arguments.',
  ['entity/client/__init__.py', 'entity/client/entity_configuration.py', 'entity/client/entity_statement.py', 'entity/client/list.py', 'entity/client/resolve.py', 'entity/client/trust_mark_status.py', 'entity/client/trust_mark_list.py', 'entity/client/trust_mark.py'],
  [('EntityConfiguration.get_request_parameters', 'entity/client/entity_configuration.py'), ('EntityStatement.get_request_parameters', 'entity/client/entity_statement.py'), ('List.get_request_parameters', 'entity/client/list.py'), ('FederationClient.do_request', 'entity/client/__init__.py')])

p('C44', 'Only a successful response of a provider counts, and only what was verified and belongs to the session is used',
  'What comes with a status that is not a successful one is never taken as the response that a client asked for: it is reported as an error (or as a redirect), or an exception is raised, whatever the body contains and whether or not it can be parsed and verified. Neither an error nor a redirect changes what the client knows about itself, its registration or a session. A successful response is the one that the service has parsed and verified, never the bare text. Tokens are asked for with the code and the redirect URI of the session, user info with the access token given or that of the session; an error is raised, not returned. The ID token that the client goes by is one that was verified, and it, the access token and the user info are those of the authentication that is finalized; an authorization error gives nothing but the error. An access token or an authentication that has expired is not valid.',
  'inputs', 'all responses of providers: every status, content type and body',
  'Tests use responses of providers that behave.',
  ['appclient/__init__.py', 'appclient/stand_alone_client_entity.py', 'entity/client/__init__.py'],
  [('ClientEntity.get_response', 'appclient/__init__.py'), ('ClientEntity.service_request', 'appclient/__init__.py'), ('StandAloneClientEntity.finalize', 'appclient/stand_alone_client_entity.py'), ('StandAloneClientEntity.get_access_and_id_token', 'appclient/stand_alone_client_entity.py'), ('StandAloneClientEntity.get_valid_access_token', 'appclient/stand_alone_client_entity.py')])


if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as fp:
        for x in P:
            fp.write(json.dumps(x) + '\n')
    print(len(P))
