From 01e5c37d86f1c8ea01e3cea53c56849fcd82b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:42 +0000
Subject: [PATCH 01/62] fix: entities built from the default tables no longer
 share their configuration

The kwargs dictionaries in the default service, endpoint and function tables
were handed out by reference and updated in place, so the trust anchors given
to one federation entity became the trust anchors of every other one.
---
 src/fedservice/build_entity.py |  5 +++--
 src/fedservice/defaults.py     | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..5ba9cec 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Callable
 from typing import Optional
 from typing import Union
@@ -38,7 +39,7 @@ class FederationEntityBuilder():
         if services:
             kwargs['services'] = services
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = deepcopy(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -99,7 +100,7 @@ class FederationEntityBuilder():
         if functions:
             kwargs['functions'] = functions
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = deepcopy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
diff --git a/src/fedservice/defaults.py b/src/fedservice/defaults.py
index 59c3de9..13892c2 100644
--- a/src/fedservice/defaults.py
+++ b/src/fedservice/defaults.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import FederationEntity
 from fedservice.message import OauthClientMetadata
@@ -87,11 +89,11 @@ def federation_services(*api):
         if isinstance(a, dict):
             continue
         if a in SERVICES:
-            res[a] = SERVICES[a]
+            res[a] = deepcopy(SERVICES[a])
         elif a in DEFAULT_OAUTH2_FED_SERVICES:
-            res[a] = DEFAULT_OAUTH2_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OAUTH2_FED_SERVICES[a])
         elif a in DEFAULT_OIDC_FED_SERVICES:
-            res[a] = DEFAULT_OIDC_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OIDC_FED_SERVICES[a])
 
     for a in api:
         if isinstance(a, dict):
@@ -171,7 +173,7 @@ FEDERATION_ENDPOINTS = {
 
 
 def federation_endpoints(*apis) -> dict:
-    interm = {a: FEDERATION_ENDPOINTS[a] for a in apis if isinstance(a, str)}
+    interm = {a: deepcopy(FEDERATION_ENDPOINTS[a]) for a in apis if isinstance(a, str)}
     for a in apis:
         if isinstance(a, dict):
             interm.update(a)
@@ -216,7 +218,7 @@ FEDERATION_ENTITY_FUNCTIONS = {
 
 
 def federation_functions(*apis):
-    return {a: FEDERATION_ENTITY_FUNCTIONS[a] for a in apis}
+    return {a: deepcopy(FEDERATION_ENTITY_FUNCTIONS[a]) for a in apis}
 
 
 DEFAULT_FEDERATION_ENTITY_FUNCTIONS = federation_functions("trust_chain_collector", "verifier",
-- 
2.43.0


From 8ab76f45bca72db5d26ffc4137e27e613cdc98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/62] fix: a trust chain must end in a configured trust
 anchor

Being in the federation keyjar is not enough: the keys of every intermediate
and leaf in a verified chain are added to that keyjar.
---
 src/fedservice/entity/function/verifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..b4fad7e 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -25,7 +25,11 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # Keys of intermediates may also be in the keyjar, so what counts is whether
+            # the entity has been configured to be a trust anchor.
+            # An entity always trusts itself.
+            if payload['iss'] != _federation_entity.entity_id and \
+                    payload['iss'] not in _federation_entity.trust_anchors:
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
-- 
2.43.0


From 0c65583c33564864a872e63f08d8789d565e700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 03/62] fix: reject a trust chain that contains something which
 is not a signed JWT

Such an item was skipped, so the chain was accepted without it.
---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index b4fad7e..8594948 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -63,6 +63,10 @@ class TrustChainVerifier(Function):
         _keyjar = self.upstream_get("attribute", "keyjar")
         for entity_statement in entity_statement_list:
             _jwt = factory(entity_statement)
+            if not _jwt:
+                logger.error("Something in the trust chain is not a signed JWT")
+                return []
+
             if _jwt:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-- 
2.43.0


From c45df2bb9d851eb7cac29ee106fa992849a9c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 04/62] fix: the statements in a trust chain must be linked to
 each other

Every statement has to be issued by the subject of the statement above it.
---
 src/fedservice/entity/function/verifier.py | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 8594948..0aeb788 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -44,6 +44,25 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def is_linked(self, superior, statement, is_last):
+        """
+        Verifies that a statement belongs directly below another statement in a trust chain.
+
+        :param superior: The (verified) entity statement above
+        :param statement: The payload of the statement below
+        :param is_last: Whether the statement is the last one in the trust chain.
+        :return: True/False
+        """
+        if statement['iss'] == superior['sub']:
+            return True
+
+        # The response to an explicit registration is about me but not issued by me
+        _federation_entity = get_federation_entity(self)
+        if _federation_entity and is_last:
+            return statement['sub'] == superior['sub'] == _federation_entity.entity_id
+
+        return False
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -70,6 +89,10 @@ class TrustChainVerifier(Function):
             if _jwt:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
+                if ves and not self.is_linked(ves[-1], _jwt.jwt.payload(), len(ves) == n):
+                    logger.error("Statements in the trust chain that are not linked")
+                    return []
+
                 keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
                 if keys == []:
                     logger.error(f'No keys matching: {_jwt.jwt.headers}')
-- 
2.43.0


From ff67d852dffb1673e47b2035243041554e8be4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 05/62] fix: verify each statement in a trust chain with the
 keys its superior states

The keys found in any verified statement were usable for every statement in
every later chain, so an intermediate could add keys for an entity that is not
below it and then issue statements in the name of that entity.
---
 src/fedservice/entity/function/verifier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 0aeb788..e2c3670 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -3,6 +3,7 @@ from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 
@@ -93,7 +94,13 @@ class TrustChainVerifier(Function):
                     logger.error("Statements in the trust chain that are not linked")
                     return []
 
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
+                if ves and _jwt.jwt.payload()['iss'] == ves[-1]['sub']:
+                    # Only the keys the superior says the issuer has
+                    _issuer_keyjar = KeyJar()
+                    _issuer_keyjar.add_kb(ves[-1]['sub'], KeyBundle(keys=ves[-1]['jwks']['keys']))
+                else:
+                    _issuer_keyjar = _keyjar
+                keys = _issuer_keyjar.get_jwt_verify_keys(_jwt.jwt)
                 if keys == []:
                     logger.error(f'No keys matching: {_jwt.jwt.headers}')
                     logger.debug(f"keyjar contains: {_keyjar}")
-- 
2.43.0


From 4e4ebb34d237e4fc9df74be5e7e1642dd85c909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 06/62] fix: a trust chain can not change the keys of a trust
 anchor

A subordinate statement about a trust anchor, issued by any entity in a verified
chain, added keys to the trust anchor's keys.
---
 src/fedservice/entity/function/verifier.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index e2c3670..bb6ebac 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -45,6 +45,18 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def has_configured_keys(self, entity_id):
+        """
+        The keys of the trust anchors, and my own keys, comes from the configuration. No one else
+        gets to say what they are.
+        """
+        _federation_entity = get_federation_entity(self)
+        if not _federation_entity:
+            return False
+
+        return entity_id == _federation_entity.entity_id or \
+            entity_id in _federation_entity.trust_anchors
+
     def is_linked(self, superior, statement, is_last):
         """
         Verifies that a statement belongs directly below another statement in a trust chain.
@@ -123,7 +135,7 @@ class TrustChainVerifier(Function):
                         _keyjar.add_kb(res['sub'], _kb)
                     else:
                         new = [k for k in _kb if k not in old]
-                        if new:
+                        if new and not self.has_configured_keys(res['sub']):
                             _key_spec = [f'{k.kty}:{k.use}:{k.kid}' for k in new]
                             logger.debug(
                                 "New keys added to the federation key jar for '{}': {}".format(
-- 
2.43.0


From 5bb6b47fd1486573589e474b980dd5d0250249d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 07/62] fix: an expired entity statement makes the trust chain
 invalid

---
 src/fedservice/entity/function/verifier.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index bb6ebac..623b79f 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -12,6 +12,7 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -122,6 +123,10 @@ class TrustChainVerifier(Function):
                 logger.debug("Possible verification keys: %s", _key_spec)
                 res = _jwt.verify_compact(keys=keys)
                 logger.debug("Verified entity statement: %s", res)
+                if statement_is_expired(res):
+                    logger.error("Expired entity statement in the trust chain")
+                    return []
+
                 try:
                     _jwks = res['jwks']
                 except KeyError:
-- 
2.43.0


From d8c9e5efdb4b653c33fcd2b7bf1d717204993970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 08/62] fix: a trust chain with unknown critical claims or
 policy operators is not valid

---
 src/fedservice/entity/function/verifier.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 623b79f..0bb4fbc 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -8,10 +8,12 @@ from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 
 from fedservice.entity.function import Function
+from fedservice.entity.function.policy import POLICY_FUNCTIONS
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import EntityStatement
 from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
@@ -127,6 +129,16 @@ class TrustChainVerifier(Function):
                     logger.error("Expired entity statement in the trust chain")
                     return []
 
+                if set(res.get('crit', [])).difference(EntityStatement.c_param):
+                    logger.error(f"Critical claims I do not understand: {res['crit']}")
+                    return []
+
+                if set(res.get('policy_language_crit', [])).difference(POLICY_FUNCTIONS):
+                    logger.error(
+                        f"Critical policy operators I do not understand: "
+                        f"{res['policy_language_crit']}")
+                    return []
+
                 try:
                     _jwks = res['jwks']
                 except KeyError:
-- 
2.43.0


From 64ef719f791faac3be305321c56d16587164752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 09/62] fix: constraints apply to everything below the
 statement that sets them

A max_path_length was never counted down, and a statement without constraints
was not checked against the constraints set above it. A naming constraint with
only one of permitted and excluded further down raised KeyError.
---
 src/fedservice/entity_statement/constraints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..33e45ce 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -85,7 +85,7 @@ def add_constraints(new_constraints: dict, naming_constraints: dict):
 
             continue
         else:
-            if not new_constraints[key]:
+            if not new_constraints.get(key):
                 continue
 
         naming_constraints[key] = update_specs(new_constraints[key], naming_constraints[key])
@@ -136,13 +136,13 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     }
 
     for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
-            continue
+        # Constraints set further up applies also if this statement doesn't contain any
+        _constraints = statement.get('constraints') or {}
 
         current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
                                                         max_assigned)
+        if 'max_path_length' in _constraints:
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
-- 
2.43.0


From 3ee24027493f44dc0c2a1d5e758679edfc4ba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 10/62] fix: an exclusion set by a superior can not be undone
 by its subordinates

---
 src/fedservice/entity_statement/constraints.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 33e45ce..1fd1751 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -130,6 +130,7 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
     current_max_path_length = 0
     max_assigned = False
+    excluded_ids = []
     naming_constraints = {
         "permitted": None,
         "excluded": None
@@ -149,6 +150,11 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
         naming_constraints = update_naming_constraints(_constraints, naming_constraints)
 
+        # What a superior has excluded can not be made smaller further down
+        _naming = _constraints.get('naming_constraints') or {}
+        excluded_ids.extend(_naming.get('excluded') or [])
+        naming_constraints['excluded'] = excluded_ids
+
         # if explicitly excluded return False
         if 'excluded' in naming_constraints and naming_constraints['excluded']:
             if excluded(statement['sub'], naming_constraints['excluded']):
-- 
2.43.0


From fbb0d9b062786ff94098dbc52b958c1cb6c8533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 11/62] fix: a trust mark with a delegation that is not valid
 is not accepted

The result of verifying the delegation was only logged, a delegation to another
trust mark issuer, for another trust mark or that had expired was accepted and,
when no key of the trust mark owner matched, so was one signed with a key
taken from its own header.
---
 .../entity/function/trust_mark_verifier.py         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..174b547 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -50,6 +50,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -101,4 +102,15 @@ class TrustMarkVerifier(Function):
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
         keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        if not keys:
+            return None
+
+        _val = _delegation.verify_compact(keys=keys)
+        # The delegation must be to the issuer of this trust mark and for this kind of trust mark
+        if _val.get('sub') != trust_mark['iss'] or _val.get('id') != trust_mark['id']:
+            return None
+
+        if statement_is_expired(_val):
+            return None
+
+        return _val
-- 
2.43.0


From 1923e46c6dce437a48d769191057d8fbc725946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 12/62] fix: never verify a signature without having keys to
 verify it with

An empty list of keys makes verify_compact use the key in the JWS header.
---
 src/fedservice/entity/function/trust_anchor.py        | 3 +++
 src/fedservice/entity/function/trust_mark_verifier.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index 483226f..de59660 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -1,5 +1,6 @@
 from typing import Optional
 
+from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
 
 from fedservice.entity.function import get_verified_trust_chains
@@ -11,6 +12,8 @@ def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
     _ec = _collector.get_entity_configuration(entity_id)
     _jwt = factory(_ec)
     keys = federation_entity.keyjar.get_jwt_verify_keys(_jwt.jwt)
+    if not keys:
+        raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
     res = _jwt.verify_compact(keys=keys)
     return res
 
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 174b547..65e9380 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -79,6 +79,11 @@ class TrustMarkVerifier(Function):
                                  _trust_chains[0].iss_path[0])
             keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
 
+        if not keys:
+            # Without keys the signature would be verified with a key from the JWS header
+            logger.warning("No keys to verify the trust mark with")
+            return None
+
         try:
             _mark = _jwt.verify_compact(trust_mark, keys=keys)
         except Exception as err:
-- 
2.43.0


From 194d4291091785fc0c6e8c4ba5bc79e67f888914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 13/62] fix: the trust mark verifier checks who the trust mark
 is about when asked to

---
 src/fedservice/entity/function/trust_mark_verifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 65e9380..0f82db7 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -39,7 +39,10 @@ class TrustMarkVerifier(Function):
         payload = get_payload(trust_mark)
         _trust_mark = message.TrustMark(**payload)
         # Verify that everything that should be there, are there
-        _trust_mark.verify()
+        if entity_id:
+            _trust_mark.verify(entity_id=entity_id)
+        else:
+            _trust_mark.verify()
 
         # Has it expired ?
         if statement_is_expired(_trust_mark):
-- 
2.43.0


From 1c3c420a84c17a090341e9d4cb13b6429382d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 14/62] fix: an expired trust mark doesn't hide the ones issued
 to others

Also, asking about an unknown trust mark ID means nothing was found.
---
 src/fedservice/trust_mark_entity/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..70b3f21 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -31,6 +31,9 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
@@ -39,7 +42,7 @@ class FileDB(object):
                 if 'exp' in _tmi:
                     now = utc_time_sans_frac()
                     if now > _tmi["exp"]:
-                        return False
+                        continue
 
                 if self._match(sub, iat, _tmi):
                     return True
-- 
2.43.0


From 5c8175d425e066630c776bcd0d158456f6f1ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 15/62] fix: SimpleDB handles more than one holder of a trust
 mark and expired ones

Listing with both sub and trust_mark_id returned a place holder.
---
 src/fedservice/trust_mark_entity/__init__.py        | 13 +++++++++----
 .../trust_mark_entity/server/trust_mark_list.py     |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 70b3f21..e6d0c07 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -101,20 +101,25 @@ class SimpleDB(object):
 
     def add(self, tm_info: dict):
         if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
+            self._db[tm_info['id']][tm_info['sub']] = tm_info
         else:
             self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
         if sub:
-            if self._db[trust_mark_id].get(sub, None):
+            if self._db.get(trust_mark_id, {}).get(sub, None):
                 return [sub]
         elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+            return list(self._db[trust_mark_id].keys())
+
+        return []
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
+        _tmi = self._db.get(trust_mark_id, {}).get(sub, None)
         if _tmi:
+            if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:
+                return False
+
             if iat:
                 if iat == _tmi["iat"]:
                     return True
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
-- 
2.43.0


From 5ab3540eea1e93ee0003ccee647c5fd66819fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 16/62] fix: the trust anchor priority decides which stored
 trust chain is picked

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 src/fedservice/entity/__init__.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..0ed0da5 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -143,7 +143,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..2a6c4d0 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From fcc285f34bc8a97b52fc99ce026bdd9c0216e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 17/62] fix: metadata from a superior overrides the metadata in
 the entity configuration

It was the other way around. Also, policies were applied directly on the
metadata in the verified entity configuration.
---
 src/fedservice/entity/function/policy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..e15fe03 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -340,11 +340,13 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
+        # Don't touch the metadata in the verified statement
+        metadata = dict(metadata)
+
+        # What a superior says about metadata parameters overrides what the subject itself says
         _metadata = policy.get("metadata", None)
         if _metadata:
-            _metadata = _metadata.copy()
-            _metadata.update(metadata)
-            metadata = _metadata
+            metadata.update(_metadata)
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From c73fd273de21b4201b875f4768f221816496fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 18/62] fix: a list is not one of, and a single value has to be
 in subset_of

one_of was not enforced when the metadata value was a list. For subset_of a
single value was compared with the names of the policy operators.
---
 src/fedservice/entity/function/policy_operator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..3c6014a 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -44,7 +44,8 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                raise PolicyError(
+                    f"{metadata[claim]} is not one of {metadata_policy[claim][self.name]}")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
@@ -82,8 +83,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return None
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
-- 
2.43.0


From 3eb97408db16c39b57b5e865eff9dfe2662d78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 19/62] fix: a subordinate can not use value to get around the
 policy of its superior

---
 src/fedservice/entity/function/policy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index e15fe03..a94148c 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -146,6 +146,10 @@ def combine_claim_policy(superior, child):
                 raise PolicyError("Essential can not go from True to False")
 
         comb_policy = superior_set.union(child_set)
+        if "value" in comb_policy and comb_policy.difference({"value", "essential"}):
+            # Would make the rest of the superiors policy useless
+            raise PolicyError(f"value can only be combined with essential, not {superior_set}")
+
         if "one_of" in comb_policy:
             if "subset_of" in comb_policy or "superset_of" in comb_policy:
                 raise PolicyError("one_of can not be combined with subset_of/superset_of")
-- 
2.43.0


From c3392cf27d10763a602aab817d24688a61f6dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:07 +0000
Subject: [PATCH 20/62] fix: the collection of trust chains always ends

A loop in the authority hints was detected but then followed anyway, and the
maximum number of superiors was not enforced.
---
 src/fedservice/entity/function/trust_chain_collector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..f225a0e 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -228,7 +228,7 @@ class TrustChainCollector(Function):
                      entity_id: str,
                      entity_configuration: Union[dict, Message],
                      seen: Optional[list] = None,
-                     max_superiors: Optional[int] = 1,
+                     max_superiors: Optional[int] = 10,
                      stop_at: Optional[str] = "") -> Optional[dict]:
         """
         Collect superiors one level at the time
@@ -257,6 +257,7 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
@@ -324,9 +325,9 @@ class TrustChainCollector(Function):
             _seen = seen[:]
 
         _seen.append(authority)
-        # if len(_seen) > max_superiors:
-        #     logger.warning("Reached max superiors. The path here was {}".format(_seen))
-        #     return None
+        if len(_seen) > max_superiors:
+            logger.warning("Reached max superiors. The path here was {}".format(_seen))
+            return None
 
         entity_statement = self._get_entity_statement(entity, authority)
 
-- 
2.43.0


From 413cac933a0bc526b5f59da5337fd46de1a060f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 21/62] fix: cached statements that have expired are not used

too_old added the allowed delta instead of subtracting it, and the expiration
time was not looked at when the cached statement is a Message instance or when
using get and in.
---
 .../entity/function/trust_chain_collector.py          |  2 +-
 src/fedservice/entity_statement/cache.py              | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index f225a0e..366b7cf 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -343,7 +343,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..3317a68 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.impexp import ImpExp
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
@@ -28,7 +29,7 @@ class ESCache(ImpExp):
         except KeyError:
             return None
         else:
-            if isinstance(statement, dict):
+            if isinstance(statement, (dict, Message)):
                 # verify that the statement is recent enough
                 _now = utc_time_sans_frac()
                 if _now < (statement["exp"] - self.allowed_delta):
@@ -49,7 +50,11 @@ class ESCache(ImpExp):
         return len(self._db)
 
     def __contains__(self, item):
-        return item in self._db
+        return self[item] is not None
 
     def get(self, key, default: Optional[Any] = None):
-        return self._db.get(key, default)
+        statement = self[key]
+        if statement is None:
+            return default
+        return statement
+
-- 
2.43.0


From 14437f2ddfa744e1638860abd21eb6ef46f3ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:59 +0000
Subject: [PATCH 22/62] fix: trust mark owners are taken from a verified trust
 anchor statement

The trust anchor's entity configuration was used without verifying that it is
signed with the configured keys, is about the trust anchor and hasn't expired.
---
 src/fedservice/entity/function/trust_anchor.py        | 5 +++++
 src/fedservice/entity/function/trust_mark_verifier.py | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_anchor.py b/src/fedservice/entity/function/trust_anchor.py
index de59660..1abea59 100644
--- a/src/fedservice/entity/function/trust_anchor.py
+++ b/src/fedservice/entity/function/trust_anchor.py
@@ -5,6 +5,7 @@ from cryptojwt.jws.jws import factory
 
 from fedservice.entity.function import get_verified_trust_chains
 from fedservice.entity.utils import get_federation_entity
+from fedservice.utils import statement_is_expired
 
 
 def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
@@ -15,6 +16,10 @@ def get_verified_trust_anchor_statement(federation_entity, entity_id: str):
     if not keys:
         raise MissingKey(f'No keys matching: {_jwt.jwt.headers}')
     res = _jwt.verify_compact(keys=keys)
+    if res['iss'] != entity_id or res['sub'] != entity_id:
+        raise ValueError(f"Not the entity configuration of {entity_id}")
+    if statement_is_expired(res):
+        raise ValueError(f"The entity configuration of {entity_id} has expired")
     return res
 
 
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 0f82db7..0d5ed5d 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -11,6 +11,7 @@ from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function.trust_anchor import get_verified_trust_anchor_statement
 from fedservice.entity.utils import get_federation_entity
 from fedservice.utils import statement_is_expired
 
@@ -96,9 +97,10 @@ class TrustMarkVerifier(Function):
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
         _federation_entity = get_federation_entity(self)
-        _collector = _federation_entity.function.trust_chain_collector
         # Deal with the delegation
-        ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
+        # Only what is signed with the keys I know the trust anchor to have can be used here
+        _statement = get_verified_trust_anchor_statement(_federation_entity, trust_anchor_id)
+        ta_fe_metadata = _statement['metadata']['federation_entity']
 
         if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
             return None
-- 
2.43.0


From 980aeed6f837f72f251f95381fd8a6a78aa68835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 23/62] fix: stored trust chains are not used when they have
 expired

---
 src/fedservice/entity/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 2a6c4d0..83ac100 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -265,8 +265,13 @@ class FederationEntity(Unit):
                         _info[md_param] = _val
         return _info
 
+    def get_stored_trust_chains(self, entity_id):
+        # Only the ones that can still be used
+        _trust_chains = [tc for tc in self.trust_chain.get(entity_id) or [] if not tc.is_expired()]
+        return _trust_chains or None
+
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
+        _trust_chains = self.get_stored_trust_chains(entity_id)
         if _trust_chains is None:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
@@ -283,7 +288,7 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
+        _trust_chains = self.get_stored_trust_chains(entity_id)
         if _trust_chains is None:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
-- 
2.43.0


From 3fa6db8de4bb742f845c13b3813992ca41eb5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 24/62] fix: the fetch endpoint only issues statements in its
 own name

The issuer was taken from the request.
---
 src/fedservice/entity/server/fetch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..e464e34 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -26,9 +26,8 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        # I only issue statements in my own name
+        _issuer = self.upstream_get('attribute','entity_id')
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
-- 
2.43.0


From e12b645faee88b610362776d3fbadc77b9afce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:16 +0000
Subject: [PATCH 25/62] fix: a policy that has been removed doesn't live on in
 the subordinate information

The fetch endpoint added authority hints and policies to the stored information.
---
 src/fedservice/entity/server/fetch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index e464e34..fddc836 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -49,6 +49,9 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # What's added below must not end up in what is stored about the subordinate
+            _response = dict(_response)
+
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
-- 
2.43.0


From 86857df02785d9550fe63e67d60d1b4853ab80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 26/62] fix: the list endpoint lists the subordinates that
 match everything asked for

An entity matched if it fulfilled any of the criteria, the entity types are
registered as entity_types, and trust marks are signed JWTs.
---
 src/fedservice/entity/server/list.py | 43 ++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..a2296b9 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -7,6 +7,8 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.function import get_payload
+
 logger = logging.getLogger(__name__)
 
 
@@ -29,24 +31,21 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
+            if entity_type and entity_type not in conf['metadata']:
+                continue
+
+            trust_marks = conf.get('trust_marks') or []
+            if trust_marked and not trust_marks:
+                continue
+
             if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
+                # Trust marks are signed JWTs
+                _ids = [get_payload(_tm)['id'] if isinstance(_tm, str) else _tm['id']
+                        for _tm in trust_marks]
+                if trust_mark_id not in _ids:
+                    continue
 
-            if matched:
-                match.append(entity_id)
+            match.append(entity_id)
         return match
 
     def process_request(self, request=None, **kwargs):
@@ -59,17 +58,19 @@ class List(Endpoint):
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
                 if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
+                    if not item.get("intermediate"):
                         continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    _types = item.get("entity_types") or item.get("entity_type") or []
+                    if request["entity_type"] not in _types:
+                        continue
+                matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
             if "trust_marked" in request or "trust_mark_id" in request:
                 subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+                matched_entity_ids.intersection_update(
+                    self.filter(subordinates=subordinate_conf, **request))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
-- 
2.43.0


From 451f030355ff5a3400eb11bd78b3462f5c25eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 27/62] fix: explicit OIDC registration uses the verified
 metadata

The metadata in the request, which is only self-signed with keys from the
request itself, was registered.
---
 src/fedservice/appserver/oidc/registration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..cf8b243 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -53,7 +53,8 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        # Only metadata that has been verified and to which the policies has been applied
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From 3a31430c78e6ce8ea6b30f4b0088903b06e6a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 28/62] fix: explicit OIDC registration requires an entity
 configuration

The response was sent to the issuer of a statement about someone else.
---
 src/fedservice/appserver/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index cf8b243..44605fb 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -36,6 +36,9 @@ class Registration(registration.Registration):
         :return:
         """
         payload = verify_self_signed_signature(request)
+        if payload['iss'] != payload['sub']:
+            raise ValueError("Not an entity configuration")
+
         _entity_types = set(payload['metadata'].keys())
         if len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
-- 
2.43.0


From ada747991307cb108e6d3bff44be58f330be791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 29/62] fix: a provided trust chain must be about the client
 that provides it

Any client could be registered with the metadata and keys of another one.
---
 src/fedservice/appserver/oauth2/authorization.py        | 4 ++++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 4 ++++
 src/fedservice/appserver/oidc/authorization.py          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..02c98e6 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -54,6 +54,10 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The provided trust chain must end with the client's own entity configuration
+            trust_chains = [
+                tc for tc in trust_chains if
+                tc.verified_chain[-1]['iss'] == tc.verified_chain[-1]['sub'] == entity_id]
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..7f5199e 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -47,6 +47,10 @@ class PushedAuthorization(Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The provided trust chain must end with the client's own entity configuration
+            trust_chains = [
+                tc for tc in trust_chains if
+                tc.verified_chain[-1]['iss'] == tc.verified_chain[-1]['sub'] == entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..9b0e34f 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -54,6 +54,10 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # The provided trust chain must end with the client's own entity configuration
+            trust_chains = [
+                tc for tc in trust_chains if
+                tc.verified_chain[-1]['iss'] == tc.verified_chain[-1]['sub'] == client_entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
-- 
2.43.0


From 500d3c818991a4939ede6a37c6692a04a81edb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:02 +0000
Subject: [PATCH 30/62] fix: an OP without a valid trust chain to the trust
 anchor is not trusted

The result of verifying the trust chains was not used when handling an explicit
registration response.
---
 src/fedservice/appclient/oauth2/registration.py | 2 +-
 src/fedservice/appclient/oidc/registration.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..08414c7 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -128,7 +128,7 @@ class Registration(registration.Registration):
             return False
 
         _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        return trust_anchor in [_tc.anchor for _tc in _trust_chains]
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..41ba16a 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -107,7 +107,7 @@ class Registration(registration.Registration):
             return False
 
         _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        return trust_anchor in [_tc.anchor for _tc in _trust_chains]
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
-- 
2.43.0


From 4afc00d6882aa6978124df6291fe8b42f54361cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 31/62] fix: verify the signature on an OAuth2 explicit
 registration response

The response was only self verified; anyone could sign one. It must verify at the
end of the trust chain from the client to the trust anchor, as for OIDC.
---
 src/fedservice/appclient/oauth2/registration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index 08414c7..d489b5d 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -164,6 +164,14 @@ class Registration(registration.Registration):
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
+            # The response must verify at the end of a trust chain from me to the TA
+            _chains, _ = collect_trust_chains(self.upstream_get('unit'),
+                                              entity_id=self.upstream_get('attribute',
+                                                                          'entity_id'),
+                                              stop_at=payload['trust_anchor_id'])
+            if not verify_trust_chains(_federation_entity, _chains, resp):
+                raise SignatureFailure("Could not verify the registration response")
+
             # This is the trust chain from myself to the TA
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
-- 
2.43.0


From 621f0dea762fa0e23a02982d00fea9b4d31d4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 32/62] fix: exporting a trust chain leaves the trust chain as
 it was

---
 src/fedservice/entity_statement/statement.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..267af1d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,9 +87,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return list(reversed(self.verified_chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From ac23abae518a3fd9506aefb87518cee7ecf98617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 33/62] fix: trust marks kept in a file are published as trust
 marks

---
 src/fedservice/entity/server/entity_configuration.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..cd50da7 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -38,11 +37,9 @@ class EntityConfiguration(Endpoint):
         else:
             _metadata = _fed_entity.get_metadata()
 
-        if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+        _trust_marks = _fed_entity.context.get_trust_marks()
+        if _trust_marks:
+            args = {"trust_marks": _trust_marks}
         else:
             args = {}
 
-- 
2.43.0


From 59dfd563be80a6add162769e29af87fb164646d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 34/62] fix: the keys of a trust anchor are not changed when
 going through the federation

---
 src/fedservice/entity/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 83ac100..3a11b2e 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -324,9 +324,14 @@ class FederationEntity(Unit):
         else:
             _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
 
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
+            if _es["sub"] != subordinate:
+                raise ValueError(f"Not a statement about {subordinate}")
+
+            # add subjects key/-s to keyjar. The keys of a trust anchor, and my own keys, are
+            # configured. No one else gets to say what they are.
+            if subordinate != self.entity_id and subordinate not in self.trust_anchors:
+                _kj = self.get_federation_entity().keyjar
+                _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
 
             # Fetch Entity Configuration
             _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
-- 
2.43.0


From f9b43eeb4a7c096f9950034576c00fddd0f5f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 35/62] fix: only count trust marks about the entity that
 presents them

---
 src/fedservice/entity/server/who.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index c2dc3ab..029ee5f 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -88,7 +88,9 @@ class Who(Endpoint):
                     for _mark in _ec["trust_marks"]:
                         _verified_trust_mark = _federation_entity.verify_trust_mark(
                             _mark, check_with_issuer=True)
-                        if _verified_trust_mark.get("id") == tm_id:
+                        # Must be about the entity that presents it
+                        if _verified_trust_mark.get("id") == tm_id and \
+                                _verified_trust_mark.get("sub") == eid:
                             server_to_use.append(eid)
         else:
             server_to_use = list(_srv.keys())
-- 
2.43.0


From 9eedadf01724fa34a43d868ada718cf2ed80892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 36/62] fix: an OP can not provide metadata about another
 issuer

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0ed0da5..3d81712 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -71,6 +71,8 @@ class StandAloneClientEntity(ClientEntity):
             federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                raise ValueError(f'Metadata for {_pi["issuer"]} from {context.issuer}')
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
-- 
2.43.0


From 42a48e3644c4fedceccb9c18edb87ab179200ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 37/62] fix: names permitted by a superior and by its
 subordinate must both be adhered to

A list of permitted names that wasn't more specific than the one set further up
was ignored, so entities outside of it were accepted below the statement that
set it.
---
 src/fedservice/entity_statement/constraints.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 1fd1751..d105573 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -131,6 +131,7 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     current_max_path_length = 0
     max_assigned = False
     excluded_ids = []
+    permitted_ids = []
     naming_constraints = {
         "permitted": None,
         "excluded": None
@@ -155,6 +156,14 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
         excluded_ids.extend(_naming.get('excluded') or [])
         naming_constraints['excluded'] = excluded_ids
 
+        # Likewise, what is permitted must be so by every statement that states what is
+        if _naming.get('permitted'):
+            permitted_ids.append(_naming['permitted'])
+
+        for _ids in permitted_ids:
+            if not permitted(statement['sub'], _ids):
+                return False
+
         # if explicitly excluded return False
         if 'excluded' in naming_constraints and naming_constraints['excluded']:
             if excluded(statement['sub'], naming_constraints['excluded']):
@@ -177,4 +186,8 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
         if not permitted(statement['sub'], naming_constraints["permitted"]):
             return False
 
+    for _ids in permitted_ids:
+        if not permitted(statement['sub'], _ids):
+            return False
+
     return True
-- 
2.43.0


From 19a6aaf88fb44bd8ce9b3f5ad5cea46eb7ec604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 38/62] fix: essential set by a superior that also sets the
 value can not be undone

---
 src/fedservice/entity/function/policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index a94148c..9f5e274 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -122,6 +122,11 @@ def combine_claim_policy(superior, child):
     superior_set = set(superior).intersection(POLICY_FUNCTIONS)
     child_set = set(child).intersection(POLICY_FUNCTIONS)
 
+    if "essential" in superior_set and "essential" in child_set:
+        # can only go from False to True
+        if superior["essential"] != child["essential"] and child["essential"] is False:
+            raise PolicyError("Essential can not go from True to False")
+
     if "value" in superior_set:  # An exact value can not be restricted.
         if child_set:
             if "essential" in child_set:
@@ -140,11 +145,6 @@ def combine_claim_policy(superior, child):
                     f"Not allowed combination of policies: {superior} + {child}")
         return superior
     else:
-        if "essential" in superior_set and "essential" in child_set:
-            # can only go from False to True
-            if superior["essential"] != child["essential"] and child["essential"] is False:
-                raise PolicyError("Essential can not go from True to False")
-
         comb_policy = superior_set.union(child_set)
         if "value" in comb_policy and comb_policy.difference({"value", "essential"}):
             # Would make the rest of the superiors policy useless
-- 
2.43.0


From 9a732312558dc3fb609c80b2169b5adb97876b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:27 +0000
Subject: [PATCH 39/62] fix: an outdated entity configuration of a superior is
 fetched anew

---
 src/fedservice/entity/function/trust_chain_collector.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 366b7cf..849935c 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -333,6 +333,13 @@ class TrustChainCollector(Function):
 
         if entity_statement:
             _entity_configuration = self.config_cache[authority]
+            if _entity_configuration is None:
+                # The cached entity configuration is outdated. Get a new one.
+                self.get_federation_fetch_endpoint(authority)
+                _entity_configuration = self.config_cache[authority]
+                if _entity_configuration is None:
+                    logger.warning(f"No usable entity configuration for {authority}")
+                    return None
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
-- 
2.43.0


From 0b7da751bc999dd2e68561d6a0997f9884564d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:35 +0000
Subject: [PATCH 40/62] fix: do not list the holders of trust marks that have
 expired

---
 src/fedservice/trust_mark_entity/__init__.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index e6d0c07..cc949a3 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -5,6 +5,10 @@ from typing import Optional
 from cryptojwt.jwt import utc_time_sans_frac
 
 
+def has_expired(tm_info: dict) -> bool:
+    return 'exp' in tm_info and utc_time_sans_frac() > tm_info['exp']
+
+
 class FileDB(object):
 
     def __init__(self, **kwargs):
@@ -82,6 +86,8 @@ class FileDB(object):
                 # Get the last issued
                 for line in reversed(list(fp)):
                     _tmi = json.loads(line.rstrip())
+                    if has_expired(_tmi):
+                        continue
                     if _tmi["sub"] not in res:
                         if sub:
                             if _tmi["sub"] == sub:
@@ -106,13 +112,9 @@ class SimpleDB(object):
             self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        if sub:
-            if self._db.get(trust_mark_id, {}).get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return list(self._db[trust_mark_id].keys())
-
-        return []
+        _issued = self._db.get(trust_mark_id, {})
+        return [_sub for _sub, _tmi in _issued.items()
+                if not has_expired(_tmi) and (not sub or _sub == sub)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
         _tmi = self._db.get(trust_mark_id, {}).get(sub, None)
-- 
2.43.0


From 9efe0ed49815540af5e11a7b5083d2aa6f3fc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 41/62] fix: a trust mark is signed with the issue time that is
 recorded

---
 src/fedservice/trust_mark_entity/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..0a0e8f1 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -89,7 +89,7 @@ class TrustMarkEntity(Unit):
 
         _federation_entity = get_federation_entity(self)
         packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
-        return packer.pack(payload=content)
+        return packer.pack(payload=content, iat=content['iat'])
 
     def dump_trust_marks(self):
         return self.issued.dumps()
@@ -193,7 +193,7 @@ class SelfSignedTrustMarkEntity(Unit):
 
         _federation_entity = get_federation_entity(self)
         packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)
-        _trust_mark = packer.pack(payload=content)
+        _trust_mark = packer.pack(payload=content, iat=content['iat'])
         entity = self.upstream_get("unit")
         entity.context.trust_marks.append(_trust_mark)
 
-- 
2.43.0


From 1c109070a6eda2cbcbd81ba36b65546ce6a83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 42/62] fix: pick the trust chain with the highest priority
 where metadata is taken from one

Verified metadata, federation endpoints and automatically registered clients
took whichever trust chain came first, which is decided by the order of the
authority hints of the other entity, and not the configured priority.
---
 src/fedservice/appserver/oauth2/authorization.py        | 2 +-
 src/fedservice/appserver/oauth2/pushed_authorization.py | 2 +-
 src/fedservice/appserver/oidc/authorization.py          | 2 +-
 src/fedservice/entity/__init__.py                       | 2 +-
 src/fedservice/entity/function/__init__.py              | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 02c98e6..2208c8f 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -68,8 +68,8 @@ class Authorization(authorization.Authorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 7f5199e..1c79b72 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -59,8 +59,8 @@ class PushedAuthorization(Authorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
         _metadata = trust_chain.metadata['oauth_client']
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 9b0e34f..b3ff6b6 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -66,8 +66,8 @@ class Authorization(authorization.Authorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = get_federation_entity(self)
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.store_trust_chains(client_entity_id, trust_chains)
         # _fe.trust_chain_anchor = trust_chain.anchor
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 3a11b2e..4acc444 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -295,7 +295,7 @@ class FederationEntity(Unit):
                 self.store_trust_chain(entity_id, _trust_chains)
 
         if _trust_chains:
-            return _trust_chains[0].metadata
+            return self.pick_trust_chain(_trust_chains).metadata
         else:
             return None
 
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..a7d7498 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -171,7 +171,8 @@ def get_entity_endpoint(unit, entity_id, metadata_type, metadata_parameter):
         trust_chains = get_verified_trust_chains(unit, entity_id)
         # pick one
         if trust_chains:
-            return trust_chains[0].metadata[metadata_type][metadata_parameter]
+            return _federation_entity.pick_trust_chain(trust_chains).metadata[metadata_type][
+                metadata_parameter]
         else:
             return ""
 
-- 
2.43.0


From 3d6de2676090e51370a8caf76c39b42064d29089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 43/62] fix: name the trust anchor of the trust chain that was
 used in the authorization response

---
 src/fedservice/appserver/oauth2/authorization.py        | 2 +-
 src/fedservice/appserver/oauth2/pushed_authorization.py | 2 +-
 src/fedservice/appserver/oidc/authorization.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 2208c8f..3e1b913 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -130,5 +130,5 @@ class Authorization(authorization.Authorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 1c79b72..eae86a0 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -123,5 +123,5 @@ class PushedAuthorization(Authorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index b3ff6b6..d6fa31b 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -139,5 +139,5 @@ class Authorization(authorization.Authorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
-- 
2.43.0


From 6e81cd81fa1e2cfbcb496a52155f00ec946d11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:46 +0000
Subject: [PATCH 44/62] fix: a registration response must verify at the end of
 a trust chain to the trust anchor it names

---
 src/fedservice/appclient/oauth2/registration.py | 5 ++++-
 src/fedservice/appclient/oidc/registration.py   | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index d489b5d..83f4990 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -169,12 +169,15 @@ class Registration(registration.Registration):
                                               entity_id=self.upstream_get('attribute',
                                                                           'entity_id'),
                                               stop_at=payload['trust_anchor_id'])
-            if not verify_trust_chains(_federation_entity, _chains, resp):
+            _verified = verify_trust_chains(_federation_entity, _chains, resp)
+            if payload['trust_anchor_id'] not in [_tc.anchor for _tc in _verified]:
                 raise SignatureFailure("Could not verify the registration response")
 
             # This is the trust chain from myself to the TA
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
+            _trust_chains = [_tc for _tc in _trust_chains if
+                             _tc.anchor == payload['trust_anchor_id']]
 
             # should only be one chain
             if len(_trust_chains) != 1:
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 41ba16a..14999e6 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -147,6 +147,9 @@ class Registration(registration.Registration):
                                               entity_id=self.upstream_get('attribute', 'entity_id'),
                                               stop_at=payload['trust_anchor_id'])
             _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
+            # that is to the trust anchor the OP chose
+            _trust_chains = [_tc for _tc in _trust_chains if
+                             _tc.anchor == payload['trust_anchor_id']]
             # should only be one chain
             if len(_trust_chains) != 1:
                 raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-- 
2.43.0


From 124466e9ffabac539c57abb0b2ffb4f1a71cf05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 45/62] fix: a list request with intermediate or trust_marked
 set to false is not a request for those that are

---
 src/fedservice/entity/server/list.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index a2296b9..4b7833f 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -12,6 +12,13 @@ from fedservice.entity.function import get_payload
 logger = logging.getLogger(__name__)
 
 
+def is_true(value):
+    # In a query string the value is a string
+    if isinstance(value, str):
+        return value.lower() == 'true'
+    return bool(value)
+
+
 class List(Endpoint):
     request_cls = oidc.Message
     # response_cls = EntityIDList
@@ -35,7 +42,7 @@ class List(Endpoint):
                 continue
 
             trust_marks = conf.get('trust_marks') or []
-            if trust_marked and not trust_marks:
+            if is_true(trust_marked) and not trust_marks:
                 continue
 
             if trust_mark_id:
@@ -57,7 +64,7 @@ class List(Endpoint):
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
+                if is_true(request.get("intermediate")):
                     if not item.get("intermediate"):
                         continue
                 if "entity_type" in request:
-- 
2.43.0


From a5578b5c4d9099248094b3899a6d2148f1463f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:30 +0000
Subject: [PATCH 46/62] fix: the entity configuration of a subordinate is only
 verified with the keys registered for that subordinate

---
 src/fedservice/entity/server/list.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 4b7833f..0c5cec8 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -88,14 +88,13 @@ class List(Endpoint):
     def collect_subordinates(self) -> dict:
         _server_entity = self.upstream_get("unit")
         _federation_entity = _server_entity.upstream_get("unit")
-        keyjar = KeyJar()
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
         for entity_id, conf in _federation_entity.server.subordinate.items():
             #  get entity configuration for subordinate
             _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
+            # Verify signature with the keys I have for this entity
+            keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
             _jwt = JWT(key_jar=keyjar)
             _ec = _jwt.unpack(_entity_configuration)
             sub[entity_id] = _ec
-- 
2.43.0


From 140625aea6bce7dc147ebbf007e29b639afce3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:51 +0000
Subject: [PATCH 47/62] fix: the keys are used for signing the self-signed
 trust marks and not put among the claims

---
 src/fedservice/entity/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..4dad871 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -198,7 +198,7 @@ class FederationServerContext(FederationContext):
             _keyjar = upstream_get('attribute', "keyjar")
             self.signed_trust_marks = self.create_entity_statement(iss=self.entity_id,
                                                                    sub=self.entity_id,
-                                                                   keyjar=_keyjar,
+                                                                   key_jar=_keyjar,
                                                                    trust_marks=_sstm)
 
         self.trust_marks = trust_marks
-- 
2.43.0


From c7cbadaaf4b3c581e7c7783f9733a5ee9e104528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:31 +0000
Subject: [PATCH 48/62] fix: the trust marks in the registration request are
 the trust marks, also when what is configured is where to find them

---
 src/fedservice/appclient/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 14999e6..2bb0105 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -73,7 +73,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
-- 
2.43.0


From e61c5c511312e1ad1e7535de2cb87c99dad7ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 49/62] fix: the builder configures its own copy of the
 definitions it is given

---
 src/fedservice/build_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index 5ba9cec..a0645c3 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -37,7 +37,7 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = deepcopy(services)
         else:
             kwargs['services'] = deepcopy(FEDERATION_ENTITY_SERVICES)
 
@@ -67,7 +67,7 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = deepcopy(endpoints)
         else:
             kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
 
@@ -98,7 +98,7 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = deepcopy(functions)
         else:
             kwargs['functions'] = deepcopy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
-- 
2.43.0


From 04eee155c1e4008b06e2e55a658d3526531963e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:15 +0000
Subject: [PATCH 50/62] fix: adding a trust anchor to one entity does not add
 its name to the others configured from the same trust anchors

---
 src/fedservice/entity/function/trust_chain_collector.py | 3 ++-
 src/fedservice/utils.py                                 | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 849935c..8fa561c 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -1,5 +1,6 @@
 import logging
 import time
+from copy import copy
 from ssl import SSLError
 from typing import Callable
 from typing import List
@@ -75,7 +76,7 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        self.trust_anchors = copy(trust_anchors)
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..d86680d 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -1,6 +1,7 @@
 import json
 import logging
 import os
+from copy import copy
 from typing import Callable
 from typing import List
 from typing import Optional
@@ -142,7 +143,7 @@ def make_federation_entity(entity_id: str,
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
 
-        fe.function.trust_chain_collector.trust_anchors = trust_anchors
+        fe.function.trust_chain_collector.trust_anchors = copy(trust_anchors)
 
     if subordinate:
         if "class" in subordinate and "kwargs" in subordinate:
@@ -234,7 +235,7 @@ def make_federation_combo(entity_id: str,
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
 
-        federation_entity.function.trust_chain_collector.trust_anchors = trust_anchors
+        federation_entity.function.trust_chain_collector.trust_anchors = copy(trust_anchors)
 
     if subordinate:
         if "class" in subordinate and "kwargs" in subordinate:
-- 
2.43.0


From 59f8e9fe5dda87b653cbdba96fb5911b4b075944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:14 +0000
Subject: [PATCH 51/62] fix: verifying a trust mark does not add keys to the
 ones configured for a trust anchor

---
 src/fedservice/entity/function/trust_mark_verifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index 0d5ed5d..2166d5c 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -78,7 +78,8 @@ class TrustMarkVerifier(Function):
         keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
         if not keys:
             _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
+            # Only for this, the keys of a trust anchor comes from the configuration
+            keyjar = import_jwks(KeyJar(),
                                  _trust_chains[0].verified_chain[-1]["jwks"],
                                  _trust_chains[0].iss_path[0])
             keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-- 
2.43.0


From 79862e4fc710abdc3a8106c205bcca2c3e6a62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:01 +0000
Subject: [PATCH 52/62] fix: a name that every statement permits is not refused
 because one of them also permits a narrower one

---
 src/fedservice/entity_statement/constraints.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index d105573..d3744f6 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -169,11 +169,6 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
             if excluded(statement['sub'], naming_constraints['excluded']):
                 return False
 
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
-                return False
-
     # Now check the leaf entity
     statement = trust_chain[-1]
     # if explicitly excluded return False
@@ -181,11 +176,6 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
         if excluded(statement['sub'], naming_constraints['excluded']):
             return False
 
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
-            return False
-
     for _ids in permitted_ids:
         if not permitted(statement['sub'], _ids):
             return False
-- 
2.43.0


From 4f76fa13c63e3db472b380218350d19d66057603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 53/62] fix: a signed request from an unknown client does not
 register it automatically when automatic registration is not supported

---
 src/fedservice/appserver/oauth2/authorization.py        | 3 +++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 3 +++
 src/fedservice/appserver/oidc/authorization.py          | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 3e1b913..d310465 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -47,6 +47,9 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index eae86a0..1e28312 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -40,6 +40,9 @@ class PushedAuthorization(Authorization):
         self.allowed_targets.append("")
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index d6fa31b..602adb4 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -47,6 +47,9 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
-- 
2.43.0


From 3c35a807ef5d58120f77ac05764d9ba4bd8fbce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:12 +0000
Subject: [PATCH 54/62] fix: a client that is registered automatically because
 of its signed request is registered anew for its next request, as the others
 are

---
 src/fedservice/appserver/oidc/authorization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 602adb4..475f9aa 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -50,7 +50,10 @@ class Authorization(authorization.Authorization):
         _context = self.upstream_get("context")
         if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
             return None
-        return self.do_automatic_registration(iss, [])
+        client_id = self.do_automatic_registration(iss, [])
+        if client_id is not None:
+            _context.cdb[client_id]["automatic_registered"] = True
+        return client_id
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-- 
2.43.0


From 1d297226175724148a8507baf9f6df2d7bc0ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:48 +0000
Subject: [PATCH 55/62] fix: a client that could not be registered by an OAuth2
 AS is not left in the client database

---
 .../appserver/oauth2/registration.py          | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..80c98c9 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -297,6 +297,14 @@ class Registration(Endpoint):
 
         return _cinfo
 
+    def _reset_registration(self, client_id, previous):
+        # A client that could not be registered must not appear to be
+        _context = self.upstream_get("context")
+        if previous is None:
+            del _context.cdb[client_id]
+        else:
+            _context.cdb[client_id] = previous
+
     def client_registration_setup(self, request,
                                   new_id: Optional[bool] = True,
                                   set_secret: Optional[bool] = True,
@@ -354,13 +362,20 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+        except Exception:
+            self._reset_registration(client_id, _previous)
+            raise
+
         if isinstance(_cinfo, ResponseMessage):
+            self._reset_registration(client_id, _previous)
             return _cinfo
 
         args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-- 
2.43.0


From ad52ff7dde73a3e847f64f2488416f17e73392c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:01 +0000
Subject: [PATCH 56/62] fix: a client that could not be registered by an OP is
 not left in the client database

---
 src/fedservice/appserver/oidc/registration.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 44605fb..2f18a33 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -93,8 +93,18 @@ class Registration(registration.Registration):
     def non_fed_process_request(self, req, **kwargs):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
+        _cdb = self.upstream_get("context").cdb
+        _client_id = req.get("client_id")
+        _previous = _cdb.get(_client_id)
         # handle the registration request as in the non-federation case.
-        return registration.Registration.process_request(self, req, authn=None, **kwargs)
+        response_info = registration.Registration.process_request(self, req, authn=None, **kwargs)
+        if "response_args" not in response_info and _cdb.get(_client_id) is not _previous:
+            # A client that could not be registered must not appear to be
+            if _previous is None:
+                del _cdb[_client_id]
+            else:
+                _cdb[_client_id] = _previous
+        return response_info
 
     @staticmethod
     def create_entity_statement(response_args, request, context,
-- 
2.43.0


From 1d44020f9e77ffb50c98a824026a0f0395e6b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:22 +0000
Subject: [PATCH 57/62] fix: going down the federation tree ends, whatever the
 entities list as their subordinates

---
 src/fedservice/entity/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 4acc444..797bbf8 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -1,5 +1,6 @@
 import logging
 from typing import Callable
+from typing import List
 from typing import Optional
 from typing import Union
 
@@ -318,7 +319,15 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
+    def trawl(self, superior, subordinate, entity_type, seen: Optional[List[str]] = None,
+              max_depth: Optional[int] = 10):
+        # The path here. To capture loops, and to control the allowed depth.
+        _seen = [] if seen is None else seen
+        if subordinate in _seen or len(_seen) >= max_depth:
+            logger.warning(f"Will not go further down: {_seen} -> {subordinate}")
+            return []
+        _seen = _seen + [subordinate]
+
         if subordinate in self.function.trust_chain_collector.config_cache:
             _ec = self.function.trust_chain_collector.config_cache[subordinate]
         else:
@@ -362,7 +371,8 @@ class FederationEntity(Unit):
         # For all intermediates go further down the tree
         if _intermediates:
             for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
+                _ids = self.trawl(subordinate, entity_id, entity_type, seen=_seen,
+                                  max_depth=max_depth)
                 if _ids:
                     _issuers.extend(_ids)
 
-- 
2.43.0


From a251043236b30fd4f1e59b5a68e0eed1abc2f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:22 +0000
Subject: [PATCH 58/62] fix: an entity without metadata as federation entity
 has no subordinates

---
 src/fedservice/entity/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 797bbf8..b227ea7 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -350,7 +350,7 @@ class FederationEntity(Unit):
         else:
             _issuers = []
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+        if "federation_list_endpoint" not in _ec["metadata"].get("federation_entity", {}):
             return _issuers
 
         # One step down the tree
-- 
2.43.0


From f037cd3af7ded4e51bb6c8c405f7ab1a82166128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 59/62] fix: the signed form of an entity configuration is
 found whoever fetched it

---
 .../entity/function/trust_chain_collector.py     | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 8fa561c..dc0621a 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -66,6 +66,14 @@ def time_key(authority, entity):
     return f"{authority}!exp!{entity}"
 
 
+def signed_form(entity_configuration):
+    """
+    The signed JWT that a cached entity configuration was verified from. Services that fetch
+    entity configurations leave it as an attribute of the message.
+    """
+    return entity_configuration.get("_jws") or getattr(entity_configuration, "_jws")
+
+
 class TrustChainCollector(Function):
 
     def __init__(self,
@@ -363,9 +371,7 @@ class TrustChainCollector(Function):
                  stop_at: Optional[str] = ''):
         entity_config = self.config_cache.get(entity_id, None)
         if entity_config and not self.too_old(entity_config):
-            signed_entity_config = entity_config.get("_jws")
-            if not signed_entity_config:
-                signed_entity_config = getattr(entity_config, "_jws")
+            signed_entity_config = signed_form(entity_config)
         else:
             signed_entity_config = None
 
@@ -397,11 +403,11 @@ class TrustChainCollector(Function):
 
     def get_chain(self, iss_path, trust_anchor, with_ta_ec: Optional[bool] = False):
         # Entity configuration for the leaf
-        res = [self.config_cache[iss_path[0]]['_jws']]
+        res = [signed_form(self.config_cache[iss_path[0]])]
         # Entity statements up the chain
         for i in range(len(iss_path) - 1):
             res.append(self.entity_statement_cache[cache_key(iss_path[i + 1], iss_path[i])])
         # Possibly add Trust Anchor entity configuration
         if with_ta_ec:
-            res.append(self.config_cache[trust_anchor]['_jws'])
+            res.append(signed_form(self.config_cache[trust_anchor]))
         return res
-- 
2.43.0


From 144456c17603c18bc26b894702901111a269f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:49 +0000
Subject: [PATCH 60/62] fix: the statements about the subordinates of a trust
 anchor are those of that trust anchor

---
 src/fedservice/entity/server/who.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/who.py b/src/fedservice/entity/server/who.py
index 029ee5f..7d04616 100644
--- a/src/fedservice/entity/server/who.py
+++ b/src/fedservice/entity/server/who.py
@@ -59,7 +59,7 @@ class Who(Endpoint):
         # print(f"Subordinates to TA: {list_resp}")
         for entity_id in list_resp:
             servers.extend(
-                _federation_entity.trawl(_federation_entity.entity_id, entity_id,
+                _federation_entity.trawl(trust_anchor, entity_id,
                                          entity_type=_entity_type))
 
         _srv = {}
-- 
2.43.0


From 10813b351560b08ecbd2c77afd14d752fb85ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:56 +0000
Subject: [PATCH 61/62] fix: a response with an error status is not the
 response that was asked for

---
 src/fedservice/appclient/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..2156ff4 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -268,7 +268,7 @@ class ClientEntity(ClientUnit):
             service, url, method, body, response_body_type, headers, **kwargs
         )
 
-        if "error" in response:
+        if "error" in response or "http_response" in response:
             pass
         else:
             try:
@@ -380,6 +380,11 @@ class ClientEntity(ClientUnit):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {"error": reqresp.text}
 
+            if "error" not in err_resp:
+                # The status says that it is an error. Whatever came with it, it is not the
+                # response that was asked for.
+                err_resp = {"error": reqresp.text}
+
             err_resp["status_code"] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 4a16293cb03fa02289fefbdd42876088a2952952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 62/62] fix: an error message is not a list of subordinates

---
 src/fedservice/entity/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index b227ea7..7a5718c 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -358,9 +358,7 @@ class FederationEntity(Unit):
         _added_issuers = self.client.do_request("list",
                                                 entity_id=subordinate,
                                                 entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
+        if isinstance(_added_issuers, list):  # if not it's an error message
             _issuers.extend(_added_issuers)
 
         # All subordinates that are intermediates
@@ -369,7 +367,7 @@ class FederationEntity(Unit):
                                                 intermediate=True)
 
         # For all intermediates go further down the tree
-        if _intermediates:
+        if isinstance(_intermediates, list):
             for entity_id in _intermediates:
                 _ids = self.trawl(subordinate, entity_id, entity_type, seen=_seen,
                                   max_depth=max_depth)
-- 
2.43.0

