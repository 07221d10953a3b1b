From de29fa2c1a7c7078b158bf8e6fe0679a2831500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 01/79] fix: give each entity its own copy of the default
 service, endpoint and function definitions

---
 src/fedservice/build_entity.py |  5 +++--
 src/fedservice/defaults.py     | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index d7b9922..5ba9cec 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Callable
 from typing import Optional
 from typing import Union
@@ -38,7 +39,7 @@ class FederationEntityBuilder():
         if services:
             kwargs['services'] = services
         else:
-            kwargs['services'] = FEDERATION_ENTITY_SERVICES
+            kwargs['services'] = deepcopy(FEDERATION_ENTITY_SERVICES)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
@@ -99,7 +100,7 @@ class FederationEntityBuilder():
         if functions:
             kwargs['functions'] = functions
         else:
-            kwargs['functions'] = DEFAULT_FEDERATION_ENTITY_FUNCTIONS
+            kwargs['functions'] = deepcopy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
         if kwargs_spec:
             for key, val in kwargs_spec.items():
diff --git a/src/fedservice/defaults.py b/src/fedservice/defaults.py
index 59c3de9..13892c2 100644
--- a/src/fedservice/defaults.py
+++ b/src/fedservice/defaults.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from fedservice.message import AuthorizationServerMetadata
 from fedservice.message import FederationEntity
 from fedservice.message import OauthClientMetadata
@@ -87,11 +89,11 @@ def federation_services(*api):
         if isinstance(a, dict):
             continue
         if a in SERVICES:
-            res[a] = SERVICES[a]
+            res[a] = deepcopy(SERVICES[a])
         elif a in DEFAULT_OAUTH2_FED_SERVICES:
-            res[a] = DEFAULT_OAUTH2_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OAUTH2_FED_SERVICES[a])
         elif a in DEFAULT_OIDC_FED_SERVICES:
-            res[a] = DEFAULT_OIDC_FED_SERVICES[a]
+            res[a] = deepcopy(DEFAULT_OIDC_FED_SERVICES[a])
 
     for a in api:
         if isinstance(a, dict):
@@ -171,7 +173,7 @@ FEDERATION_ENDPOINTS = {
 
 
 def federation_endpoints(*apis) -> dict:
-    interm = {a: FEDERATION_ENDPOINTS[a] for a in apis if isinstance(a, str)}
+    interm = {a: deepcopy(FEDERATION_ENDPOINTS[a]) for a in apis if isinstance(a, str)}
     for a in apis:
         if isinstance(a, dict):
             interm.update(a)
@@ -216,7 +218,7 @@ FEDERATION_ENTITY_FUNCTIONS = {
 
 
 def federation_functions(*apis):
-    return {a: FEDERATION_ENTITY_FUNCTIONS[a] for a in apis}
+    return {a: deepcopy(FEDERATION_ENTITY_FUNCTIONS[a]) for a in apis}
 
 
 DEFAULT_FEDERATION_ENTITY_FUNCTIONS = federation_functions("trust_chain_collector", "verifier",
-- 
2.43.0


From b0efc804c820811eb681cc5e0b0bcb2802be0fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 02/79] fix: verify a trust chain only with a trust anchor's
 keys and the keys each link vouches for, and reject broken links and expired
 chains

---
 src/fedservice/entity/function/verifier.py | 30 ++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..94d00e1 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -3,8 +3,10 @@ from typing import Callable
 from typing import List
 
 from cryptojwt import KeyBundle
+from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
+from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
@@ -25,7 +27,8 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # The key jar contains keys for every entity seen so far, not only for trust anchors
+            if not self.is_anchor(payload['iss']):
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
@@ -40,6 +43,13 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def is_anchor(self, entity_id):
+        _federation_entity = get_federation_entity(self)
+        if not _federation_entity:
+            return False
+        return (entity_id in _federation_entity.trust_anchors
+                or entity_id == _federation_entity.entity_id)
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -62,7 +72,16 @@ class TrustChainVerifier(Function):
             if _jwt:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
-                keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
+                _iss = _jwt.jwt.payload()['iss']
+                if ves and _iss == ves[-1]['sub']:
+                    # Only the keys the superior vouches for can be used
+                    _link_keyjar = import_jwks(KeyJar(), ves[-1]['jwks'], _iss)
+                    keys = _link_keyjar.get_jwt_verify_keys(_jwt.jwt)
+                elif ves and (len(ves) != n or _jwt.jwt.payload()['sub'] != ves[-1]['sub']):
+                    logger.error(f"'{_iss}' is not the subject of the previous statement")
+                    return []
+                else:
+                    keys = _keyjar.get_jwt_verify_keys(_jwt.jwt)
                 if keys == []:
                     logger.error(f'No keys matching: {_jwt.jwt.headers}')
                     logger.debug(f"keyjar contains: {_keyjar}")
@@ -78,6 +97,10 @@ class TrustChainVerifier(Function):
                     if len(ves) != n:
                         raise ValueError('Missing signing JWKS')
                 else:
+                    if self.is_anchor(res['sub']) and res['iss'] != res['sub']:
+                        # No one else can vouch for keys of a trust anchor
+                        ves.append(res)
+                        continue
                     _kb = KeyBundle(keys=_jwks['keys'])
                     try:
                         old = _keyjar.get_issuer_keys(res['sub'])
@@ -128,6 +151,9 @@ class TrustChainVerifier(Function):
         _expires_at = self.trust_chain_expires_at(verified_trust_chain)
 
         trust_chain = TrustChain(exp=_expires_at, verified_chain=verified_trust_chain)
+        if trust_chain.is_expired():
+            logger.warning("Trust chain has expired")
+            return None
 
         iss_path = [x['iss'] for x in verified_trust_chain]
         trust_chain.anchor = iss_path[0]
-- 
2.43.0


From 7eba254a774eaa8b5f255054dfc8c666eeebe37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/79] fix: do not skip non-JWT items in a trust chain and
 leave the verified statements' keys as they were signed

---
 src/fedservice/entity/function/verifier.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 94d00e1..facbc34 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 from typing import Callable
 from typing import List
 
@@ -6,7 +7,6 @@ from cryptojwt import KeyBundle
 from cryptojwt import KeyJar
 from cryptojwt.exception import MissingKey
 from cryptojwt.jws.jws import factory
-from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.function import Function
 from fedservice.entity.utils import get_federation_entity
@@ -69,13 +69,17 @@ class TrustChainVerifier(Function):
         _keyjar = self.upstream_get("attribute", "keyjar")
         for entity_statement in entity_statement_list:
             _jwt = factory(entity_statement)
-            if _jwt:
+            if not _jwt:
+                logger.error("Something that is not a signed JWT in the trust chain")
+                return []
+            else:
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
                 _iss = _jwt.jwt.payload()['iss']
                 if ves and _iss == ves[-1]['sub']:
                     # Only the keys the superior vouches for can be used
-                    _link_keyjar = import_jwks(KeyJar(), ves[-1]['jwks'], _iss)
+                    _link_keyjar = KeyJar()
+                    _link_keyjar.add_kb(_iss, KeyBundle(keys=deepcopy(ves[-1]['jwks']['keys'])))
                     keys = _link_keyjar.get_jwt_verify_keys(_jwt.jwt)
                 elif ves and (len(ves) != n or _jwt.jwt.payload()['sub'] != ves[-1]['sub']):
                     logger.error(f"'{_iss}' is not the subject of the previous statement")
@@ -101,7 +105,8 @@ class TrustChainVerifier(Function):
                         # No one else can vouch for keys of a trust anchor
                         ves.append(res)
                         continue
-                    _kb = KeyBundle(keys=_jwks['keys'])
+                    # KeyBundle modifies the key descriptions it is given
+                    _kb = KeyBundle(keys=deepcopy(_jwks['keys']))
                     try:
                         old = _keyjar.get_issuer_keys(res['sub'])
                     except KeyError:
-- 
2.43.0


From fff607df8922879bfba0d7817b11180bc5bb21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 04/79] fix: one broken trust chain must not stop the
 verification of the other chains

---
 src/fedservice/entity/function/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index b5c9bf7..53d89e4 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -105,9 +105,12 @@ def verify_trust_chains(unit, chains: List[List[str]], *entity_statements):
     logger.debug("verify_trust_chains")
     res = []
     for c in chains:
-        if entity_statements:
-            c.extend(entity_statements)
-        trust_chain = _verifier(c)
+        try:
+            trust_chain = _verifier([*c, *entity_statements])
+        except Exception as err:
+            # One broken chain must not stand in the way of the others
+            logger.warning(f"Trust chain verification failed: {err}")
+            continue
         if trust_chain:
             res.append(trust_chain)
     return res
-- 
2.43.0


From 16f5eeebc2665f0a2e02f82b2f9f75fef2a053a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 05/79] fix: a trust chain never changes the keys held for
 another trust anchor than the one it starts at

---
 src/fedservice/entity/function/verifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index facbc34..593fa61 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -76,7 +76,8 @@ class TrustChainVerifier(Function):
                 logger.debug(f"JWS header: {_jwt.jwt.headers}", )
                 logger.debug(f"JWS payload: {_jwt.jwt.payload()}")
                 _iss = _jwt.jwt.payload()['iss']
-                if ves and _iss == ves[-1]['sub']:
+                _linked = bool(ves) and _iss == ves[-1]['sub']
+                if _linked:
                     # Only the keys the superior vouches for can be used
                     _link_keyjar = KeyJar()
                     _link_keyjar.add_kb(_iss, KeyBundle(keys=deepcopy(ves[-1]['jwks']['keys'])))
@@ -101,7 +102,7 @@ class TrustChainVerifier(Function):
                     if len(ves) != n:
                         raise ValueError('Missing signing JWKS')
                 else:
-                    if self.is_anchor(res['sub']) and res['iss'] != res['sub']:
+                    if self.is_anchor(res['sub']) and (_linked or res['iss'] != res['sub']):
                         # No one else can vouch for keys of a trust anchor
                         ves.append(res)
                         continue
-- 
2.43.0


From d80240b6dd0305765b8fbd3faf2e97dd163b416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 06/79] fix: leave out authority hints that lead back to an
 entity already on the path

---
 .../entity/function/trust_chain_collector.py           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..2044c75 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -243,7 +243,7 @@ class TrustChainCollector(Function):
         """
         superior = {}
         if seen is None:
-            seen = []
+            seen = [entity_id]
 
         logger.debug(f'Collect superiors to: {entity_id}')
         logger.debug(f'Collect based on: {entity_configuration}')
@@ -255,8 +255,14 @@ class TrustChainCollector(Function):
             return superior
 
         for authority in entity_configuration['authority_hints']:
-            if authority in seen:  # loop ?!
+            if authority == entity_id:
+                # A trust anchor that is its own authority is dealt with in collect_branch
+                _loop = authority not in self.trust_anchors
+            else:
+                _loop = authority in seen
+            if _loop:
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
-- 
2.43.0


From 550751e5ebd2461cadea706591c8ef4012b19660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 07/79] fix: an authority that can not be reached must not stop
 the collection of other trust chains

---
 src/fedservice/entity/function/trust_chain_collector.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 2044c75..a3802e1 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -263,8 +263,12 @@ class TrustChainCollector(Function):
             if _loop:
                 logger.warning(f"Loop detected at {authority}")
                 continue
-            superior[authority] = self.collect_branch(entity_id, authority, seen,
-                                                      max_superiors, stop_at=stop_at)
+            try:
+                superior[authority] = self.collect_branch(entity_id, authority, seen,
+                                                          max_superiors, stop_at=stop_at)
+            except Exception as err:
+                # The other authorities may still lead to a trust anchor
+                logger.error(f"Could not collect '{authority}' as authority of '{entity_id}': {err}")
 
         return superior
 
-- 
2.43.0


From 1e036e320acd0c90ea8f7655e9ba6f43c20f8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 08/79] fix: refresh entity configurations that are about to
 expire instead of using or losing them

---
 .../entity/function/trust_chain_collector.py  | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index a3802e1..7c4618a 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -193,19 +193,26 @@ class TrustChainCollector(Function):
             fed_fetch_endpoint = None
 
         if not fed_fetch_endpoint:
-            signed_entity_config = self.get_entity_configuration(intermediate)
-            if signed_entity_config is None:
+            entity_config = self._fetch_entity_configuration(intermediate)
+            if entity_config is None:
                 return ''
 
-            entity_config = verify_self_signed_signature(signed_entity_config)
-            logger.debug(f'Verified self signed statement: {entity_config}')
             fed_fetch_endpoint = get_endpoint("fetch", entity_config)
-            # update cache
-            entity_config["_jws"] = signed_entity_config
-            self.config_cache[intermediate] = entity_config
 
         return fed_fetch_endpoint
 
+    def _fetch_entity_configuration(self, entity_id):
+        signed_entity_config = self.get_entity_configuration(entity_id)
+        if signed_entity_config is None:
+            return None
+
+        entity_config = verify_self_signed_signature(signed_entity_config)
+        logger.debug(f'Verified self signed statement: {entity_config}')
+        # update cache
+        entity_config["_jws"] = signed_entity_config
+        self.config_cache[entity_id] = entity_config
+        return entity_config
+
     def get_entity_statement(self, fetch_endpoint, issuer, subject):
         """
         Get Entity Statement by one entity about another or about itself
@@ -342,6 +349,8 @@ class TrustChainCollector(Function):
 
         if entity_statement:
             _entity_configuration = self.config_cache[authority]
+            if not _entity_configuration:  # outdated while the entity statement is not
+                _entity_configuration = self._fetch_entity_configuration(authority)
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
@@ -352,7 +361,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
-- 
2.43.0


From dd8e67da09ccd89230b86a6301808a53a34d3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:54 +0000
Subject: [PATCH 09/79] fix: enforce max_path_length and let no subordinate
 remove a superior's naming constraints

---
 .../entity_statement/constraints.py           | 55 +++++++++----------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..bca521b 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -119,6 +119,19 @@ def permitted(subject_id: str, permitted_id: List[str]):
     return False
 
 
+def allowed_name(subject_id: str, naming_constraints: List[dict]) -> bool:
+    for constraint in naming_constraints:
+        # if explicitly excluded return False
+        if constraint['excluded'] and excluded(subject_id, constraint['excluded']):
+            return False
+
+        # If there is a list of permitted it must be in there
+        if constraint['permitted'] and not permitted(subject_id, constraint['permitted']):
+            return False
+
+    return True
+
+
 def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
     """
     Verifies that the trust chain fulfills the constraints specified in it.
@@ -130,45 +143,27 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
 
     current_max_path_length = 0
     max_assigned = False
-    naming_constraints = {
-        "permitted": None,
-        "excluded": None
-    }
+    # One item per statement that contains naming constraints. All of them must be fulfilled,
+    # a subordinate can not remove a constraint set by a superior.
+    naming_constraints = []
 
     for statement in trust_chain[:-1]:  # All but the last
-        try:
-            _constraints = statement['constraints']
-        except KeyError:
-            continue
+        _constraints = statement.get('constraints') or {}
 
         current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
                                                         max_assigned)
+        if 'max_path_length' in _constraints:
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
 
-        naming_constraints = update_naming_constraints(_constraints, naming_constraints)
+        if 'naming_constraints' in _constraints:
+            naming_constraints.append(
+                update_naming_constraints(_constraints, {"permitted": None, "excluded": None}))
 
-        # if explicitly excluded return False
-        if 'excluded' in naming_constraints and naming_constraints['excluded']:
-            if excluded(statement['sub'], naming_constraints['excluded']):
-                return False
-
-        # If there is a list of permitted it must be in there
-        if 'permitted' in naming_constraints and naming_constraints['permitted']:
-            if not permitted(statement['sub'], naming_constraints["permitted"]):
-                return False
-
-    # Now check the leaf entity
-    statement = trust_chain[-1]
-    # if explicitly excluded return False
-    if 'excluded' in naming_constraints and naming_constraints['excluded']:
-        if excluded(statement['sub'], naming_constraints['excluded']):
-            return False
-
-    # If there is a list of permitted it must be in there
-    if 'permitted' in naming_constraints and naming_constraints['permitted']:
-        if not permitted(statement['sub'], naming_constraints["permitted"]):
+        if not allowed_name(statement['sub'], naming_constraints):
             return False
 
-    return True
+    # Now check the leaf entity
+    return allowed_name(trust_chain[-1]['sub'], naming_constraints)
-- 
2.43.0


From 81133f017fc72d19fb38f2e1901d26b449394ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 10/79] fix: apply naming constraints to the host, whatever
 port or path follows it

---
 src/fedservice/entity_statement/constraints.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index bca521b..27ce9b5 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -36,9 +36,19 @@ def remove_scheme(url):
         raise ValueError('Wrong scheme: %s', url)
 
 
+def split_host(url):
+    # The host (without port) and the path
+    netloc, _, path = remove_scheme(url).partition('/')
+    return netloc.rpartition('@')[2].split(':')[0].lower(), path
+
+
 def more_specific(a, b):
-    a_part = remove_scheme(a).split('.')
-    b_part = remove_scheme(b).split('.')
+    a_host, a_path = split_host(a)
+    b_host, b_path = split_host(b)
+    if b_path and not f"{a_path}/".startswith(f"{b_path.rstrip('/')}/"):
+        return False
+    a_part = a_host.split('.')
+    b_part = b_host.split('.')
     if len(a_part) >= len(b_part):
         a_part.reverse()
         b_part.reverse()
-- 
2.43.0


From ac50d97c3c99d923cb685e7db91d11f257dafb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:23 +0000
Subject: [PATCH 11/79] fix: apply one_of, subset_of and superset_of correctly
 to claims of the other multiplicity

---
 src/fedservice/entity/function/policy_operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..371feee 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -44,7 +44,7 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                raise PolicyError(f"{claim}: one_of can not be applied to a list of values")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
@@ -82,8 +82,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +99,7 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            if set(metadata_policy[claim][self.name]).difference(union(metadata[claim], [])):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From 41ebad9b7aff312449e61a0773b7b3f87ba6aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 12/79] fix: a subordinate can not use value or subset_of to
 get around what a superior demands

---
 src/fedservice/entity/function/policy.py | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..35df6e9 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -109,6 +109,21 @@ DO_POLICY = {
 }
 
 
+def _as_set(value):
+    return set(value) if isinstance(value, list) else {value}
+
+
+def _verify_value(rule):
+    _value = rule["value"]
+    if "one_of" in rule and (isinstance(_value, list) or _value not in rule["one_of"]):
+        raise PolicyError(f"value not among {rule['one_of']}")
+    if "subset_of" in rule and not _as_set(_value).issubset(rule["subset_of"]):
+        raise PolicyError(f"value not a subset of {rule['subset_of']}")
+    for policy in ("superset_of", "add"):
+        if policy in rule and not _as_set(_value).issuperset(_as_set(rule[policy])):
+            raise PolicyError(f"value not a superset of {rule[policy]}")
+
+
 def combine_claim_policy(superior, child):
     """
     Combine policy rules.
@@ -154,6 +169,9 @@ def combine_claim_policy(superior, child):
         for policy in comb_policy:
             rule[policy] = DO_POLICY[policy](superior, child, policy)
 
+        if "value" in child_set:  # can only be set within the limits given by the superior
+            _verify_value(rule)
+
         if comb_policy == {'superset_of', 'subset_of'}:
             # make sure the subset_of is a superset of superset_of.
             if set(rule['superset_of']).difference(set(rule['subset_of'])):
@@ -179,12 +197,13 @@ def combine_claim_policy(superior, child):
             else:
                 if {rule['default']}.difference(set(rule['one_of'])):
                     raise PolicyError('default not a super set of one_of')
-        elif comb_policy == {'subset_of', 'add'}:
-            if not set(rule['add']).issubset(set(rule['subset_of'])):
-                raise PolicyError('"add" not a subset of "subset"')
         elif comb_policy == {'superset_of', 'add'}:
             if not set(rule['add']).issuperset(set(rule['superset_of'])):
                 raise PolicyError('"add" not a superset of "superset"')
+
+        if {'subset_of', 'add'}.issubset(comb_policy):
+            if not _as_set(rule['add']).issubset(set(rule['subset_of'])):
+                raise PolicyError('"add" not a subset of "subset"')
     return rule
 
 
-- 
2.43.0


From e3b6edb99d245dc4e9e68a0341a6e78be7d0e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 13/79] fix: metadata set by a superior is not overridden by
 the entity itself, and policies do not modify statements

---
 src/fedservice/entity/function/policy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 35df6e9..f9e80b1 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 from typing import Optional
 
 from fedservice.entity.function import Function
@@ -359,11 +360,13 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
+        # Don't modify the statement the metadata comes from
+        metadata = deepcopy(metadata)
+
+        # What superiors have set takes precedence
         _metadata = policy.get("metadata", None)
         if _metadata:
-            _metadata = _metadata.copy()
-            _metadata.update(metadata)
-            metadata = _metadata
+            metadata.update(deepcopy(_metadata))
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From bc39307619b6a4ef5e16734b487e1592c12dee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 14/79] fix: an entity configuration higher up in the trust
 chain is not metadata about the leaf

---
 src/fedservice/entity/function/policy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index f9e80b1..306049c 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -329,7 +329,7 @@ class TrustChainPolicy(Function):
         for _item in ['metadata_policy', 'metadata']:
             try:
                 _rule[_item] = chain[0][_item][entity_type]
-            except KeyError:
+            except (KeyError, IndexError):
                 pass
 
         for es in chain[1:]:
@@ -378,7 +378,9 @@ class TrustChainPolicy(Function):
         return metadata
 
     def _policy(self, trust_chain: TrustChain, entity_type: str):
-        combined_policy = self.gather_policies(trust_chain.verified_chain[:-1], entity_type)
+        # Entity configurations describe their issuer, they say nothing about subordinates
+        statements = [es for es in trust_chain.verified_chain[:-1] if es["iss"] != es["sub"]]
+        combined_policy = self.gather_policies(statements, entity_type)
         logger.debug("Combined policy: %s", combined_policy)
         try:
             # This should be the entity configuration
-- 
2.43.0


From bfd6b960a3d12091c1f58cabf33fe9054207ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:16 +0000
Subject: [PATCH 15/79] fix: a trust chain whose policies can not be applied
 must not hide the other trust chains

---
 src/fedservice/entity/function/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 53d89e4..9e50633 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -136,7 +136,12 @@ def apply_policies(unit, trust_chains):
 
     res = []
     for trust_chain in trust_chains:
-        _policy_applier(trust_chain)
+        try:
+            _policy_applier(trust_chain)
+        except PolicyError as err:
+            # The other trust chains may still be useful
+            logger.warning(f"Policies could not be applied: {err}")
+            continue
         res.append(trust_chain)
     return res
 
-- 
2.43.0


From b40ef82a6bcfa8699eb344858db2e61fddd7c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 16/79] fix: issue statements about subordinates only in the
 entity's own name and leave the registered information as it is

---
 src/fedservice/entity/server/fetch.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..0a57309 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -26,9 +26,10 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        _issuer = self.upstream_get('attribute','entity_id')
+        if (request.get("iss") or _issuer) != _issuer:
+            # Can only issue statements in my own name
+            raise UnknownEntity(request["iss"])
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
@@ -40,12 +41,15 @@ class Fetch(Endpoint):
                                           sub=_entity.context.entity_id,
                                           key_jar=_keyjar,
                                           metadata=_metadata,
-                                          authority_hints=self.upstream_get('authority_hints'))
+                                          authority_hints=_entity.get_authority_hints())
         else:
             _server = self.upstream_get("unit")
             # Contains jwks and possibly entity type and authority_hints
             _response = _server.subordinate.get(_sub)
-            if not _response:
+            if _response:
+                # What is said here and now must not stick to the registered information
+                _response = dict(_response)
+            else:
                 logger.debug(f"Unknown subordinate: {_sub}")
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
-- 
2.43.0


From ff024aba2e5fb48e61e613e6068078aa144348af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 17/79] fix: list the subordinates that match every filter, as
 described by the registered information

---
 src/fedservice/entity/server/list.py | 115 ++++++++++++++++-----------
 1 file changed, 67 insertions(+), 48 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..bcda27c 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -7,6 +7,8 @@ from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
 
+from fedservice.entity.function import get_payload
+
 logger = logging.getLogger(__name__)
 
 
@@ -29,53 +31,65 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
-            if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
-
-            if matched:
-                match.append(entity_id)
+            if entity_type and entity_type not in conf.get('metadata', {}):
+                continue
+            trust_marks = conf.get('trust_marks') or []
+            if trust_marked and not trust_marks:
+                continue
+            if trust_mark_id and trust_mark_id not in [self.trust_mark_id(m) for m in trust_marks]:
+                continue
+
+            match.append(entity_id)
         return match
 
+    @staticmethod
+    def trust_mark_id(trust_mark):
+        if isinstance(trust_mark, str):  # A signed JWT
+            try:
+                trust_mark = get_payload(trust_mark)
+            except Exception as err:
+                logger.warning(f"Not a trust mark: {err}")
+                return None
+        return trust_mark.get('id')
+
+    @staticmethod
+    def is_set(request, parameter):
+        # Values in a query are strings
+        return str(request.get(parameter) or "false").lower() != "false"
+
     def process_request(self, request=None, **kwargs):
         _db = self.upstream_get("unit").subordinate
-        if not request or set(request.keys()).issubset({"client_id", "authenticated"}):
-            return {'response_msg': json.dumps(list(_db.keys()))}
-        else:
-            matched_entity_ids = set()
-            subordinate_conf = None
-            # I know about entity_types and intermediate or not from the registration
-            for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
-                if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
-
-            # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
-                subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
-
-            if self.extended and subordinate_conf:
-                return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
+        if not request:
+            request = {}
+
+        # A subordinate has to match everything that is asked for
+        matched_entity_ids = []
+        # I know about entity_types and intermediate or not from the registration
+        for entity_id, item in _db.items():
+            if self.is_set(request, "intermediate") and not item.get("intermediate"):
+                continue
+            if "entity_type" in request:
+                _types = item.get("entity_types") or item.get("entity_type") or []
+                if isinstance(_types, str):
+                    _types = [_types]
+                if request["entity_type"] not in _types:
+                    continue
+            matched_entity_ids.append(entity_id)
+
+        # I don't expect to know about trust marks from the registration
+        if self.is_set(request, "trust_marked") or "trust_mark_id" in request:
+            subordinate_conf = self.collect_subordinates()
+            matched_entity_ids = self.filter(
+                subordinates={eid: subordinate_conf[eid] for eid in matched_entity_ids
+                              if eid in subordinate_conf},
+                trust_marked=self.is_set(request, "trust_marked"),
+                trust_mark_id=request.get("trust_mark_id", ""))
+
+            if self.extended:
+                return {"response_msg": json.dumps({eid: subordinate_conf[eid] for eid in
                                                     matched_entity_ids})}
-            else:
-                return {"response_msg": json.dumps(list(matched_entity_ids))}
+
+        return {"response_msg": json.dumps(matched_entity_ids)}
 
     def collect_subordinates(self) -> dict:
         _server_entity = self.upstream_get("unit")
@@ -84,11 +98,16 @@ class List(Endpoint):
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
         for entity_id, conf in _federation_entity.server.subordinate.items():
-            #  get entity configuration for subordinate
-            _entity_configuration = _collector.get_entity_configuration(entity_id)
-            # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
-            _jwt = JWT(key_jar=keyjar)
-            _ec = _jwt.unpack(_entity_configuration)
+            try:
+                #  get entity configuration for subordinate
+                _entity_configuration = _collector.get_entity_configuration(entity_id)
+                # Verify signature with the keys I have
+                keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
+                _jwt = JWT(key_jar=keyjar)
+                _ec = _jwt.unpack(_entity_configuration)
+            except Exception as err:
+                # Nothing is known about this one, that should not hide the others
+                logger.warning(f"No entity configuration for subordinate {entity_id}: {err}")
+                continue
             sub[entity_id] = _ec
         return sub
-- 
2.43.0


From f2f140d9eb719b051296e86207562cd468cbc1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 18/79] fix: a resolve response contains the verified chain and
 is valid no longer than that chain

---
 src/fedservice/entity/server/resolve.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/server/resolve.py b/src/fedservice/entity/server/resolve.py
index 7428323..03c5267 100644
--- a/src/fedservice/entity/server/resolve.py
+++ b/src/fedservice/entity/server/resolve.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 from typing import Union
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import Message
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -48,13 +49,21 @@ class Resolve(Endpoint):
         else:
             metadata = _chain.metadata
 
-        trust_chain = _federation_entity.function.trust_chain_collector.get_chain(
-            _chain.iss_path, _trust_anchor, kwargs.get("with_ta_ec"))
+        # What was verified. Starting with the entity configuration of the leaf
+        trust_chain = list(reversed(_chain.chain))
+        if kwargs.get("with_ta_ec"):
+            _collector = _federation_entity.function.trust_chain_collector
+            _ta_ec = _collector.config_cache[_trust_anchor]
+            trust_chain.append(_ta_ec["_jws"] if _ta_ec
+                               else _collector.get_entity_configuration(_trust_anchor))
 
+        # The response can not be valid longer than what it is based on
+        _lifetime = max(1, min(86400, _chain.exp - utc_time_sans_frac()))
         _jws = create_entity_statement(_federation_entity.entity_id,
                                        sub=request["sub"],
                                        key_jar=_federation_entity.get_attribute('keyjar'),
                                        metadata=metadata,
+                                       lifetime=_lifetime,
                                        trust_chain=trust_chain)
         return {'response_args': _jws}
 
-- 
2.43.0


From c295257a251b4a96d0d07662875ef37a275ee9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 19/79] fix: statements created without explicit authority
 hints contain the configured ones, whatever form they are configured in

---
 src/fedservice/entity/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 20467b1..932baee 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -115,7 +115,7 @@ class FederationContext(ImpExp):
         key_jar = key_jar or self.upstream_get("attribute", "keyjar")
 
         if not authority_hints:
-            authority_hints = self.authority_hints
+            authority_hints = self.get_authority_hints()
         if not lifetime:
             lifetime = self.default_lifetime
 
-- 
2.43.0


From 8f52caa5d99f756dbb64d613c2707840a09eaf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 20/79] fix: never publish symmetric keys, such as a client
 secret, in entity statements

---
 src/fedservice/entity_statement/create.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity_statement/create.py b/src/fedservice/entity_statement/create.py
index 3fe26a8..f816421 100644
--- a/src/fedservice/entity_statement/create.py
+++ b/src/fedservice/entity_statement/create.py
@@ -2,10 +2,27 @@ import logging
 from typing import Callable
 
 from cryptojwt.jwt import JWT
+from idpyoidc.message import Message
 
 logger = logging.getLogger(__name__)
 
 
+def public_jwks(jwks):
+    """ Symmetric keys, like a client secret, must never be published. """
+    return {**jwks, "keys": [key for key in jwks["keys"] if key.get("kty") != "oct"]}
+
+
+def public_metadata(metadata):
+    """ Metadata, organised by entity type, without symmetric keys. """
+    res = {}
+    for entity_type, info in metadata.items():
+        _jwks = info.get("jwks") if isinstance(info, (dict, Message)) else None
+        if isinstance(_jwks, dict) and "keys" in _jwks:
+            info = {**info, "jwks": public_jwks(_jwks)}
+        res[entity_type] = info
+    return res
+
+
 def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=None,
                             authority_hints=None, lifetime=86400, aud='', include_jwks=True,
                             constraints=None, **kwargs):
@@ -28,7 +45,7 @@ def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=No
 
     msg = {'sub': sub}
     if metadata:
-        msg['metadata'] = metadata
+        msg['metadata'] = public_metadata(metadata)
 
     if metadata_policy:
         msg['metadata_policy'] = metadata_policy
@@ -53,7 +70,7 @@ def create_entity_statement(iss, sub, key_jar, metadata=None, metadata_policy=No
             msg['jwks'] = kwargs['jwks']
         else:
             # The public signing keys of the subject
-            msg['jwks'] = key_jar.export_jwks()
+            msg['jwks'] = public_jwks(key_jar.export_jwks())
 
     packer = JWT(key_jar=key_jar, iss=iss, lifetime=lifetime)
 
-- 
2.43.0


From 53a21f776d22954ce3f78488a0355a4721566c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:22 +0000
Subject: [PATCH 21/79] fix: an entity configuration contains the trust marks,
 not the name of the file they are in

---
 src/fedservice/entity/server/entity_configuration.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..4d7baa9 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -39,10 +38,7 @@ class EntityConfiguration(Endpoint):
             _metadata = _fed_entity.get_metadata()
 
         if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+            args = {"trust_marks": _fed_entity.context.get_trust_marks()}
         else:
             args = {}
 
-- 
2.43.0


From f9c1ee8fa3eb13ac39f58515b94b052e3b00bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 22/79] fix: the metadata of an entity whose cached
 configuration is outdated or short-lived can be looked up

---
 .../entity/function/trust_chain_collector.py         | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 7c4618a..25b7385 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -21,7 +21,6 @@ from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.cache import ESCache
 from fedservice.exception import FailedConfigurationRetrieval
-from fedservice.utils import statement_is_expired
 
 logger = logging.getLogger(__name__)
 
@@ -166,18 +165,17 @@ class TrustChainCollector(Function):
         return self_signed_config
 
     def get_metadata(self, entity_id):
-        _ec = None
-        if entity_id in self.config_cache:
-            _ec = self.config_cache[entity_id]
-            if statement_is_expired(_ec):
-                _ec = None
+        # will be None if there is no cached information or if it is outdated
+        _ec = self.config_cache[entity_id]
 
         if _ec is None:
             _collection = self.upstream_get('unit')
             _federation_entity = _collection.upstream_get('unit')
-            _chains, _ = collect_trust_chains(_federation_entity, entity_id)
+            _chains, _signed_ec = collect_trust_chains(_federation_entity, entity_id)
             _trust_chains = verify_trust_chains(_federation_entity, _chains)
             _ec = self.config_cache[entity_id]
+            if _ec is None:  # Too short-lived to be cached
+                _ec = verify_self_signed_signature(_signed_ec)
 
         return _ec['metadata']
 
-- 
2.43.0


From fced77c182ccbf99645bc78ced63f60acd283e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 23/79] fix: a policy for an entity type must not remove the
 registered metadata of a subordinate

---
 src/fedservice/entity/server/fetch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index 0a57309..0e50814 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -79,7 +79,11 @@ class Fetch(Endpoint):
                         _policy = None
 
             if _policy:
-                _response.update(_policy)
+                for _claim, _val in _policy.items():
+                    if _claim in ['metadata', 'metadata_policy'] and _response.get(_claim):
+                        # The registered information about other entity types is still valid
+                        _val = {**_response[_claim], **_val}
+                    _response[_claim] = _val
 
             _es = create_entity_statement(iss=_issuer,
                                           sub=_sub,
-- 
2.43.0


From 82dd5d92aa587c6af02b243e2ff13a0e31abb129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 24/79] fix: find the configuration of an entity that shares
 its host with another entity

---
 .../entity/function/trust_chain_collector.py         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 25b7385..30e9697 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -51,6 +51,14 @@ def verify_self_signed_signature(statement):
     return _val
 
 
+def about_someone_else(signed_jwt, entity_id):
+    # An entity and its tenants share the host, so one may publish where the other one is looked for
+    try:
+        return unverified_entity_statement(signed_jwt).get("sub") != entity_id
+    except Exception:  # Not even an entity statement. Is dealt with when it's verified
+        return False
+
+
 def get_endpoint(endpoint_type, config):
     _fe = config['metadata']['federation_entity']
     return _fe.get(f"federation_{endpoint_type}_endpoint")
@@ -141,6 +149,8 @@ class TrustChainCollector(Function):
             #     self_signed_config = self.do_ssc_seq(_url, entity_id)
             # else:
             self_signed_config = self.get_document(_res['url'])
+            if about_someone_else(self_signed_config, entity_id):
+                raise MissingPage(f"Not about {entity_id}: '{_res['url']}'")
         except MissingPage:  # if tenant involved
             _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
             logger.debug(f"Get configuration from (tenant): '{entity_id}'")
@@ -149,6 +159,8 @@ class TrustChainCollector(Function):
                 #     self_signed_config = self.do_ssc_seq(_tenant_url, entity_id)
                 # else:
                 self_signed_config = self.get_document(_tres["url"])
+                if about_someone_else(self_signed_config, entity_id):
+                    raise MissingPage(f"Not about {entity_id}: '{_tres['url']}'")
                 logger.debug(f'Self signed statement: {self_signed_config}')
             else:
                 raise MissingPage(f"No such page: '{_tres['url']}'")
-- 
2.43.0


From 41d525b86c11833b86e12b84ca1a9132c59048bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:10 +0000
Subject: [PATCH 25/79] fix: trust mark databases hold any number of trust
 marks and find the valid ones, whatever else is in them

---
 src/fedservice/trust_mark_entity/__init__.py | 58 ++++++++++----------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..2b17b99 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 from typing import Optional
@@ -5,6 +6,10 @@ from typing import Optional
 from cryptojwt.jwt import utc_time_sans_frac
 
 
+def has_expired(tm_info: dict) -> bool:
+    return 'exp' in tm_info and utc_time_sans_frac() > tm_info["exp"]
+
+
 class FileDB(object):
 
     def __init__(self, **kwargs):
@@ -31,18 +36,16 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
                 _tmi = json.loads(line.rstrip())
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
-
                 if self._match(sub, iat, _tmi):
-                    return True
+                    return not has_expired(_tmi)
         return False
 
     def __contains__(self, item):
@@ -73,18 +76,20 @@ class FileDB(object):
         self.load(json.loads(str))
 
     def list(self, trust_mark_id: str, sub: Optional[str] = ""):
+        seen = []
         res = []
         try:
             with open(self.config[trust_mark_id], "r") as fp:
                 # Get the last issued
                 for line in reversed(list(fp)):
                     _tmi = json.loads(line.rstrip())
-                    if _tmi["sub"] not in res:
-                        if sub:
-                            if _tmi["sub"] == sub:
-                                res.append(_tmi["sub"])
-                        else:
-                            res.append(_tmi["sub"])
+                    if _tmi["sub"] in seen:
+                        continue
+                    seen.append(_tmi["sub"])
+                    if sub and _tmi["sub"] != sub:
+                        continue
+                    if not has_expired(_tmi):
+                        res.append(_tmi["sub"])
         except KeyError as err:
             pass
 
@@ -94,29 +99,22 @@ class FileDB(object):
 class SimpleDB(object):
 
     def __init__(self):
+        # trust mark id -> subject -> information about the trust marks, in the order they were issued
         self._db = {}
 
     def add(self, tm_info: dict):
-        if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
-        else:
-            self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
+        _issued = self._db.setdefault(tm_info['id'], {}).setdefault(tm_info['sub'], [])
+        _issued.append(copy.deepcopy(tm_info))
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
-        if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+        _subs = [sub] if sub else self._db.get(trust_mark_id, {}).keys()
+        return [s for s in _subs if self.find(trust_mark_id, s)]
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
-        if _tmi:
-            if iat:
-                if iat == _tmi["iat"]:
-                    return True
-            else:
-                return True
+        # Get the last issued
+        for _tmi in reversed(self._db.get(trust_mark_id, {}).get(sub, [])):
+            if not iat or iat == _tmi["iat"]:
+                return not has_expired(_tmi)
 
         return False
 
@@ -127,13 +125,13 @@ class SimpleDB(object):
         return self._db[item]
 
     def dump(self):
-        return self._db
+        return copy.deepcopy(self._db)
 
     def dumps(self):
         return json.dumps(self._db)
 
     def load(self, info):
-        self._db = info
+        self._db = copy.deepcopy(info)
 
     def loads(self, info):
         self._db = json.loads(info)
-- 
2.43.0


From 39a30b27d5facbcb87c749e9220046ad62625c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:52 +0000
Subject: [PATCH 26/79] fix: a trust mark issuer does not change the trust mark
 specification it is given

---
 src/fedservice/trust_mark_entity/entity.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/entity.py b/src/fedservice/trust_mark_entity/entity.py
index 031f518..df66038 100644
--- a/src/fedservice/trust_mark_entity/entity.py
+++ b/src/fedservice/trust_mark_entity/entity.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable
 from typing import Optional
 
@@ -37,13 +38,7 @@ class TrustMarkEntity(Unit):
         self.entity_id = entity_id or upstream_get("attribute", "entity_id")
         self.endpoint = do_endpoints({"endpoint": endpoint, "issuer": self.entity_id},
                                      self.unit_get)
-        self.trust_mark_specification = trust_mark_specification or {}
-
-        self.tm_lifetime = {}
-        for entity_id, tm in self.trust_mark_specification.items():
-            if "lifetime" in tm:
-                self.tm_lifetime[entity_id] = tm["lifetime"]
-                del tm["lifetime"]
+        self.trust_mark_specification = copy.deepcopy(trust_mark_specification or {})
 
         if trust_mark_db:
             self.issued = init_service(trust_mark_db)
@@ -72,17 +67,16 @@ class TrustMarkEntity(Unit):
         :param kwargs: extra claims to be added to the Trust Mark's claims
         :return: Trust Mark
         """
-        _now = utc_time_sans_frac()
-        _add = {'iat': _now, 'id': id, 'sub': sub}
-        lifetime = self.tm_lifetime.get(id)
-        if lifetime:
-            _add['exp'] = _now + lifetime
-
         if id not in self.trust_mark_specification:
             raise ValueError('Unknown trust mark ID')
 
         content = self.trust_mark_specification[id].copy()
-        content.update(_add)
+        lifetime = content.pop("lifetime", None)
+
+        _now = utc_time_sans_frac()
+        content.update({'iat': _now, 'id': id, 'sub': sub})
+        if lifetime:
+            content['exp'] = _now + lifetime
         if kwargs:
             content.update(kwargs)
         self.issued.add(content)
-- 
2.43.0


From 4f545f827ed182d2752133ba35cbff1810978e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:01 +0000
Subject: [PATCH 27/79] fix: status and list requests are answered for the
 trust marks this entity has issued, by time of issue and subject

---
 .../trust_mark_entity/server/trust_mark_list.py    |  7 ++-----
 .../trust_mark_entity/server/trust_mark_status.py  | 14 ++++++++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..3b437d5 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -37,11 +37,8 @@ class TrustMarkList(Endpoint):
                         **kwargs) -> dict:
         _trust_mark_entity = self.upstream_get("unit")
 
-        if 'sub' in request and 'trust_mark_id' in request:
-            if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
-        elif 'trust_mark_id' in request:
-            _lst = _trust_mark_entity.list(request["trust_mark_id"])
+        if 'trust_mark_id' in request:
+            _lst = _trust_mark_entity.list(request["trust_mark_id"], request.get("sub", ""))
             if _lst:
                 return {"response_msg": json.dumps(_lst), "response_code": 200}
 
diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..1c75fd3 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -37,9 +37,15 @@ class TrustMarkStatus(Endpoint):
         _trust_mark_issuer = self.upstream_get("unit")
 
         if 'trust_mark' in request:
-            _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
-                return {'response_args': {'active': True}}
+            try:
+                _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
+            except Exception as err:
+                logger.warning(f"Could not verify the trust mark: {err}")
+            else:
+                # Only the trust marks this entity has issued
+                if _mark['iss'] == _trust_mark_issuer.entity_id and _trust_mark_issuer.find(
+                        _mark['id'], _mark['sub'], _mark['iat']):
+                    return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
                 _id = ""
@@ -49,7 +55,7 @@ class TrustMarkStatus(Endpoint):
                     _id = request['id']
 
                 if _id:
-                    if _trust_mark_issuer.find(_id, request['sub']):
+                    if _trust_mark_issuer.find(_id, request['sub'], int(request.get('iat', 0))):
                         return {'response_args': {'active': True}}
 
         return self.error_cls(error="not_found", error_description="No active trust mark matching the query")
-- 
2.43.0


From 2fc0ef758d8b0324a97d45e5d943ff70514a2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 28/79] fix: accept a trust mark only with keys and delegations
 that the trust anchor asked for stands behind

---
 .../entity/function/trust_mark_verifier.py    | 51 ++++++++++++-------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..ae58c4a 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -7,7 +7,6 @@ from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
-from fedservice.entity import apply_policies
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -50,6 +49,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -60,23 +60,20 @@ class TrustMarkVerifier(Function):
             logger.warning(f"Could not find any verifiable trust chains for {_trust_mark['iss']}")
             return None
 
-        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:
+        _trust_chains = [_tc for _tc in _trust_chains if _tc.anchor == trust_anchor]
+        if not _trust_chains:
             logger.warning(f'No verified trust chain to the trust anchor: {trust_anchor}')
             return None
 
         # Now try to verify the signature on the trust_mark
-        # should have the necessary keys
-        _federation_entity = get_federation_entity(self)
+        # Only the keys the trust chains to the trust anchor vouch for can be used.
         _jwt = factory(trust_mark)
-        keyjar = _federation_entity.get_attribute('keyjar')
-
+        keyjar = KeyJar()
+        for _trust_chain in _trust_chains:
+            for _statement in _trust_chain.verified_chain:
+                if _statement['sub'] == _trust_mark['iss']:
+                    keyjar = import_jwks(keyjar, _statement['jwks'], _trust_mark['iss'])
         keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
-        if not keys:
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
-            keyjar = import_jwks(keyjar,
-                                 _trust_chains[0].verified_chain[-1]["jwks"],
-                                 _trust_chains[0].iss_path[0])
-            keys = keyjar.get_jwt_verify_keys(_jwt.jwt)
 
         try:
             _mark = _jwt.verify_compact(trust_mark, keys=keys)
@@ -91,14 +88,34 @@ class TrustMarkVerifier(Function):
         # Deal with the delegation
         ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
 
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_issuers', {}):
             return None
-        if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:
+        if trust_mark['id'] not in ta_fe_metadata.get('trust_mark_owners', {}):
+            return None
+
+        # If the trust anchor has listed issuers, then it must be one of those
+        _issuers = ta_fe_metadata['trust_mark_issuers'][trust_mark['id']]
+        if isinstance(_issuers, str):
+            _issuers = [_issuers]
+        if _issuers and trust_mark['iss'] not in _issuers:
             return None
 
-        _delegation = factory(trust_mark['delegation'])
         tm_owner_info = ta_fe_metadata['trust_mark_owners'][trust_mark['id']]
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
-        keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        try:
+            _jws = factory(trust_mark['delegation'])
+            keys = _key_jar.get_jwt_verify_keys(_jws.jwt)
+            _delegation = _jws.verify_compact(keys=keys)
+        except Exception as err:
+            logger.warning(f"Delegation verification failed: {err}")
+            return None
+
+        # The owner must have delegated this trust mark to this issuer
+        if _delegation.get('iss') != tm_owner_info['sub'] or \
+                _delegation.get('sub') != trust_mark['iss'] or \
+                _delegation.get('id') != trust_mark['id'] or \
+                statement_is_expired(_delegation):
+            return None
+
+        return _delegation
-- 
2.43.0


From 173ba9f8a2e87e98ebc46450e4e99528240c2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 29/79] fix: stored trust chains are not used after they have
 expired

---
 src/fedservice/entity/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..89afc3e 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -265,9 +265,13 @@ class FederationEntity(Unit):
                         _info[md_param] = _val
         return _info
 
+    def stored_trust_chains(self, entity_id):
+        # Only those that still can be used
+        return [tc for tc in self.trust_chain.get(entity_id) or [] if not tc.is_expired()]
+
     def get_trust_chains(self, entity_id):
-        _trust_chains = self.trust_chain.get(entity_id, None)
-        if _trust_chains is None:
+        _trust_chains = self.stored_trust_chains(entity_id)
+        if not _trust_chains:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
@@ -283,8 +287,8 @@ class FederationEntity(Unit):
         self.trust_chain[entity_id] = chains
 
     def get_verified_metadata(self, entity_id: str, *args):
-        _trust_chains = self.trust_chain.get(entity_id)
-        if _trust_chains is None:
+        _trust_chains = self.stored_trust_chains(entity_id)
+        if not _trust_chains:
             _trust_chains = get_verified_trust_chains(self, entity_id)
             if _trust_chains:
                 self.store_trust_chain(entity_id, _trust_chains)
-- 
2.43.0


From 40e7a8084a61cc87e39a57b5046e7cc84da38352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:04 +0000
Subject: [PATCH 30/79] fix: a trust mark that can not be verified is not a
 reason to crash

---
 src/fedservice/entity/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 89afc3e..45416fa 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -373,6 +373,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
-- 
2.43.0


From bdd4dcc3530e732255c128fa7df0922213d7f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 31/79] fix: register a client explicitly only with its own
 entity configuration and the metadata its trust chain results in

---
 src/fedservice/appserver/oauth2/registration.py |  4 ++++
 src/fedservice/appserver/oidc/registration.py   | 17 +++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..7fcbe7e 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -26,6 +26,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import WrongSubject
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -60,6 +61,9 @@ class Registration(Endpoint):
         :return:
         """
         payload = verify_self_signed_signature(request)
+        if payload["iss"] != payload["sub"]:
+            raise WrongSubject("Not the entity configuration of the entity that wants to register")
+
         opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',
                                                                            'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..69760c0 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -1,11 +1,14 @@
 import logging
 
 from fedservice.exception import NoTrustedChains
+from fedservice.exception import WrongSubject
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import apply_policies
+from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -36,6 +39,9 @@ class Registration(registration.Registration):
         :return:
         """
         payload = verify_self_signed_signature(request)
+        if payload["iss"] != payload["sub"]:
+            raise WrongSubject("Not the entity configuration of the entity that wants to register")
+
         _entity_types = set(payload['metadata'].keys())
         if len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
@@ -44,8 +50,11 @@ class Registration(registration.Registration):
 
         _federation_entity = get_federation_entity(self)
 
-        # Collect trust chains for client
-        _trust_chains = get_verified_trust_chains(self, entity_id=payload['sub'])
+        # Collect trust chains for client. It's the received entity configuration that has to be
+        # verified by them.
+        _chains, _ = collect_trust_chains(self, payload['sub'])
+        _trust_chains = verify_trust_chains(self, _chains, request)
+        _trust_chains = apply_policies(self, _trust_chains)
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
@@ -53,7 +62,7 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From 747f4302a36f0575b08ed4098ba9b8fc0cc859d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 32/79] fix: register the client and not another of the entity
 types in an explicit registration request

---
 src/fedservice/appserver/oauth2/registration.py | 7 +++++--
 src/fedservice/appserver/oidc/registration.py   | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 7fcbe7e..fdbcb03 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -64,8 +64,11 @@ class Registration(Endpoint):
         if payload["iss"] != payload["sub"]:
             raise WrongSubject("Not the entity configuration of the entity that wants to register")
 
-        opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',
-                                                                           'trust_mark_issuer'}).pop()
+        if 'oauth_client' in payload['metadata']:
+            opponent_entity_type = 'oauth_client'
+        else:
+            opponent_entity_type = set(payload['metadata'].keys()).difference(
+                {'federation_entity', 'trust_mark_issuer'}).pop()
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 69760c0..0c5252f 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -43,7 +43,9 @@ class Registration(registration.Registration):
             raise WrongSubject("Not the entity configuration of the entity that wants to register")
 
         _entity_types = set(payload['metadata'].keys())
-        if len(_entity_types) == 1:
+        if 'openid_relying_party' in _entity_types:
+            opponent_entity_type = 'openid_relying_party'
+        elif len(_entity_types) == 1:
             opponent_entity_type = _entity_types.pop()
         else:
             opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()
-- 
2.43.0


From 9c58dc466a2cf958ccf08e96bf60565212a70b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 33/79] fix: a trust chain provided in an authorization request
 must be about the client and is left as it is

---
 .../appserver/oauth2/authorization.py         |  5 ++---
 .../appserver/oauth2/pushed_authorization.py  |  7 ++-----
 .../appserver/oidc/authorization.py           |  6 ++----
 src/fedservice/entity/function/__init__.py    | 21 +++++++++++++++++++
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..739c1f3 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -10,6 +10,7 @@ from idpyoidc.server.oauth2 import authorization
 from fedservice.appserver import import_client_keys
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
@@ -51,9 +52,7 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..a75af14 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -9,8 +9,7 @@ from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
 
 from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientMetadata
@@ -44,9 +43,7 @@ class PushedAuthorization(Authorization):
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, entity_id, provided_trust_chain)
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..f14a5dd 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -9,7 +9,7 @@ from idpyoidc.server.oidc import authorization
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_provided_trust_chain
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity.utils import get_keys
 from fedservice.exception import NoTrustedChains
@@ -51,9 +51,7 @@ class Authorization(authorization.Authorization):
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
         if provided_trust_chain:
-            # So I get the TA's entity statement first
-            provided_trust_chain.reverse()
-            trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            trust_chains = verify_provided_trust_chain(self, client_entity_id, provided_trust_chain)
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 9e50633..7e6c560 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -124,6 +124,27 @@ def verify_trust_chain(unit, chain: List[str]):
     return _verifier(chain)
 
 
+def verify_provided_trust_chain(unit, entity_id: str, provided_trust_chain: List[str]):
+    """
+    Verifies a trust chain that an entity has provided itself.
+
+    :param unit: A Unit instance
+    :param entity_id: The entity the trust chain should be about
+    :param provided_trust_chain: The trust chain with the Entity Configuration of the entity first
+    :return: List of TrustChain instances
+    """
+    # The TA's entity statement must come first
+    trust_chains = verify_trust_chains(unit, [list(reversed(provided_trust_chain))])
+    res = []
+    for trust_chain in trust_chains:
+        leaf = trust_chain.verified_chain[-1]
+        if leaf['iss'] == leaf['sub'] == entity_id:
+            res.append(trust_chain)
+        else:
+            logger.warning(f"The provided trust chain is not about {entity_id}")
+    return res
+
+
 def apply_policies(unit, trust_chains):
     """
     Goes through the collected trust chains, verifies them and applies policies.
-- 
2.43.0


From 50bd803156324e2086d1c0085676c4beef803b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:21 +0000
Subject: [PATCH 34/79] fix: automatic registration with a new client id works
 however the client authenticates

---
 src/fedservice/appserver/oauth2/authorization.py        | 3 ++-
 src/fedservice/appserver/oauth2/pushed_authorization.py | 3 ++-
 src/fedservice/appserver/oidc/authorization.py          | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 739c1f3..e532b1c 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -104,7 +104,8 @@ class Authorization(authorization.Authorization):
                     logger.debug('Automatic registration done')
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index a75af14..582c13f 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -95,7 +95,8 @@ class PushedAuthorization(Authorization):
                     logger.debug('Automatic registration done')
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index f14a5dd..21ddd6b 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -112,7 +112,8 @@ class Authorization(authorization.Authorization):
                     _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
-                        kwargs["also_known_as"] = {_cid: registered_client_id}
+                        kwargs["also_known_as"] = {_cid: registered_client_id,
+                                                   registered_client_id: registered_client_id}
                         client_info = _context.cdb[registered_client_id]
                         _context.cdb[_cid] = client_info
                         client_info['entity_id'] = _cid
-- 
2.43.0


From 7fdb4c68cf0eb63e80b731962fab0c6b896cd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 35/79] fix: an OAuth2 client that has been registered
 automatically has to be verified again when its trust chain has expired

---
 src/fedservice/appserver/oauth2/authorization.py    | 12 +++++++++++-
 .../appserver/oauth2/pushed_authorization.py        | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index e532b1c..ed99d42 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -2,6 +2,7 @@ import logging
 from typing import List
 from typing import Optional
 
+from cryptojwt.jwt import utc_time_sans_frac
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.node import topmost_unit
@@ -81,15 +82,24 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        # The registration lasts as long as the trust chain it is based on
+        op.context.cdb[client_id]["automatic_registered_until"] = trust_chain.exp
+        return client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
+        if client_info and "automatic_registered_until" in client_info:
+            if client_info["automatic_registered_until"] < utc_time_sans_frac():
+                # Have to check whether the client still belongs to the federation
+                del _context.cdb[_cid]
+                client_info = None
         if client_info is None:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
                 # try the federation way
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 582c13f..1b6ceb7 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -1,6 +1,8 @@
 import logging
 from typing import List
 
+from cryptojwt.jwt import utc_time_sans_frac
+
 from fedservice.appserver import import_client_keys
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
@@ -72,15 +74,24 @@ class PushedAuthorization(Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        # The registration lasts as long as the trust chain it is based on
+        op.context.cdb[client_id]["automatic_registered_until"] = trust_chain.exp
+        return client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
         # If this is a registered client then this should return some info
         client_info = _context.cdb.get(_cid)
+        if client_info and "automatic_registered_until" in client_info:
+            if client_info["automatic_registered_until"] < utc_time_sans_frac():
+                # Have to check whether the client still belongs to the federation
+                del _context.cdb[_cid]
+                client_info = None
         if client_info is None:
             if 'automatic' in _context.provider_info.get('client_registration_types_supported'):
                 # try the federation way
-- 
2.43.0


From c1b0842dfec657da358ed7134e35b7f2ceaf5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:26 +0000
Subject: [PATCH 36/79] fix: OAuth2 authorization responses can tell which
 trust anchor was used in an automatic registration

---
 src/fedservice/appserver/oauth2/authorization.py        | 1 +
 src/fedservice/appserver/oauth2/pushed_authorization.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index ed99d42..aa6dbee 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -66,6 +66,7 @@ class Authorization(authorization.Authorization):
         # pick one of the possible
         trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        _fe.store_trust_chains(entity_id, trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
         # handle the registration request as in the non-federation case.
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 1b6ceb7..2aeee00 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -56,6 +56,7 @@ class PushedAuthorization(Authorization):
         # pick one of the possible
         trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        _fe.store_trust_chains(entity_id, trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
         _metadata = trust_chain.metadata['oauth_client']
-- 
2.43.0


From aaca174d85476cc9f1db5b975ab3a697790343fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 37/79] fix: a client believes a registration response only if
 it is about the client and signed with keys the trust anchor vouches for,
 whichever of its own trust chains is used

---
 .../appclient/oauth2/registration.py          | 44 +++++++++----------
 src/fedservice/appclient/oidc/registration.py | 39 ++++++++--------
 src/fedservice/entity/function/__init__.py    | 32 ++++++++++++++
 3 files changed, 74 insertions(+), 41 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..59cbbb4 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -11,9 +11,8 @@ from idpyoidc.message.oauth2 import ResponseMessage
 from idpyoidc.node import topmost_unit
 
 from fedservice.entity.function import apply_policies
-from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import get_verified_trust_chains
-from fedservice.entity.function import verify_trust_chains
+from fedservice.entity.function import verify_issuer_signature
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 from fedservice.exception import SignatureFailure
@@ -120,15 +119,23 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
+    def _signature_verifies(self, entity_id, trust_anchor, entity_statement):
+        return verify_issuer_signature(self.upstream_get('unit'), entity_statement, entity_id,
+                                       trust_anchor)
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    @staticmethod
+    def _apply_response(federation_entity, trust_chains, payload):
+        # There may be more than one way to the chosen TA
+        _trust_chains = [tc for tc in trust_chains if tc.anchor == payload['trust_anchor_id']]
+        _metadata = payload.get("metadata")
+        if _metadata:
+            for trust_chain in _trust_chains:
+                trust_chain.verified_chain[-1]['metadata'] = _metadata
+            # If it's metadata_policy what to do ?
+            _trust_chains = apply_policies(federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise ValueError(f"No usable trust chain ending in {payload['trust_anchor_id']}")
+        return _trust_chains
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -142,6 +149,8 @@ class Registration(registration.Registration):
         _federation_entity = get_federation_entity(self)
 
         payload = verify_self_signed_signature(resp)
+        if payload.get('sub') != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("The registration response is not about me")
         # Do I trust the TA the OP chose ?
         logger.debug(f"trust_anchor_id: {payload['trust_anchor_id']}")
         if (payload[
@@ -160,24 +169,13 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'], resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from myself to the TA
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
-
-            # should only be one chain
-            if len(_trust_chains) != 1:
-                raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-
-            _metadata = payload.get("metadata")
-            if _metadata:
-                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
-                # If it's metadata_policy what to do ?
-                _trust_chains = apply_policies(_federation_entity, _trust_chains)
-
+            _trust_chains = self._apply_response(_federation_entity, _trust_chains, payload)
             _resp = _trust_chains[0].metadata
             _context = self.upstream_get('context')
             _context.registration_response = _resp
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..f30737d 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -8,6 +8,7 @@ from idpyoidc.message.oidc import RegistrationResponse
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_issuer_signature
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
@@ -99,15 +100,23 @@ class Registration(registration.Registration):
     def _get_trust_anchor_id(self, entity_statement):
         return entity_statement.get('trust_anchor_id')
 
-    def _signature_verifies(self, entity_id, trust_anchor, federation_entity):
-        _chains, _ = collect_trust_chains(self.upstream_get('unit'),
-                                          entity_id=entity_id,
-                                          stop_at=trust_anchor)
-        if not _chains:
-            return False
+    def _signature_verifies(self, entity_id, trust_anchor, entity_statement):
+        return verify_issuer_signature(self.upstream_get('unit'), entity_statement, entity_id,
+                                       trust_anchor)
 
-        _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+    @staticmethod
+    def _apply_response(federation_entity, trust_chains, payload):
+        # There may be more than one way to the chosen TA
+        _trust_chains = [tc for tc in trust_chains if tc.anchor == payload['trust_anchor_id']]
+        _metadata = payload.get("metadata")
+        if _metadata:
+            for trust_chain in _trust_chains:
+                trust_chain.verified_chain[-1]['metadata'] = _metadata
+            # If it's metadata_policy what to do ?
+            _trust_chains = apply_policies(federation_entity, _trust_chains)
+        if not _trust_chains:
+            raise ValueError(f"No usable trust chain ending in {payload['trust_anchor_id']}")
+        return _trust_chains
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -121,6 +130,8 @@ class Registration(registration.Registration):
         _federation_entity = get_federation_entity(self)
 
         payload = verify_self_signed_signature(resp)
+        if payload.get('sub') != self.upstream_get('attribute', 'entity_id'):
+            raise ValueError("The registration response is not about me")
         # Do I trust the TA the OP chose ?
         logger.debug(f"trust_anchor_id: {payload['trust_anchor_id']}")
         if payload[
@@ -138,8 +149,7 @@ class Registration(registration.Registration):
                 return _verifier_response
         else:
             # verify the signature on the response from the OP
-            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'],
-                                            _federation_entity):
+            if not self._signature_verifies(payload["iss"], payload['trust_anchor_id'], resp):
                 raise SignatureFailure("Could not verify signature")
 
             # This is the trust chain from the RP to the TA
@@ -147,14 +157,7 @@ class Registration(registration.Registration):
                                               entity_id=self.upstream_get('attribute', 'entity_id'),
                                               stop_at=payload['trust_anchor_id'])
             _trust_chains = verify_trust_chains(_federation_entity, _chains, resp)
-            # should only be one chain
-            if len(_trust_chains) != 1:
-                raise SystemError(f"More then one chain ending in {payload['trust_anchor_id']}")
-            _metadata = payload.get("metadata")
-            if _metadata:
-                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata
-            # If it's metadata_policy what to do ?
-            _trust_chains = apply_policies(_federation_entity, _trust_chains)
+            _trust_chains = self._apply_response(_federation_entity, _trust_chains, payload)
             _resp = _trust_chains[0].metadata['openid_relying_party']
             _context = self.upstream_get('context')
             _context.registration_response = _resp
diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 7e6c560..32fa3a8 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 from typing import Callable
 from typing import List
 from typing import Optional
@@ -145,6 +146,37 @@ def verify_provided_trust_chain(unit, entity_id: str, provided_trust_chain: List
     return res
 
 
+def verify_issuer_signature(unit, entity_statement: str, entity_id: str, trust_anchor: str):
+    """
+    Verifies that an entity statement is signed with one of the keys the superiors of an entity, below
+    a specific trust anchor, vouches for.
+
+    :param unit: A Unit instance
+    :param entity_statement: A signed entity statement
+    :param entity_id: The entity that should have issued the statement
+    :param trust_anchor: The entity ID of the trust anchor
+    :return: True if the signature could be verified otherwise False
+    """
+    _chains, _ = collect_trust_chains(unit, entity_id=entity_id, stop_at=trust_anchor)
+    for trust_chain in verify_trust_chains(unit, _chains):
+        if trust_chain.anchor != trust_anchor:
+            continue
+        # The immediate superior's statement about the entity
+        _statement = trust_chain.verified_chain[-1]
+        if _statement['sub'] != entity_id:
+            continue
+        try:
+            # KeyBundle modifies the key descriptions it is given
+            _keyjar = import_jwks(KeyJar(), deepcopy(_statement['jwks']), entity_id)
+            _payload = JWT(key_jar=_keyjar).unpack(entity_statement)
+        except Exception as err:
+            logger.warning(f"Signature verification failed: {err}")
+            continue
+        if _payload['iss'] == entity_id:
+            return True
+    return False
+
+
 def apply_policies(unit, trust_chains):
     """
     Goes through the collected trust chains, verifies them and applies policies.
-- 
2.43.0


From b205f8414ae983d049dec4f2a1ccf0ddc28d8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 38/79] fix: a request object is no reason to register a client
 automatically when only explicit registration is offered

---
 src/fedservice/appserver/oauth2/authorization.py        | 3 +++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 3 +++
 src/fedservice/appserver/oidc/authorization.py          | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index aa6dbee..73c921e 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -49,6 +49,9 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 2aeee00..8d0c686 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -41,6 +41,9 @@ class PushedAuthorization(Authorization):
         self.allowed_targets.append("")
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 21ddd6b..63483fb 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -47,6 +47,9 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
-- 
2.43.0


From 9c0c85ec81bb52d46ff1903371734c6846c77440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 39/79] fix: a request object issued by another client does not
 authenticate the client

---
 src/fedservice/appserver/oauth2/authorization.py | 12 ++++++++++++
 src/fedservice/appserver/oidc/authorization.py   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 73c921e..0b6e2f0 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -3,6 +3,7 @@ from typing import List
 from typing import Optional
 
 from cryptojwt.jwt import utc_time_sans_frac
+from idpyoidc import verified_claim_name
 from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import OauthClientMetadata
 from idpyoidc.node import topmost_unit
@@ -40,10 +41,21 @@ class Authorization(authorization.Authorization):
     def __init__(self, upstream_get, conf: Optional[dict] = None, **kwargs):
         authorization.Authorization.__init__(self, upstream_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
+        self.post_parse_request.append(self._verify_request_object_issuer)
         self.post_parse_request.append(self._reset_client_id)
         self.new_client_id = kwargs.get('new_client_id', False)
         self.config = conf or {}
 
+    def _verify_request_object_issuer(self, request, client_id, context, **kwargs):
+        # Another client's signature on the request object says nothing about this client
+        _request_object = request.get(verified_claim_name("request"))
+        if _request_object and _request_object.get("iss"):
+            _entity_id = context.cdb.get(client_id, {}).get("entity_id")
+            if _request_object["iss"] not in [client_id, _entity_id]:
+                return self.error_cls(error="invalid_request_object",
+                                      error_description="Not issued by the client")
+        return request
+
     def _reset_client_id(self, request, client_id, context, **kwargs):
         request['client_id'] = client_id
         return request
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 63483fb..236b082 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -2,6 +2,7 @@ import logging
 from typing import List
 from typing import Optional
 
+from idpyoidc import verified_claim_name
 from idpyoidc.message import oidc
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.node import topmost_unit
@@ -38,10 +39,21 @@ class Authorization(authorization.Authorization):
     def __init__(self, upstream_get, conf: Optional[dict] = None, **kwargs):
         authorization.Authorization.__init__(self, upstream_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
+        self.post_parse_request.append(self._verify_request_object_issuer)
         self.post_parse_request.append(self._reset_client_id)
         self.new_client_id = kwargs.get('new_client_id', False)
         self.config = conf or {}
 
+    def _verify_request_object_issuer(self, request, client_id, context, **kwargs):
+        # Another client's signature on the request object says nothing about this client
+        _request_object = request.get(verified_claim_name("request"))
+        if _request_object and _request_object.get("iss"):
+            _entity_id = context.cdb.get(client_id, {}).get("entity_id")
+            if _request_object["iss"] not in [client_id, _entity_id]:
+                return self.error_cls(error="invalid_request_object",
+                                      error_description="Not issued by the client")
+        return request
+
     def _reset_client_id(self, request, client_id, context, **kwargs):
         request['client_id'] = client_id
         return request
-- 
2.43.0


From 6e7cfd1c52200b15aa341e5a5e72ac44f9d0b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 40/79] fix: a request object is for the client that issued it,
 and a client registered because of one is verified again the next time

---
 .../appserver/oauth2/authorization.py          | 11 ++++++-----
 src/fedservice/appserver/oidc/authorization.py | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 0b6e2f0..1f5de36 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -49,11 +49,12 @@ class Authorization(authorization.Authorization):
     def _verify_request_object_issuer(self, request, client_id, context, **kwargs):
         # Another client's signature on the request object says nothing about this client
         _request_object = request.get(verified_claim_name("request"))
-        if _request_object and _request_object.get("iss"):
-            _entity_id = context.cdb.get(client_id, {}).get("entity_id")
-            if _request_object["iss"] not in [client_id, _entity_id]:
-                return self.error_cls(error="invalid_request_object",
-                                      error_description="Not issued by the client")
+        if _request_object:
+            _ids = [client_id, context.cdb.get(client_id, {}).get("entity_id")]
+            for claim in ["iss", "client_id"]:
+                if _request_object.get(claim) and _request_object[claim] not in _ids:
+                    return self.error_cls(error="invalid_request_object",
+                                          error_description="Not issued by the client")
         return request
 
     def _reset_client_id(self, request, client_id, context, **kwargs):
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 236b082..9b5e6ea 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -47,11 +47,12 @@ class Authorization(authorization.Authorization):
     def _verify_request_object_issuer(self, request, client_id, context, **kwargs):
         # Another client's signature on the request object says nothing about this client
         _request_object = request.get(verified_claim_name("request"))
-        if _request_object and _request_object.get("iss"):
-            _entity_id = context.cdb.get(client_id, {}).get("entity_id")
-            if _request_object["iss"] not in [client_id, _entity_id]:
-                return self.error_cls(error="invalid_request_object",
-                                      error_description="Not issued by the client")
+        if _request_object:
+            _ids = [client_id, context.cdb.get(client_id, {}).get("entity_id")]
+            for claim in ["iss", "client_id"]:
+                if _request_object.get(claim) and _request_object[claim] not in _ids:
+                    return self.error_cls(error="invalid_request_object",
+                                          error_description="Not issued by the client")
         return request
 
     def _reset_client_id(self, request, client_id, context, **kwargs):
@@ -101,10 +102,14 @@ class Authorization(authorization.Authorization):
         response_info = _registration.non_fed_process_request(req=req, **kwargs)
 
         try:
-            return response_info["response_args"]["client_id"]
+            client_id = response_info["response_args"]["client_id"]
         except KeyError:
             return None
 
+        # Whichever way it got here it has to be verified again the next time
+        op.context.cdb[client_id]["automatic_registered"] = True
+        return client_id
+
     def client_authentication(self, request, auth=None, **kwargs):
         _cid = request["client_id"]
         _context = self.upstream_get("context")
@@ -124,7 +129,6 @@ class Authorization(authorization.Authorization):
                     }
                 else:
                     logger.debug('Automatic registration done')
-                    _context.cdb[registered_client_id]["automatic_registered"] = True
                     if registered_client_id != _cid:
                         request["client_id"] = registered_client_id
                         kwargs["also_known_as"] = {_cid: registered_client_id,
-- 
2.43.0


From cbcfc966709aceced96a14709e9a399a54341eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 41/79] fix: the constraints are checked on the complete chain
 when the keys of the issuer of a registration response are looked up

---
 src/fedservice/entity/function/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 32fa3a8..337d215 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -12,6 +12,7 @@ from idpyoidc.impexp import ImpExp
 from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.utils import get_federation_entity
+from fedservice.entity_statement.constraints import meets_restrictions
 
 logger = logging.getLogger(__name__)
 
@@ -165,6 +166,9 @@ def verify_issuer_signature(unit, entity_statement: str, entity_id: str, trust_a
         _statement = trust_chain.verified_chain[-1]
         if _statement['sub'] != entity_id:
             continue
+        # The constraints have to hold for the complete chain, the one that ends with the entity's own statement
+        if not meets_restrictions([*trust_chain.verified_chain, {'iss': entity_id, 'sub': entity_id}]):
+            continue
         try:
             # KeyBundle modifies the key descriptions it is given
             _keyjar = import_jwks(KeyJar(), deepcopy(_statement['jwks']), entity_id)
-- 
2.43.0


From 9e1953e454e93f118b60172cea8bea994dcd4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:01 +0000
Subject: [PATCH 42/79] fix: a statement with critical claims or policy
 operators that are not understood is refused

---
 src/fedservice/entity/function/__init__.py |  4 +++-
 src/fedservice/entity/function/verifier.py |  2 ++
 src/fedservice/message.py                  | 27 ++++++++++++++++++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 337d215..5e161b9 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -13,6 +13,7 @@ from idpyoidc.key_import import import_jwks
 
 from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
+from fedservice.message import verify_critical
 
 logger = logging.getLogger(__name__)
 
@@ -173,8 +174,9 @@ def verify_issuer_signature(unit, entity_statement: str, entity_id: str, trust_a
             # KeyBundle modifies the key descriptions it is given
             _keyjar = import_jwks(KeyJar(), deepcopy(_statement['jwks']), entity_id)
             _payload = JWT(key_jar=_keyjar).unpack(entity_statement)
+            verify_critical(_payload)
         except Exception as err:
-            logger.warning(f"Signature verification failed: {err}")
+            logger.warning(f"Statement verification failed: {err}")
             continue
         if _payload['iss'] == entity_id:
             return True
diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 593fa61..6976165 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -13,6 +13,7 @@ from fedservice.entity.utils import get_federation_entity
 from fedservice.entity_statement.constraints import meets_restrictions
 from fedservice.entity_statement.statement import TrustChain
 from fedservice.exception import UnknownTrustAnchor
+from fedservice.message import verify_critical
 
 logger = logging.getLogger(__name__)
 
@@ -96,6 +97,7 @@ class TrustChainVerifier(Function):
                 logger.debug("Possible verification keys: %s", _key_spec)
                 res = _jwt.verify_compact(keys=keys)
                 logger.debug("Verified entity statement: %s", res)
+                verify_critical(res)
                 try:
                     _jwks = res['jwks']
                 except KeyError:
diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..7d05fe7 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -445,6 +445,33 @@ class EntityStatement(JsonWebToken):
                 _metadata_policy.verify(policy_language_crit=_crit, **kwargs)
 
 
+# Claims, not part of EntityStatement, that are dealt with elsewhere
+KNOWN_EXTENSIONS = ["trust_mark_issuers", "trust_mark_owners"]
+
+
+def _as_list(val):
+    return [val] if isinstance(val, str) else val or []
+
+
+def verify_critical(statement: dict):
+    """
+    Verifies that everything a received statement says is critical is understood.
+
+    :param statement: The payload of an entity statement
+    """
+    _understood = set(EntityStatement.c_param).union(KNOWN_EXTENSIONS)
+    _unknown = set(_as_list(statement.get("crit"))).intersection(statement).difference(_understood)
+
+    _critical = set(_as_list(statement.get("policy_language_crit"))).difference(Policy.c_param)
+    if _critical:
+        for _policies in (statement.get("metadata_policy") or {}).values():
+            for _policy in _policies.values():
+                _unknown.update(_critical.intersection(_policy))
+
+    if _unknown:
+        raise UnknownCriticalExtension(_unknown)
+
+
 class TrustMark(JsonWebToken):
     c_param = JsonWebToken.c_param.copy()
     c_param.update({
-- 
2.43.0


From d9fab399ee55d287d11ffa1840a935d77b702fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 43/79] fix: what is wrong with one trust chain, whatever it
 is, must not hide the other trust chains when policies are applied

---
 src/fedservice/entity/function/__init__.py |  4 ++--
 src/fedservice/entity/function/policy.py   | 12 ++++--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/fedservice/entity/function/__init__.py b/src/fedservice/entity/function/__init__.py
index 5e161b9..f8a37a2 100644
--- a/src/fedservice/entity/function/__init__.py
+++ b/src/fedservice/entity/function/__init__.py
@@ -197,8 +197,8 @@ def apply_policies(unit, trust_chains):
     for trust_chain in trust_chains:
         try:
             _policy_applier(trust_chain)
-        except PolicyError as err:
-            # The other trust chains may still be useful
+        except Exception as err:
+            # Not only PolicyError, anything can be in a statement. The other trust chains may still be useful
             logger.warning(f"Policies could not be applied: {err}")
             continue
         res.append(trust_chain)
diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 306049c..ff8bcb3 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -399,15 +399,11 @@ class TrustChainPolicy(Function):
         :param trust_chain: TrustChain instance
         :param entity_type: Which Entity Type the entity are
         """
-        if len(trust_chain.verified_chain) > 1:
-            if entity_type:
-                trust_chain.metadata[entity_type] = self._policy(trust_chain, entity_type)
-            else:
-                for _type in trust_chain.verified_chain[-1]['metadata'].keys():
-                    trust_chain.metadata[_type] = self._policy(trust_chain, _type)
+        if entity_type:
+            trust_chain.metadata[entity_type] = self._policy(trust_chain, entity_type)
         else:
-            trust_chain.metadata = trust_chain.verified_chain[0]["metadata"][entity_type]
-            trust_chain.combined_policy[entity_type] = {}
+            for _type in trust_chain.verified_chain[-1].get('metadata', {}).keys():
+                trust_chain.metadata[_type] = self._policy(trust_chain, _type)
 
 
 def diff2policy(new, old):
-- 
2.43.0


From edc4986df798e9172f4040e811aa267310f93018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 44/79] fix: a statement is not refused because of critical
 claims or policy operators it does not use

---
 src/fedservice/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index 7d05fe7..2b9dabd 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -341,8 +341,8 @@ class Policy(Message):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
-                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
+                elif _musts:
+                    raise UnknownCriticalExtension(_musts)
 
 
 def policy_deser(val, sformat="json"):
@@ -435,8 +435,8 @@ class EntityStatement(JsonWebToken):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
-                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
+                elif _musts:
+                    raise UnknownCriticalExtension(_musts)
 
         _metadata_policy = self.get('metadata_policy')
         if _metadata_policy:
-- 
2.43.0


From 6af0384a197acb2bbaee72523a2269d415aaad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:39 +0000
Subject: [PATCH 45/79] fix: what can not be the entity statement asked for is
 not remembered as if it was

---
 src/fedservice/entity/function/trust_chain_collector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 30e9697..933f340 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -48,6 +48,8 @@ def verify_self_signed_signature(statement):
 
     _jwt = JWT(key_jar=keyjar)
     _val = _jwt.unpack(statement)
+    if not isinstance(_val.get('exp'), (int, float)):
+        raise ValueError(f"Missing or malformed expiration time: {_val.get('exp')}")
     return _val
 
 
@@ -320,8 +322,11 @@ class TrustChainCollector(Function):
             logger.debug(
                 f"Unverified entity statement from {fed_fetch_endpoint} about {entity}: "
                 f"{statement}")
-            self.entity_statement_cache[_cache_key] = entity_statement
-            self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
+            # Don't remember something that can't be what was asked for
+            if (statement['iss'] == authority and statement['sub'] == entity
+                    and isinstance(statement['exp'], (int, float))):
+                self.entity_statement_cache[_cache_key] = entity_statement
+                self.entity_statement_cache[time_key(authority, entity)] = statement["exp"]
 
         return entity_statement
 
-- 
2.43.0


From f03d6de82fb7bb9ab08c66d0d80060fe4f2cdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:38 +0000
Subject: [PATCH 46/79] fix: a federation client accepts only signed answers
 where answers have to be signed, whatever content type they come with

---
 src/fedservice/entity/client/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index 1d40d71..ec89ecc 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -436,7 +436,10 @@ class FederationClient(FederationClientEntity):
                         _deser_method, response_body_type
                     )
                 )
-            if _deser_method in ["json", "jwt", "urlencoded"]:
+            if response_body_type in ["jwt", "jws", "jose"] or response_body_type.endswith("+jwt"):
+                # Has to be signed whatever the response claims it to be
+                value_type = "jwt"
+            elif _deser_method in ["json", "jwt", "urlencoded"]:
                 value_type = _deser_method
             else:
                 value_type = response_body_type
-- 
2.43.0


From a17601055f942f6b535f2b03de252dcb0ef88834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 47/79] fix: the status of a trust mark is asked for at the
 status endpoint of its issuer

---
 src/fedservice/entity/client/trust_mark_status.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/trust_mark_status.py b/src/fedservice/entity/client/trust_mark_status.py
index 39d6ddb..6d61b9c 100644
--- a/src/fedservice/entity/client/trust_mark_status.py
+++ b/src/fedservice/entity/client/trust_mark_status.py
@@ -10,6 +10,7 @@ from idpyoidc.message import oauth2
 from idpyoidc.message.oauth2 import ResponseMessage
 
 from fedservice import message
+from fedservice.entity.function.trust_anchor import get_verified_endpoint
 from fedservice.entity.service import FederationService
 
 
@@ -55,7 +56,13 @@ class TrustMarkStatus(FederationService):
             _q_args = {'trust_mark': request_args["trust_mark"]}
             _jws = factory(request_args["trust_mark"])
             tm_payload = _jws.jwt.payload()
-            fetch_endpoint = tm_payload['iss']
+            if not fetch_endpoint:
+                fetch_endpoint = kwargs.get("endpoint")
+                if not fetch_endpoint:
+                    fetch_endpoint = get_verified_endpoint(
+                        self, tm_payload['iss'], "federation_trust_mark_status_endpoint")
+                    if not fetch_endpoint:
+                        raise MissingAttribute('fetch_endpoint')
         else:
             _q_args = {k: v for k, v in request_args.items() if k in ['sub', 'trust_mark_id', 'iat']}
             if not fetch_endpoint:
-- 
2.43.0


From a9b4c12be844f14d6f6d66bf0c4b79d22dd5e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:35 +0000
Subject: [PATCH 48/79] fix: a federation client does not take the
 configuration of one entity for that of another

---
 src/fedservice/entity/client/__init__.py             | 3 ++-
 src/fedservice/entity/client/entity_configuration.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/client/__init__.py b/src/fedservice/entity/client/__init__.py
index ec89ecc..0dba7ef 100644
--- a/src/fedservice/entity/client/__init__.py
+++ b/src/fedservice/entity/client/__init__.py
@@ -293,7 +293,8 @@ class FederationClient(FederationClientEntity):
             **kwargs
     ):
         _srv = self.service[request_type]
-        self.context.issuer = kwargs.get("entity_id", kwargs.get("issuer"))
+        self.context.issuer = kwargs.get("entity_id", kwargs.get("issuer",
+                                                                 (request_args or {}).get("entity_id")))
         _info = _srv.get_request_parameters(request_args=request_args,
                                             behaviour_args=behaviour_args, **kwargs)
         if not _info:
diff --git a/src/fedservice/entity/client/entity_configuration.py b/src/fedservice/entity/client/entity_configuration.py
index ce29de8..ac26814 100644
--- a/src/fedservice/entity/client/entity_configuration.py
+++ b/src/fedservice/entity/client/entity_configuration.py
@@ -111,6 +111,11 @@ class EntityConfiguration(FederationService):
         return _info
 
     def post_parse_response(self, response, **kwargs):
+        _asked = getattr(self.upstream_get("context"), "issuer", None)
+        if response["iss"] != response["sub"] or (_asked and response["iss"] != _asked):
+            raise ValueError(
+                f"Not the entity configuration of {_asked}: {response['iss']} on {response['sub']}")
+
         root = get_federation_entity(self)
         _collector = root.function.trust_chain_collector
         _collector.config_cache[response["iss"]] = response
-- 
2.43.0


From d95572ed47fb2ea338421e60d4fec0cf63960d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:39 +0000
Subject: [PATCH 49/79] fix: an OAuth2 authorization request with a request
 object remains a request

---
 src/fedservice/appclient/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 2ee8ffb..ea60ea6 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -80,6 +80,6 @@ class Authorization(authorization.Authorization):
             _args = {k: request_args[k] for k in self.msg_type().required_parameters() if k in request_args}
             _req = construct_request_parameter(service, request_args, **kwargs)
             _args["request"] = _req
-            return _args
+            return self.msg_type(**_args)
         else:
             return request_args
-- 
2.43.0


From 3faa280d752ee93f74eb89cb18518348e2c02533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:39 +0000
Subject: [PATCH 50/79] fix: an explicitly registered client uses the client ID
 it was given

---
 src/fedservice/appclient/oauth2/authorization.py | 12 ++++++++++--
 src/fedservice/appclient/oidc/authorization.py   | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index ea60ea6..ce2b3fa 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -11,6 +11,14 @@ class Authorization(authorization.Authorization):
         self.pre_construct.append(self._automatic_registration)
         self.post_construct.append(self.create_request)
 
+    def _client_id(self, context):
+        # Explicit registration may have resulted in a client ID
+        if context.registration_response:
+            client_id = context.get_client_id()
+            if client_id:
+                return client_id
+        return self.upstream_get('attribute', 'entity_id')
+
     def _use_authorization_endpoint(self, context, post_args, ams, entity_type):
         if 'pushed_authorization' in context.add_on:
             # Turn off pushed auth
@@ -21,7 +29,7 @@ class Authorization(authorization.Authorization):
             post_args['recv'] = context.get_metadata_claim("authorization_endpoint", [entity_type])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self._client_id(context)
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -68,7 +76,7 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self._client_id(_context)
 
         return request_args, post_args
 
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index e816048..1ee3074 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -9,6 +9,14 @@ class Authorization(authorization.Authorization):
         authorization.Authorization.__init__(self, upstream_get=upstream_get, conf=conf)
         self.pre_construct.append(self._automatic_registration)
 
+    def _client_id(self, context):
+        # Explicit registration may have resulted in a client ID
+        if context.registration_response:
+            client_id = context.get_client_id()
+            if client_id:
+                return client_id
+        return self.upstream_get('attribute', 'entity_id')
+
     def _use_authorization_endpoint(self, context, post_args, ams):
         if 'pushed_authorization' in context.add_on:
             # Turn off pushed auth
@@ -20,7 +28,7 @@ class Authorization(authorization.Authorization):
                                                            ['openid_provider', 'oauth_authorization_server'])
             post_args["with_jti"] = True
             post_args["lifetime"] = self.conf.get("request_object_expires_in", 300)
-            post_args['issuer'] = self.upstream_get('attribute', 'entity_id')
+            post_args['issuer'] = self._client_id(context)
         else:
             raise OtherError("Using request object in authentication not supported by OP")
 
@@ -59,6 +67,6 @@ class Authorization(authorization.Authorization):
 
         client_id = request_args.get('client_id')
         if not client_id:
-            request_args['client_id'] = self.upstream_get('attribute', 'entity_id')
+            request_args['client_id'] = self._client_id(_context)
 
         return request_args, post_args
-- 
2.43.0


From 8c77c055162f654309f6b1b261664d884705bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:39 +0000
Subject: [PATCH 51/79] fix: a client can be configured to use the pushed
 authorization request endpoint

---
 src/fedservice/appclient/oauth2/authorization.py | 4 +++-
 src/fedservice/appclient/oidc/authorization.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index ce2b3fa..82d93e7 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -35,12 +35,14 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams, entity_type):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams, entity_type):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index 1ee3074..c70bafd 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -34,12 +34,14 @@ class Authorization(authorization.Authorization):
 
         return post_args
 
-    def _use_pushed_authorization_endpoint(self, context, post_args, ams):
+    def _use_pushed_authorization_request_endpoint(self, context, post_args, ams):
         if 'pushed_authorization' not in context.add_on:
             raise UnSupported('Pushed Authorization not supported')
         else:  # Make it happen
             context.add_on['pushed_authorization']['apply'] = True
 
+        return post_args
+
     def _automatic_registration(self, request_args, post_args=None, **kwargs):
         _context = self.upstream_get("context")
         if post_args is None:
-- 
2.43.0


From 41f49509355cbdbda6d624e5c5592e671726e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 52/79] fix: the pushed authorization request endpoint answers
 with a request_uri

---
 src/fedservice/appserver/oauth2/pushed_authorization.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 8d0c686..6272a64 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -7,8 +7,8 @@ from fedservice.appserver import import_client_keys
 from fedservice.entity.function import get_verified_trust_chains
 from idpyoidc.message import oauth2
 from idpyoidc.node import topmost_unit
-from idpyoidc.server.oauth2.authorization import Authorization
 from idpyoidc.server.oauth2 import authorization
+from idpyoidc.server.oauth2 import pushed_authorization
 
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import verify_provided_trust_chain
@@ -19,7 +19,7 @@ from fedservice.message import OauthClientMetadata
 logger = logging.getLogger(__name__)
 
 
-class PushedAuthorization(Authorization):
+class PushedAuthorization(pushed_authorization.PushedAuthorization):
     request_cls = oauth2.PushedAuthorizationRequest
     response_cls = oauth2.Message
     endpoint_name = "pushed_authorization_request_endpoint"
@@ -31,10 +31,7 @@ class PushedAuthorization(Authorization):
     endpoint_type = "oauth2"
 
     def __init__(self, upstream_get, **kwargs):
-        Authorization.__init__(self, upstream_get, **kwargs)
-        # self.pre_construct.append(self._pre_construct)
-        self.post_parse_request.append(self._post_parse_request)
-        self.ttl = kwargs.get("ttl", 3600)
+        pushed_authorization.PushedAuthorization.__init__(self, upstream_get, **kwargs)
         self.new_client_id = ""
         # When a signed JWT is used as client credentials this matches the "aud"
         # default self.allowed_targets = [self.name]
-- 
2.43.0


From 155e5b61e88d7afc2565cc9eebd0419337d29cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:48 +0000
Subject: [PATCH 53/79] fix: a client registered by a pushed authorization
 request keeps its entity ID

---
 src/fedservice/appserver/oauth2/pushed_authorization.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index 6272a64..ac0af65 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -66,9 +66,7 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
 
         req = OauthClientMetadata(**_metadata)
         req['client_id'] = entity_id
-        kwargs = {}
-        if self.new_client_id:
-            kwargs['new_id'] = self.new_client_id
+        kwargs = {'new_id': bool(self.new_client_id)}
 
         op = topmost_unit(self)['oauth_authorization_server']
         _registration = op.get_endpoint("registration")
-- 
2.43.0


From 970c933bfdd99766f4981a6413d2b86b01efeb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:08 +0000
Subject: [PATCH 54/79] fix: the stand alone client makes the server metadata
 it collects known to its services

---
 src/fedservice/appclient/stand_alone_client_entity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 0b9ae28..479fc6f 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -72,6 +72,7 @@ class StandAloneClientEntity(ClientEntity):
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
+            context.server_metadata = trust_chain.metadata
             context.provider_info = context.metadata = _pi
             self._import_keys(_pi, context.keyjar, _pi["issuer"])
             return _pi
-- 
2.43.0


From c3cb9f499370714e981d243fee2fa24b5dea31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 55/79] fix: a request with arguments but without a response
 type uses the default response type

---
 src/fedservice/appclient/stand_alone_client_entity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 479fc6f..bcaaf9c 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -202,11 +202,11 @@ class StandAloneClientEntity(ClientEntity):
             _response_type = req_args.get("response_type")
             if _response_type:
                 return _response_type
+
+        if default_response_type in context.claims.get_usage("response_types"):
+            return default_response_type
         else:
-            if default_response_type in context.claims.get_usage("response_types"):
-                return default_response_type
-            else:
-                return context.claims.get_usage("response_types")[0]
+            return context.claims.get_usage("response_types")[0]
 
     def _get_response_mode(self, context, response_type, request_args):
         if request_args:
-- 
2.43.0


From 9debcb70d6110a444db3a0471f1c583faefe7caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 56/79] fix: the stand alone client registers explicitly with
 its own registration service

---
 .../appclient/stand_alone_client_entity.py         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index bcaaf9c..8e9083c 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -179,7 +179,13 @@ class StandAloneClientEntity(ClientEntity):
             if 'automatic' in _possible:
                 return
 
-        if _federation_entity.get_service("registration"):  # means I can do dynamic client registration
+        # Who, of the client and its federation entity, can do dynamic client registration
+        if "registration" in self.get_services():
+            _registrar = self
+        else:
+            _registrar = _federation_entity
+
+        if _registrar.get_service("registration"):  # means I can do dynamic client registration
             if request_args is None:
                 request_args = {}
 
@@ -188,11 +194,11 @@ class StandAloneClientEntity(ClientEntity):
                 request_args.update({k: v for k, v in behaviour_args.items() if k in _params})
 
             # root = topmost_unit(_federation_entity)
-            _endpoint_name = _federation_entity.client.get_service("registration").endpoint_name
+            _endpoint_name = _registrar.get_service("registration").endpoint_name
             endpoint = _context.provider_info[_endpoint_name]
-            load_registration_response(_federation_entity, request_args=request_args,
+            load_registration_response(_registrar, request_args=request_args,
                                        behaviour_args={"client": self},
-                                       endpoint=endpoint)
+                                       endpoint=endpoint, request_body_type="jose", method="POST")
         else:
             _context.map_preferred_to_registered()
 
-- 
2.43.0


From 17326d8e848a4884d95cc1bc441481380a022967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 57/79] fix: a stored trust chain is picked by the priority of
 its trust anchor

---
 src/fedservice/appclient/stand_alone_client_entity.py | 2 +-
 src/fedservice/entity/__init__.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 8e9083c..68181a9 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -144,7 +144,7 @@ class StandAloneClientEntity(ClientEntity):
         elif federation_entity.context.tr_priority:
             # Go by priority
             for ta_id in federation_entity.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 45416fa..1deca6d 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _tas:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
-- 
2.43.0


From 67d1cd2505104be47eddf25c0faf7a706dce3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:09 +0000
Subject: [PATCH 58/79] fix: exporting a trust chain does not change it

---
 src/fedservice/entity_statement/statement.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..267af1d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,9 +87,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return list(reversed(self.verified_chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From a2063f16e470974615ac0be4cb6ac401aeac6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:14 +0000
Subject: [PATCH 59/79] fix: contradicting policy operators are refused
 whatever other operators are combined with them

---
 src/fedservice/entity/function/policy.py | 35 ++++++++----------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index ff8bcb3..1862108 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -173,32 +173,21 @@ def combine_claim_policy(superior, child):
         if "value" in child_set:  # can only be set within the limits given by the superior
             _verify_value(rule)
 
-        if comb_policy == {'superset_of', 'subset_of'}:
+        if {'superset_of', 'subset_of'}.issubset(comb_policy):
             # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
+            if _as_set(rule['superset_of']).difference(_as_set(rule['subset_of'])):
                 raise PolicyError('superset_of not a super set of subset_of')
-        elif comb_policy == {'superset_of', 'subset_of', 'default'}:
-            # make sure the subset_of is a superset of superset_of.
-            if set(rule['superset_of']).difference(set(rule['subset_of'])):
-                raise PolicyError('superset_of not a super set of subset_of')
-            if set(rule['default']).difference(set(rule['subset_of'])):
+        if {'subset_of', 'default'}.issubset(comb_policy):
+            if _as_set(rule['default']).difference(_as_set(rule['subset_of'])):
                 raise PolicyError('default not a sub set of subset_of')
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'subset_of', 'default'}:
-            if set(rule['default']).difference(set(rule['subset_of'])):
-                raise PolicyError('default not a sub set of subset_of')
-        elif comb_policy == {'superset_of', 'default'}:
-            if set(rule['superset_of']).difference(set(rule['default'])):
-                raise PolicyError('default not a super set of subset_of')
-        elif comb_policy == {'one_of', 'default'}:
-            if isinstance(rule['default'], list):
-                if set(rule['default']).difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-            else:
-                if {rule['default']}.difference(set(rule['one_of'])):
-                    raise PolicyError('default not a super set of one_of')
-        elif comb_policy == {'superset_of', 'add'}:
+        if {'superset_of', 'default'}.issubset(comb_policy):
+            if _as_set(rule['superset_of']).difference(_as_set(rule['default'])):
+                raise PolicyError('default not a super set of superset_of')
+        if {'one_of', 'default'}.issubset(comb_policy):
+            if _as_set(rule['default']).difference(_as_set(rule['one_of'])):
+                raise PolicyError('default not a super set of one_of')
+
+        if comb_policy == {'superset_of', 'add'}:
             if not set(rule['add']).issuperset(set(rule['superset_of'])):
                 raise PolicyError('"add" not a superset of "superset"')
 
-- 
2.43.0


From 75844155b27c7ed07af284ff65cf9ba3bd3c57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 60/79] fix: an authority hints file that is empty when an
 entity starts is still followed once hints are written to it

---
 src/fedservice/entity/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/context.py b/src/fedservice/entity/context.py
index 932baee..087a8ae 100644
--- a/src/fedservice/entity/context.py
+++ b/src/fedservice/entity/context.py
@@ -58,7 +58,10 @@ class FederationContext(ImpExp):
 
         self.trust_marks = trust_marks or config.get('trust_marks', [])
         self.trusted_roots = trusted_roots or config.get('trusted_roots', {})
-        self.authority_hints = authority_hints or config.get('authority_hints', [])
+        # A list file that is empty right now may be filled later on
+        if authority_hints is None:
+            authority_hints = config.get('authority_hints', [])
+        self.authority_hints = authority_hints
 
         self.trust_chain = {}
         # self.issuer = self.entity_id
-- 
2.43.0


From 8ab51e4301a7c4d7d1f7df1a8abbfe67d8929515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:22 +0000
Subject: [PATCH 61/79] fix: load_values_from_file also loads the files that
 are referred to by the members of a list

---
 src/fedservice/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 7e27057..71eb836 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -310,8 +310,8 @@ def load_values_from_file(config):
             for v in val:
                 if isinstance(v, dict):
                     _list.append(load_values_from_file(v))
-                elif isinstance(val, str) and val.startswith("file:"):
-                    res[key] = _import(val)
+                elif isinstance(v, str) and v.startswith("file:"):
+                    _list.append(_import(v))
                 else:
                     _list.append(v)
             res[key] = _list
-- 
2.43.0


From d759b601be6464a6ec9c5dd6c06fcd6101001ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 62/79] fix: a subordinate's configuration has to be signed
 with its own registered keys to be listed with its trust marks

---
 src/fedservice/entity/server/list.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index bcda27c..f120383 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -94,15 +94,14 @@ class List(Endpoint):
     def collect_subordinates(self) -> dict:
         _server_entity = self.upstream_get("unit")
         _federation_entity = _server_entity.upstream_get("unit")
-        keyjar = KeyJar()
         _collector = _federation_entity.function.trust_chain_collector
         sub = {}
         for entity_id, conf in _federation_entity.server.subordinate.items():
             try:
                 #  get entity configuration for subordinate
                 _entity_configuration = _collector.get_entity_configuration(entity_id)
-                # Verify signature with the keys I have
-                keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
+                # Verify signature with the keys I have for this subordinate and no others
+                keyjar = import_jwks(KeyJar(), conf['jwks'], entity_id)
                 _jwt = JWT(key_jar=keyjar)
                 _ec = _jwt.unpack(_entity_configuration)
             except Exception as err:
-- 
2.43.0


From 13512b4d70986094d40ef6d758136964167d9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:02 +0000
Subject: [PATCH 63/79] fix: a client registration that fails does not leave a
 half registered client behind

---
 src/fedservice/appserver/__init__.py          | 27 +++++++++++++++++++
 .../appserver/oauth2/registration.py          |  2 ++
 src/fedservice/appserver/oidc/registration.py |  5 ++++
 3 files changed, 34 insertions(+)

diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 30df939..3d3197f 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -1,3 +1,4 @@
+import functools
 import logging
 from typing import Any
 from typing import Callable
@@ -53,6 +54,32 @@ def import_client_keys(information: Union[Message, dict], keyjar: KeyJar, entity
                 keyjar = import_jwks(keyjar, _jwks, entity_id)
 
 
+def all_or_nothing(func: Callable):
+    """
+    Client registrations that fail should not leave anything behind in the client database.
+    """
+
+    @functools.wraps(func)
+    def wrapper(self, request, *args, **kwargs):
+        _cdb = self.upstream_get("context").cdb
+        _client_id = request.get("client_id")
+        _client_info = _cdb.get(_client_id)
+        _client_ids = list(_cdb.keys())
+        response = None
+        try:
+            response = func(self, request, *args, **kwargs)
+        finally:
+            if response is None or "error" in response:
+                for _id in list(_cdb.keys()):
+                    if _id not in _client_ids:
+                        del _cdb[_id]
+                if _client_info is not None:
+                    _cdb[_client_id] = _client_info
+        return response
+
+    return wrapper
+
+
 class ServerEntity(ServerUnit):
     name = 'openid_provider'
     parameter = {"endpoint": [Endpoint], "context": EndpointContext}
diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index fdbcb03..67743b5 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -20,6 +20,7 @@ from idpyoidc.util import rndstr
 from idpyoidc.util import sanitize
 from idpyoidc.util import split_uri
 
+from fedservice.appserver import all_or_nothing
 from fedservice.appserver import import_client_keys
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
@@ -304,6 +305,7 @@ class Registration(Endpoint):
 
         return _cinfo
 
+    @all_or_nothing
     def client_registration_setup(self, request,
                                   new_id: Optional[bool] = True,
                                   set_secret: Optional[bool] = True,
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index 0c5252f..2c0cded 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -6,6 +6,7 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
+from fedservice.appserver import all_or_nothing
 from fedservice.entity.function import apply_policies
 from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
@@ -97,6 +98,10 @@ class Registration(registration.Registration):
 
         return response_info
 
+    @all_or_nothing
+    def client_registration_setup(self, request, *args, **kwargs):
+        return registration.Registration.client_registration_setup(self, request, *args, **kwargs)
+
     def non_fed_process_request(self, req, **kwargs):
         if "new_id" not in kwargs:
             kwargs["new_id"] = False
-- 
2.43.0


From 67523293d3da06178122382ac1a16fa1075f1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:22 +0000
Subject: [PATCH 64/79] fix: automatic registration also uses the trust chain
 to the trust anchor of highest priority

---
 src/fedservice/appserver/oauth2/authorization.py        | 4 ++--
 src/fedservice/appserver/oauth2/pushed_authorization.py | 4 ++--
 src/fedservice/appserver/oidc/authorization.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 1f5de36..06436bb 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -80,8 +80,8 @@ class Authorization(authorization.Authorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.store_trust_chains(entity_id, trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
@@ -153,5 +153,5 @@ class Authorization(authorization.Authorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index ac0af65..30503c3 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -54,8 +54,8 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = topmost_unit(self)['federation_entity']
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.store_trust_chains(entity_id, trust_chains)
         _fe.trust_chain_anchor = trust_chain.anchor
 
@@ -127,5 +127,5 @@ class PushedAuthorization(pushed_authorization.PushedAuthorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 9b5e6ea..8f3eb34 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -76,8 +76,8 @@ class Authorization(authorization.Authorization):
             raise NoTrustedChains()
 
         # pick one of the possible
-        trust_chain = trust_chains[0]
         _fe = get_federation_entity(self)
+        trust_chain = _fe.pick_trust_chain(trust_chains)
         _fe.store_trust_chains(client_entity_id, trust_chains)
         # _fe.trust_chain_anchor = trust_chain.anchor
 
@@ -153,5 +153,5 @@ class Authorization(authorization.Authorization):
         if _client_id:
             _tcs = _fe.trust_chain.get(_client_id, {})
             if _tcs:
-                aresp['trust_anchor_id'] = _tcs[0].anchor
+                aresp['trust_anchor_id'] = _fe.pick_trust_chain(_tcs).anchor
         return aresp
-- 
2.43.0


From 75c40d0b24244e4326a0c6c2bed04ce657f05a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:19 +0000
Subject: [PATCH 65/79] fix: trust marks from a file or a function are put in
 the registration request, not the name of the file

---
 src/fedservice/appclient/oidc/registration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index f30737d..50d7425 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -73,8 +73,9 @@ class Registration(registration.Registration):
         _entity_id = _federation_entity.upstream_get('attribute', 'entity_id')
 
         kwargs = {}
-        if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+        _trust_marks = _context.get_trust_marks()
+        if _trust_marks:
+            kwargs["trust_marks"] = _trust_marks
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
-- 
2.43.0


From 738617417b91ef43c112120fe87fc23d4ea245b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:03 +0000
Subject: [PATCH 66/79] fix: the metadata and keys of a provider are only used
 for the issuer that was asked for

---
 src/fedservice/appclient/stand_alone_client_entity.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/stand_alone_client_entity.py b/src/fedservice/appclient/stand_alone_client_entity.py
index 68181a9..9b9754a 100644
--- a/src/fedservice/appclient/stand_alone_client_entity.py
+++ b/src/fedservice/appclient/stand_alone_client_entity.py
@@ -66,11 +66,14 @@ class StandAloneClientEntity(ClientEntity):
     def _collect_metadata(self, federation_entity, context):
         _trust_chains = get_verified_trust_chains(self, context.issuer)
         if _trust_chains:
-            save_trust_chains(context, _trust_chains)
             trust_chain = federation_entity.pick_trust_chain(_trust_chains)
-            federation_entity.trust_chain_anchor = trust_chain.anchor
             # _pi = trust_chain.metadata["openid_relying_party"]
             _pi = trust_chain.metadata["openid_provider"]
+            if _pi["issuer"] != context.issuer:
+                # Its keys must not be used for someone else
+                raise ValueError(f"{context.issuer} has the metadata of the issuer {_pi['issuer']}")
+            save_trust_chains(context, _trust_chains)
+            federation_entity.trust_chain_anchor = trust_chain.anchor
             federation_entity.context.trust_chain[_pi["issuer"]] = trust_chain
             context.server_metadata = trust_chain.metadata
             context.provider_info = context.metadata = _pi
-- 
2.43.0


From 9d432786fd6f6277eb9ce06d4b74c1f9f1288075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:45 +0000
Subject: [PATCH 67/79] fix: trust anchors and trust marks that are added to an
 entity are not added to its configuration and other entities

---
 .../entity/function/trust_chain_collector.py      |  3 ++-
 src/fedservice/utils.py                           | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 933f340..2e16bb3 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -84,7 +84,8 @@ class TrustChainCollector(Function):
                  **kwargs
                  ):
         Function.__init__(self, upstream_get)
-        self.trust_anchors = trust_anchors
+        # Anchors added later are not added to the configuration
+        self.trust_anchors = trust_anchors.copy() if isinstance(trust_anchors, dict) else trust_anchors
         self.allowed_delta = allowed_delta
         self.config_cache = ESCache(allowed_delta=allowed_delta)
         self.entity_statement_cache = ESCache(allowed_delta=allowed_delta)
diff --git a/src/fedservice/utils.py b/src/fedservice/utils.py
index 71eb836..45530cf 100644
--- a/src/fedservice/utils.py
+++ b/src/fedservice/utils.py
@@ -33,6 +33,11 @@ def statement_is_expired(item):
     return False
 
 
+def own_list(item):
+    # A list that is added to later must not be shared with the configuration
+    return item.copy() if isinstance(item, list) else item
+
+
 def build_entity_config(entity_id: str,
                         key_config: Optional[dict] = None,
                         authority_hints: Optional[Union[List[str], str, Callable]] = None,
@@ -138,6 +143,9 @@ def make_federation_entity(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        elif isinstance(trust_anchors, dict):
+            # Anchors added later are not added to the configuration
+            trust_anchors = trust_anchors.copy()
 
         for id, jwk in trust_anchors.items():
             fe.keyjar = import_jwks(fe.keyjar, jwk, id)
@@ -156,7 +164,7 @@ def make_federation_entity(entity_id: str,
             fe.server.policy[id] = info
 
     if trust_marks:
-        fe.context.trust_marks = trust_marks
+        fe.context.trust_marks = own_list(trust_marks)
 
     if trust_mark_entity:
         _kwargs = trust_mark_entity.get("kwargs", {})
@@ -230,6 +238,9 @@ def make_federation_combo(entity_id: str,
     if trust_anchors:
         if "class" in trust_anchors and "kwargs" in trust_anchors:
             trust_anchors = execute(trust_anchors)
+        elif isinstance(trust_anchors, dict):
+            # Anchors added later are not added to the configuration
+            trust_anchors = trust_anchors.copy()
 
         for id, jwk in trust_anchors.items():
             federation_entity.keyjar = import_jwks(federation_entity.keyjar, jwk, id)
@@ -251,7 +262,7 @@ def make_federation_combo(entity_id: str,
         if "class" in trust_marks:
             federation_entity.context.trust_marks = execute(trust_marks)
         else:
-            federation_entity.context.trust_marks = trust_marks
+            federation_entity.context.trust_marks = own_list(trust_marks)
 
     if trust_mark_issuers:
         if "class" in trust_mark_issuers:
-- 
2.43.0


From fe6e0bd6d364a94b897640753ed139125d9724b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:45 +0000
Subject: [PATCH 68/79] fix: building an entity does not change the
 configuration it is built from

---
 src/fedservice/appclient/__init__.py |  5 +++--
 src/fedservice/appserver/__init__.py |  3 +--
 src/fedservice/build_entity.py       | 12 +++++++++---
 src/fedservice/combo/__init__.py     | 16 ++++++++++++----
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/appclient/__init__.py b/src/fedservice/appclient/__init__.py
index ee9d2f7..b2c54d7 100644
--- a/src/fedservice/appclient/__init__.py
+++ b/src/fedservice/appclient/__init__.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import re
 from json import JSONDecodeError
@@ -56,8 +57,8 @@ class ClientEntity(ClientUnit):
             client_type: Optional[str] = '',
             entity_type: Optional[str] = ''
     ):
-        if config is None:
-            config = {}
+        # The configuration may be used for others too, hence is not changed
+        config = {} if config is None else copy(config)
 
         self.client_type = config.get('client_type', client_type)
         self.entity_type = config.get("entity_type", entity_type)
diff --git a/src/fedservice/appserver/__init__.py b/src/fedservice/appserver/__init__.py
index 3d3197f..22b0887 100644
--- a/src/fedservice/appserver/__init__.py
+++ b/src/fedservice/appserver/__init__.py
@@ -119,8 +119,7 @@ class ServerEntity(ServerUnit):
                             config=config)
 
         if not isinstance(config, Base):
-            config['issuer'] = entity_id
-            config['base_url'] = entity_id
+            config = {**config, 'issuer': entity_id, 'base_url': entity_id}
             if self.server_type == "oauth2":
                 config = ASConfiguration(config)
             else:
diff --git a/src/fedservice/build_entity.py b/src/fedservice/build_entity.py
index 5ba9cec..c4cbf95 100644
--- a/src/fedservice/build_entity.py
+++ b/src/fedservice/build_entity.py
@@ -13,6 +13,12 @@ KEYDEFS = [
 ]
 
 
+def _own(definitions: dict) -> dict:
+    # The arguments can be changed without changing the definitions that were given.
+    return {key: {**val, "kwargs": dict(val["kwargs"])} if "kwargs" in val else val
+            for key, val in definitions.items()}
+
+
 class FederationEntityBuilder():
 
     def __init__(self,
@@ -37,7 +43,7 @@ class FederationEntityBuilder():
 
         kwargs = {}
         if services:
-            kwargs['services'] = services
+            kwargs['services'] = _own(services)
         else:
             kwargs['services'] = deepcopy(FEDERATION_ENTITY_SERVICES)
 
@@ -67,7 +73,7 @@ class FederationEntityBuilder():
         # endpoints are accessible to services. Accepts requests and returns responses.
         kwargs = {}
         if endpoints:
-            kwargs['endpoint'] = endpoints
+            kwargs['endpoint'] = _own(endpoints)
         else:
             kwargs['endpoint'] = federation_endpoints("entity_configuration", "fetch", "list")
 
@@ -98,7 +104,7 @@ class FederationEntityBuilder():
         # available services.
         kwargs = {}
         if functions:
-            kwargs['functions'] = functions
+            kwargs['functions'] = _own(functions)
         else:
             kwargs['functions'] = deepcopy(DEFAULT_FEDERATION_ENTITY_FUNCTIONS)
 
diff --git a/src/fedservice/combo/__init__.py b/src/fedservice/combo/__init__.py
index 678bb0e..792db7d 100644
--- a/src/fedservice/combo/__init__.py
+++ b/src/fedservice/combo/__init__.py
@@ -1,4 +1,5 @@
 import logging
+from copy import copy
 from typing import Any
 from typing import Optional
 from typing import Union
@@ -36,7 +37,7 @@ class Combo(Unit):
         for key, spec in config.items():
             if isinstance(spec, dict) and 'class' in spec:
                 if httpc_params:
-                    self._add_httpc_params(spec, httpc_params)
+                    spec = self._add_httpc_params(spec, httpc_params)
                 logger.info(f"Initiating entity type: '{key}' with config: {spec}")
                 self._part[key] = execute(spec, upstream_get=self.unit_get,
                                           entity_id=self.entity_id, httpc=httpc,
@@ -46,13 +47,20 @@ class Combo(Unit):
         return config.get("httpc_params")
 
     def _add_httpc_params(self, spec, httpc_params):
-        spec_kwargs = spec.get("kwargs", {})
+        # The configuration may be used for others too, hence is not changed
+        if "kwargs" not in spec:
+            return spec
+
+        spec_kwargs = spec["kwargs"]
         if "config" in spec_kwargs:
             if httpc_params and "httpc_params" not in spec_kwargs["config"]:
-                spec_kwargs["config"]["httpc_params"] = httpc_params
+                _config = copy(spec_kwargs["config"])
+                _config["httpc_params"] = httpc_params
+                spec_kwargs = {**spec_kwargs, "config": _config}
         else:
             if "httpc_params" not in spec_kwargs:
-                spec_kwargs["httpc_params"] = httpc_params
+                spec_kwargs = {**spec_kwargs, "httpc_params": httpc_params}
+        return {**spec, "kwargs": spec_kwargs}
 
     def __getitem__(self, item):
         if item in self._part:
-- 
2.43.0


From 63b2b81495529af60af1621135294fdf594f6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:50 +0000
Subject: [PATCH 69/79] fix: the fetch endpoint of an entity whose cached
 configuration is too old is looked up again

---
 src/fedservice/entity/client/entity_statement.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/entity/client/entity_statement.py b/src/fedservice/entity/client/entity_statement.py
index aecef8a..ff54521 100644
--- a/src/fedservice/entity/client/entity_statement.py
+++ b/src/fedservice/entity/client/entity_statement.py
@@ -76,12 +76,8 @@ class EntityStatement(FederationService):
         if not fetch_endpoint:
             _federation_entity = get_federation_entity(self)
             _collector = _federation_entity.function.trust_chain_collector
-            if issuer in _collector.config_cache:
-                _ec = _collector.config_cache[issuer]
-            else:
-                logger.debug(f"Entity Configuration for '{issuer}' not cached")
-                _ec = _federation_entity.client.do_request("entity_configuration", entity_id=issuer)
-            fetch_endpoint = _ec["metadata"]["federation_entity"][self.endpoint_name]
+            # What is cached may be too old
+            fetch_endpoint = _collector.get_federation_fetch_endpoint(issuer)
             if not fetch_endpoint:
                 raise AttributeError("Missing endpoint")
 
-- 
2.43.0


From 71eb749af56122bcc0f65f1b4040dd895bed6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:58 +0000
Subject: [PATCH 70/79] fix: the trust mark endpoint of a trust anchor is found

---
 src/fedservice/entity/client/trust_mark.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fedservice/entity/client/trust_mark.py b/src/fedservice/entity/client/trust_mark.py
index b202eb7..bc17b78 100644
--- a/src/fedservice/entity/client/trust_mark.py
+++ b/src/fedservice/entity/client/trust_mark.py
@@ -3,6 +3,7 @@ from typing import Optional
 from typing import Union
 
 from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function.trust_anchor import get_verified_endpoint
 
 from fedservice.entity.utils import get_federation_entity
 from idpyoidc.client.configure import Configuration
@@ -58,6 +59,11 @@ class TrustMark(FederationService):
 
     def get_endpoint(self):
         federation_entity = get_federation_entity(self)
+        if federation_entity.client.context.issuer in federation_entity.trust_anchors:
+            # There are no trust chains to a trust anchor
+            return get_verified_endpoint(self, federation_entity.client.context.issuer,
+                                         "federation_trust_mark_endpoint")
+
         trust_chains=federation_entity.get_trust_chains(federation_entity.client.context.issuer)
         if trust_chains:
             pass
-- 
2.43.0


From b9fe2dd44fe9001ee9f99d9253453bb93f98f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:37 +0000
Subject: [PATCH 71/79] fix: walking down a federation ends, and gives nobody
 trust

---
 src/fedservice/entity/__init__.py | 65 ++++++++++++++++---------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1deca6d..d7817fb 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -317,51 +317,54 @@ class FederationEntity(Unit):
                                       request_args=request_args, behaviour_args=behaviour_args,
                                       **kwargs)
 
-    def trawl(self, superior, subordinate, entity_type):
-        if subordinate in self.function.trust_chain_collector.config_cache:
-            _ec = self.function.trust_chain_collector.config_cache[subordinate]
-        else:
-            _es = self.client.do_request("entity_statement", issuer=superior, subject=subordinate)
-
-            # add subjects key/-s to keyjar
-            _kj = self.get_federation_entity().keyjar
-            _kj = import_jwks(_kj, _es["jwks"], _es["sub"])
-
-            # Fetch Entity Configuration
-            _ec = self.client.do_request("entity_configuration", entity_id=subordinate)
-
-        if entity_type in _ec["metadata"]:
-            _issuers = [_ec["sub"]]
+    def trawl(self, superior, subordinate, entity_type, seen=None):
+        if seen is None:
+            seen = {superior}
+        if subordinate in seen:  # Been there
+            return []
+        seen.add(subordinate)
+
+        # What a superior says about keys only counts if there is a trust chain
+        try:
+            _metadata = self.get_verified_metadata(subordinate)
+        except Exception as err:
+            logger.warning(f"Could not find out about {subordinate}: {err}")
+            _metadata = None
+        if not _metadata:
+            return []
+
+        if entity_type in _metadata:
+            _issuers = [subordinate]
         else:
             _issuers = []
 
-        if "federation_list_endpoint" not in _ec["metadata"]["federation_entity"]:
+        if "federation_list_endpoint" not in _metadata.get("federation_entity", {}):
             return _issuers
 
         # One step down the tree
         # All subordinates that are of a specific entity_type
-        _added_issuers = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                entity_type=entity_type)
-        if _added_issuers is None:
-            pass
-        else:
-            _issuers.extend(_added_issuers)
+        _issuers.extend(self.list_subordinates(subordinate, entity_type=entity_type))
 
         # All subordinates that are intermediates
-        _intermediates = self.client.do_request("list",
-                                                entity_id=subordinate,
-                                                intermediate=True)
+        _intermediates = self.list_subordinates(subordinate, intermediate=True)
 
         # For all intermediates go further down the tree
-        if _intermediates:
-            for entity_id in _intermediates:
-                _ids = self.trawl(subordinate, entity_id, entity_type)
-                if _ids:
-                    _issuers.extend(_ids)
+        for entity_id in _intermediates:
+            _issuers.extend(self.trawl(subordinate, entity_id, entity_type, seen))
 
         return _issuers
 
+    def list_subordinates(self, entity_id, **kwargs):
+        try:
+            resp = self.client.do_request("list", entity_id=entity_id, **kwargs)
+        except Exception as err:
+            logger.warning(f"Could not list the subordinates of {entity_id}: {err}")
+            return []
+
+        if not isinstance(resp, list):  # An error message
+            return []
+        return [eid for eid in resp if isinstance(eid, str)]
+
     def verify_trust_mark(self, trust_mark: str, check_with_issuer: Optional[bool] = True):
         _trust_mark_payload = get_payload(trust_mark)
         _tmi_trust_chains = self.get_trust_chains(_trust_mark_payload['iss'])
-- 
2.43.0


From 886eee5f980ec6121c72d21de78284767a27ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 72/79] fix: a server that does not say how requests can be
 authenticated is one that supports nothing

---
 src/fedservice/appclient/oauth2/authorization.py | 3 +++
 src/fedservice/appclient/oidc/authorization.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/fedservice/appclient/oauth2/authorization.py b/src/fedservice/appclient/oauth2/authorization.py
index 82d93e7..db7da25 100644
--- a/src/fedservice/appclient/oauth2/authorization.py
+++ b/src/fedservice/appclient/oauth2/authorization.py
@@ -62,6 +62,9 @@ class Authorization(authorization.Authorization):
 
         _ams = _context.get_metadata_claim('request_authentication_methods_supported', [_entity_type])
 
+        if isinstance(_ams, KeyError):  # That's how a missing claim is reported
+            _ams = None
+
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
         if _ams:
diff --git a/src/fedservice/appclient/oidc/authorization.py b/src/fedservice/appclient/oidc/authorization.py
index c70bafd..06ad81b 100644
--- a/src/fedservice/appclient/oidc/authorization.py
+++ b/src/fedservice/appclient/oidc/authorization.py
@@ -53,6 +53,9 @@ class Authorization(authorization.Authorization):
 
         _auth_meth_supported = _context.get_metadata_claim('request_authentication_methods_supported',
                                            ['openid_provider', 'oauth_authorization_server'])
+        if isinstance(_auth_meth_supported, KeyError):  # That's how a missing claim is reported
+            _auth_meth_supported = None
+
         # what if request_param is already set ??
         # What if request_param in not in client_auth ??
         if _auth_meth_supported:
-- 
2.43.0


From 59a6408dde0dd3072f40d4799743eb8b400dba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:37 +0000
Subject: [PATCH 73/79] fix: a statement with critical policy operators may
 have policies with value or default

---
 src/fedservice/message.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index 2b9dabd..5ac09f0 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -11,7 +11,6 @@ from idpyoidc.message import oauth2 as OAuth2Message
 from idpyoidc.message import OPTIONAL_LIST_OF_STRINGS
 from idpyoidc.message import OPTIONAL_MESSAGE
 from idpyoidc.message import REQUIRED_LIST_OF_STRINGS
-from idpyoidc.message import SINGLE_OPTIONAL_ANY
 from idpyoidc.message import SINGLE_OPTIONAL_INT
 from idpyoidc.message import SINGLE_OPTIONAL_JSON
 from idpyoidc.message import SINGLE_OPTIONAL_STRING
@@ -33,6 +32,8 @@ from fedservice.exception import UnknownCriticalExtension
 from fedservice.exception import WrongSubject
 
 SINGLE_REQUIRED_DICT = (dict, True, msg_ser_json, dict_deser, False)
+# Any JSON value, kept as it is
+SINGLE_OPTIONAL_JSON_VALUE = (object, False, None, None, True)
 
 LOGGER = logging.getLogger(__name__)
 
@@ -322,11 +323,17 @@ class Policy(Message):
         "one_of": OPTIONAL_LIST_OF_STRINGS,
         "superset_of": OPTIONAL_LIST_OF_STRINGS,
         "add": OPTIONAL_LIST_OF_STRINGS,
-        "value": SINGLE_OPTIONAL_ANY,
-        "default": SINGLE_OPTIONAL_ANY,
+        "value": SINGLE_OPTIONAL_JSON_VALUE,
+        "default": SINGLE_OPTIONAL_JSON_VALUE,
         "essential": SINGLE_OPTIONAL_BOOLEAN
     }
 
+    def _add_value(self, skey, vtyp, key, val, _deser, null_allowed, sformat="urlencoded"):
+        if vtyp is object:
+            self._dict[skey] = val
+        else:
+            super()._add_value(skey, vtyp, key, val, _deser, null_allowed, sformat=sformat)
+
     def verify(self, **kwargs):
         _extra_parameters = list(self.extra().keys())
         if _extra_parameters:
-- 
2.43.0


From 16d4ebd87da5c29895ea819b67518b548bfa37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:37 +0000
Subject: [PATCH 74/79] fix: metadata claims that are objects or lists are
 accepted and remain what they are

---
 src/fedservice/message.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index 5ac09f0..2aca4e6 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -1,4 +1,5 @@
 """ Classes and functions used to describe information in an OpenID Connect Federation."""
+import json
 import logging
 
 from cryptojwt.exception import Expired
@@ -35,6 +36,22 @@ SINGLE_REQUIRED_DICT = (dict, True, msg_ser_json, dict_deser, False)
 # Any JSON value, kept as it is
 SINGLE_OPTIONAL_JSON_VALUE = (object, False, None, None, True)
 
+
+def json_object_ser(val, sformat="urlencoded"):
+    """A JSON object remains an object unless there is no place for one."""
+    return val if sformat == "dict" else json.dumps(val)
+
+
+def json_object_deser(val, sformat="urlencoded"):
+    """Deserializes what must be a JSON object."""
+    _obj = json.loads(val) if isinstance(val, str) else val
+    if not isinstance(_obj, dict):
+        raise ValueError(f"Expected a JSON object: {val}")
+    return _obj
+
+
+SINGLE_OPTIONAL_JSON_OBJECT = (dict, False, json_object_ser, json_object_deser, False)
+
 LOGGER = logging.getLogger(__name__)
 
 
@@ -66,7 +83,7 @@ class AuthorizationServerMetadata(Message):
         # below Federation additions
         'client_registration_types_supported': OPTIONAL_LIST_OF_STRINGS,
         'federation_registration_endpoint': SINGLE_OPTIONAL_STRING,
-        'request_authentication_methods_supported': OPTIONAL_LIST_OF_STRINGS,
+        'request_authentication_methods_supported': SINGLE_OPTIONAL_JSON_OBJECT,
         'request_authentication_signing_alg_values_supported': OPTIONAL_LIST_OF_STRINGS,
     }
 
@@ -106,7 +123,7 @@ class FederationEntity(Message):
         "federation_trust_mark_list_endpoint":SINGLE_OPTIONAL_STRING,
         "federation_trust_mark_endpoint": SINGLE_OPTIONAL_STRING,
         "federation_historical_keys_endpoint":SINGLE_OPTIONAL_STRING,
-        "endpoint_auth_signing_alg_values_supported": SINGLE_OPTIONAL_JSON,
+        "endpoint_auth_signing_alg_values_supported": OPTIONAL_LIST_OF_STRINGS,
         "name": SINGLE_OPTIONAL_STRING,
         "contacts": OPTIONAL_LIST_OF_STRINGS,
         "policy_url": SINGLE_OPTIONAL_STRING,
@@ -143,6 +160,7 @@ class OauthClientMetadata(OAuth2Message.OauthClientMetadata):
     """Metadata for an OAuth2 Client."""
     c_param = OAuth2Message.OauthClientMetadata.c_param.copy()
     c_param.update({
+        "jwks": SINGLE_OPTIONAL_JSON_OBJECT,
         "organization_name": SINGLE_OPTIONAL_STRING,
         "signed_jwks_uri": SINGLE_OPTIONAL_STRING,
     })
@@ -244,7 +262,7 @@ class OPMetadata(ProviderConfigurationResponse):
     c_param.update({
         "client_registration_types_supported": REQUIRED_LIST_OF_STRINGS,
         "federation_registration_endpoint": SINGLE_OPTIONAL_STRING,
-        "request_authentication_methods_supported": SINGLE_OPTIONAL_JSON,
+        "request_authentication_methods_supported": SINGLE_OPTIONAL_JSON_OBJECT,
         "request_authentication_signing_alg_values_supported": OPTIONAL_LIST_OF_STRINGS,
         "organization_name": SINGLE_OPTIONAL_STRING,
         "contacts": OPTIONAL_LIST_OF_STRINGS,
@@ -569,11 +587,11 @@ class ProviderConfigurationResponse(message.oidc.ProviderConfigurationResponse):
     c_param.update({
         'client_registration_types_supported': REQUIRED_LIST_OF_STRINGS,
         'federation_registration_endpoint': SINGLE_OPTIONAL_STRING,
-        'request_authentication_methods_supported': SINGLE_OPTIONAL_JSON,
+        'request_authentication_methods_supported': SINGLE_OPTIONAL_JSON_OBJECT,
         'request_authentication_signing_alg_values_supported': OPTIONAL_LIST_OF_STRINGS,
         'organization_name': SINGLE_OPTIONAL_STRING,
         'signed_jwks_uri': SINGLE_OPTIONAL_STRING,
-        'jwks': SINGLE_OPTIONAL_JSON
+        'jwks': SINGLE_OPTIONAL_JSON_OBJECT
     })
 
 
@@ -583,7 +601,7 @@ class RegistrationRequest(message.oidc.RegistrationRequest):
         'client_registration_types': REQUIRED_LIST_OF_STRINGS,
         'organization_name': SINGLE_OPTIONAL_STRING,
         'signed_jwks_uri': SINGLE_OPTIONAL_STRING,
-        'jwks': SINGLE_OPTIONAL_JSON
+        'jwks': SINGLE_OPTIONAL_JSON_OBJECT
     })
 
 
-- 
2.43.0


From 57406b5774249f2ea19b58708fe903356eefd02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:36 +0000
Subject: [PATCH 75/79] fix: members that have to be JSON objects are refused
 when they are something else

---
 src/fedservice/message.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index 2aca4e6..7dcc35e 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -20,19 +20,15 @@ from idpyoidc.message import SINGLE_REQUIRED_STRING
 from idpyoidc.message.oauth2 import ASConfigurationResponse
 from idpyoidc.message.oauth2 import ResponseMessage
 from idpyoidc.message.oidc import deserialize_from_one_of
-from idpyoidc.message.oidc import dict_deser
 from idpyoidc.message.oidc import JsonWebToken
-from idpyoidc.message.oidc import msg_ser_json
 from idpyoidc.message.oidc import ProviderConfigurationResponse
 from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.message.oidc import RegistrationResponse
 from idpyoidc.message.oidc import SINGLE_OPTIONAL_BOOLEAN
-from idpyoidc.message.oidc import SINGLE_OPTIONAL_DICT
 
 from fedservice.exception import UnknownCriticalExtension
 from fedservice.exception import WrongSubject
 
-SINGLE_REQUIRED_DICT = (dict, True, msg_ser_json, dict_deser, False)
 # Any JSON value, kept as it is
 SINGLE_OPTIONAL_JSON_VALUE = (object, False, None, None, True)
 
@@ -50,7 +46,8 @@ def json_object_deser(val, sformat="urlencoded"):
     return _obj
 
 
-SINGLE_OPTIONAL_JSON_OBJECT = (dict, False, json_object_ser, json_object_deser, False)
+SINGLE_REQUIRED_DICT = (dict, True, json_object_ser, json_object_deser, False)
+SINGLE_OPTIONAL_DICT = (dict, False, json_object_ser, json_object_deser, False)
 
 LOGGER = logging.getLogger(__name__)
 
@@ -83,7 +80,7 @@ class AuthorizationServerMetadata(Message):
         # below Federation additions
         'client_registration_types_supported': OPTIONAL_LIST_OF_STRINGS,
         'federation_registration_endpoint': SINGLE_OPTIONAL_STRING,
-        'request_authentication_methods_supported': SINGLE_OPTIONAL_JSON_OBJECT,
+        'request_authentication_methods_supported': SINGLE_OPTIONAL_DICT,
         'request_authentication_signing_alg_values_supported': OPTIONAL_LIST_OF_STRINGS,
     }
 
@@ -160,7 +157,7 @@ class OauthClientMetadata(OAuth2Message.OauthClientMetadata):
     """Metadata for an OAuth2 Client."""
     c_param = OAuth2Message.OauthClientMetadata.c_param.copy()
     c_param.update({
-        "jwks": SINGLE_OPTIONAL_JSON_OBJECT,
+        "jwks": SINGLE_OPTIONAL_DICT,
         "organization_name": SINGLE_OPTIONAL_STRING,
         "signed_jwks_uri": SINGLE_OPTIONAL_STRING,
     })
@@ -262,7 +259,7 @@ class OPMetadata(ProviderConfigurationResponse):
     c_param.update({
         "client_registration_types_supported": REQUIRED_LIST_OF_STRINGS,
         "federation_registration_endpoint": SINGLE_OPTIONAL_STRING,
-        "request_authentication_methods_supported": SINGLE_OPTIONAL_JSON_OBJECT,
+        "request_authentication_methods_supported": SINGLE_OPTIONAL_DICT,
         "request_authentication_signing_alg_values_supported": OPTIONAL_LIST_OF_STRINGS,
         "organization_name": SINGLE_OPTIONAL_STRING,
         "contacts": OPTIONAL_LIST_OF_STRINGS,
@@ -587,11 +584,11 @@ class ProviderConfigurationResponse(message.oidc.ProviderConfigurationResponse):
     c_param.update({
         'client_registration_types_supported': REQUIRED_LIST_OF_STRINGS,
         'federation_registration_endpoint': SINGLE_OPTIONAL_STRING,
-        'request_authentication_methods_supported': SINGLE_OPTIONAL_JSON_OBJECT,
+        'request_authentication_methods_supported': SINGLE_OPTIONAL_DICT,
         'request_authentication_signing_alg_values_supported': OPTIONAL_LIST_OF_STRINGS,
         'organization_name': SINGLE_OPTIONAL_STRING,
         'signed_jwks_uri': SINGLE_OPTIONAL_STRING,
-        'jwks': SINGLE_OPTIONAL_JSON_OBJECT
+        'jwks': SINGLE_OPTIONAL_DICT
     })
 
 
@@ -601,7 +598,7 @@ class RegistrationRequest(message.oidc.RegistrationRequest):
         'client_registration_types': REQUIRED_LIST_OF_STRINGS,
         'organization_name': SINGLE_OPTIONAL_STRING,
         'signed_jwks_uri': SINGLE_OPTIONAL_STRING,
-        'jwks': SINGLE_OPTIONAL_JSON_OBJECT
+        'jwks': SINGLE_OPTIONAL_DICT
     })
 
 
-- 
2.43.0


From c0c6079dc946a898968120981a305ab39c5643d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:59 +0000
Subject: [PATCH 76/79] fix: an entity that becomes a trust anchor has the keys
 it is given then and no others

---
 src/fedservice/entity/__init__.py                       | 3 +++
 src/fedservice/entity/function/trust_chain_collector.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index d7817fb..a4cba21 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -413,6 +413,9 @@ class FederationEntity(Unit):
         else:
             raise ValueError("Missing keyjar")
 
+        if entity_id != self.entity_id and entity_id in _keyjar:
+            # What others have said about it before doesn't count
+            del _keyjar[entity_id]
         _keyjar = import_jwks(_keyjar, jwks, entity_id)
         self.trust_anchors[entity_id] = jwks
 
diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 2e16bb3..f73b668 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -418,6 +418,10 @@ class TrustChainCollector(Function):
         else:
             raise ValueError("Missing keyjar")
 
+        _federation_entity = get_federation_entity(self)
+        if entity_id != getattr(_federation_entity, "entity_id", None) and entity_id in _keyjar:
+            # What others have said about it before doesn't count
+            del _keyjar[entity_id]
         _keyjar = import_jwks(_keyjar, jwks, entity_id)
         self.trust_anchors[entity_id] = jwks
 
-- 
2.43.0


From 31a708bcb7146b9a131feb79471dba829fc1ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:00 +0000
Subject: [PATCH 77/79] fix: an entity that is down or answers nonsense does
 not hide its tenants

---
 .../entity/function/trust_chain_collector.py  | 37 +++++++------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index f73b668..aa615b1 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -1,6 +1,5 @@
 import logging
 import time
-from ssl import SSLError
 from typing import Callable
 from typing import List
 from typing import Optional
@@ -57,8 +56,8 @@ def about_someone_else(signed_jwt, entity_id):
     # An entity and its tenants share the host, so one may publish where the other one is looked for
     try:
         return unverified_entity_statement(signed_jwt).get("sub") != entity_id
-    except Exception:  # Not even an entity statement. Is dealt with when it's verified
-        return False
+    except Exception:  # Not even an entity statement
+        return True
 
 
 def get_endpoint(endpoint_type, config):
@@ -154,28 +153,20 @@ class TrustChainCollector(Function):
             self_signed_config = self.get_document(_res['url'])
             if about_someone_else(self_signed_config, entity_id):
                 raise MissingPage(f"Not about {entity_id}: '{_res['url']}'")
-        except MissingPage:  # if tenant involved
+        except Exception as err:
             _tres = _serv.get_request_parameters(request_args={"entity_id": entity_id}, tenant=True)
+            if _tres["url"] == _res["url"]:  # no tenant involved
+                logger.error(err)
+                raise
+            # An entity that is down, or answers nonsense, should not hide its tenants
             logger.debug(f"Get configuration from (tenant): '{entity_id}'")
-            if _tres["url"] != _res["url"]:
-                # if self.use_ssc:
-                #     self_signed_config = self.do_ssc_seq(_tenant_url, entity_id)
-                # else:
-                self_signed_config = self.get_document(_tres["url"])
-                if about_someone_else(self_signed_config, entity_id):
-                    raise MissingPage(f"Not about {entity_id}: '{_tres['url']}'")
-                logger.debug(f'Self signed statement: {self_signed_config}')
-            else:
-                raise MissingPage(f"No such page: '{_tres['url']}'")
-        except SSLError as err:
-            logger.error(err)
-            raise
-        except ConnectionError as err:
-            logger.error(err)
-            raise
-        except Exception as err:
-            logger.exception(err)
-            raise
+            # if self.use_ssc:
+            #     self_signed_config = self.do_ssc_seq(_tenant_url, entity_id)
+            # else:
+            self_signed_config = self.get_document(_tres["url"])
+            if about_someone_else(self_signed_config, entity_id):
+                raise MissingPage(f"Not about {entity_id}: '{_tres['url']}'")
+            logger.debug(f'Self signed statement: {self_signed_config}')
 
         return self_signed_config
 
-- 
2.43.0


From a6df8558545f7f2d8cb5d046a33d8c1fb8de75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:02 +0000
Subject: [PATCH 78/79] fix: what a trust anchor says about trust marks has to
 be signed with the keys it is known by

---
 .../entity/function/trust_chain_collector.py          | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index aa615b1..94e8c02 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -182,6 +182,17 @@ class TrustChainCollector(Function):
             _ec = self.config_cache[entity_id]
             if _ec is None:  # Too short-lived to be cached
                 _ec = verify_self_signed_signature(_signed_ec)
+                _ec["_jws"] = _signed_ec
+
+        if entity_id in self.trust_anchors:
+            # It's the keys it is known by, and not those it claims to have, that count
+            _keyjar = import_jwks(KeyJar(), self.trust_anchors[entity_id], entity_id)
+            try:
+                JWT(key_jar=_keyjar).unpack(_ec["_jws"])
+            except Exception:
+                if self.config_cache.get(entity_id) is not None:
+                    del self.config_cache[entity_id]
+                raise
 
         return _ec['metadata']
 
-- 
2.43.0


From 33b02b8ccfdaca31a99d199413273d1ad23b2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:31 +0000
Subject: [PATCH 79/79] fix: the keys of a trust anchor are those configured,
 whatever its own entity configuration lists

---
 src/fedservice/entity/function/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6976165..d5d8c01 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -104,8 +104,8 @@ class TrustChainVerifier(Function):
                     if len(ves) != n:
                         raise ValueError('Missing signing JWKS')
                 else:
-                    if self.is_anchor(res['sub']) and (_linked or res['iss'] != res['sub']):
-                        # No one else can vouch for keys of a trust anchor
+                    if self.is_anchor(res['sub']):
+                        # What keys a trust anchor has is a matter of configuration
                         ves.append(res)
                         continue
                     # KeyBundle modifies the key descriptions it is given
-- 
2.43.0

