TECH = "property-based testing (Hypothesis): "

prop("C01", "Only unbroken, validly signed, unexpired chains from a known anchor verify",
     "A list of statements is accepted as a trust chain exactly when the first is issued by a configured trust "
     "anchor and signed with one of that anchor's keys, every following statement is issued by the subject of the "
     "previous one and signed with a key the previous one lists for it, the last is the leaf's own configuration, "
     "and nothing has expired. An accepted chain reports the right anchor, issuer path, statements and earliest "
     "expiry. In a batch each chain is judged on its own: a bad one neither hides nor helps the others.",
     ["inputs"], "For every list of up to 6 statements over a set of entities, honest or altered in any single or "
     "combined way (other signer, other keys, re-targeted, dropped, swapped, duplicated, expired, tampered, not a "
     "JWT), and every batch of such lists.",
     "The tests verify two honest chains; whether some other arrangement of statements is accepted depends on every "
     "link, key and time at once.",
     ["entity/function/verifier.py", "entity/function/__init__.py", "entity_statement/statement.py"],
     [{"name": "TrustChainVerifier.verify_trust_chain", "where": "entity/function/verifier.py"},
      {"name": "verify_trust_chains", "where": "entity/function/__init__.py"}],
     TECH + "generated statement lists, hand-signed, judged against an independent reference verifier",
     "Paper federations with keys outside the code under test; mutations per chain plus batches.")

prop("C02", "Chains processed before never change what is accepted later",
     "Whether a trust chain is accepted depends only on that chain, the configured trust anchors and the time, not on "
     "which chains or entity configurations, genuine or hostile, were processed before it. In particular nobody but "
     "configuration can add keys for a trust anchor, an entity seen earlier never becomes a trust anchor by itself, and one that is "
     "made a trust anchor has the keys given then and no others.",
     ["histories"], "For every sequence of verifications and network collections, hostile chains included, "
     "also with trust anchors added on the way, compared with a fresh evaluator.",
     "Tests use a new evaluator per case; key poisoning needs a particular earlier chain.",
     ["entity/function/verifier.py", "entity/function/trust_chain_collector.py"],
     [{"name": "linked keys only, no keys learnt for anchors", "where": "entity/function/verifier.py"}],
     TECH + "generated histories of chains; each verdict compared with a fresh evaluator and a reference verifier",
     "Histories up to 6 chains, also through the network collector.")

prop("C03", "Collection finds every published authority path, terminates, survives failures",
     "For any graph of published authority hints, collecting trust chains for an entity terminates and yields every "
     "loop-free path of authorities up to an entity without further authorities (or the given stopping point), and no "
     "chain that the published statements do not form. An authority that is unreachable or answers nonsense costs only "
     "the paths through it. Repeating the collection gives the same paths.",
     ["inputs", "fault_sequences"], "For every hint graph of up to 7 entities, including loops and shared authorities, "
     "with any subset of authorities failing in any of 6 ways, also those that share a host with another (tenants).",
     "The tests have two fixed trees and no failing authority.",
     ["entity/function/trust_chain_collector.py", "entity/function/__init__.py"],
     [{"name": "TrustChainCollector.collect_tree / collect_intermediate", "where": "entity/function/trust_chain_collector.py"},
      {"name": "tree2chains", "where": "entity/function/__init__.py"}],
     TECH + "generated federation graphs served over a virtual network, compared with a graph model",
     "Failing authorities: 404, 500, connection error, garbage, HTML, empty body.")

prop("C04", "Constraints set by any superior bind everything below it in the chain",
     "A chain in which any statement carries a maximum path length is accepted only if no more intermediates than that "
     "stand between its issuer and the leaf, and one in which any statement carries naming constraints only if every "
     "entity below matches one of the permitted names and none of the excluded names of every such statement. A "
     "subordinate can never relax what a superior demanded, and chains that meet all constraints are accepted.",
     ["inputs"], "For every chain of up to 7 entities with any placement of path-length and naming constraints "
     "(hosts, domains, URIs with ports and paths).",
     "The tests sample single constraints at a single level.",
     ["entity_statement/constraints.py"],
     [{"name": "meets_restrictions", "where": "entity_statement/constraints.py"}],
     TECH + "generated chains with constraints against a reference evaluation, directly and through signed chains",
     "Effect of a host constraint on its subdomains is left open.")

prop("C05", "Combining metadata policies along a chain can only restrict",
     "Whatever policies a subordinate adds for a metadata parameter, metadata that passes the combined policy also "
     "conforms to the policy of each single statement (fixed value, allowed values, subset, superset, added values, "
     "essential). Policies that contradict each other (different fixed values or defaults, disjoint allowed values or "
     "subsets, essential withdrawn) are refused with an error, compatible ones combine, and parameters, entity types "
     "and statements without policy do not affect one another.",
     ["inputs"], "For every sequence of 2-4 policies for a parameter, and every metadata value of a 20-value universe.",
     "The tests enumerate fixed pairs of policies; the guarantee is about all sequences and all metadata.",
     ["entity/function/policy.py", "entity/function/policy_operator.py"],
     [{"name": "combine_claim_policy, gather_policies", "where": "entity/function/policy.py"}],
     TECH + "generated policy sequences, each combination applied to a whole universe of values and compared with "
     "per-statement conformance and a reference combination",
     "One known finding: two superset lists are intersected (enshrined by a test).")

prop("C06", "Applying a policy yields exactly the conformant metadata or an error",
     "Applying a metadata policy to metadata sets fixed values, adds added values, fills defaults only where the "
     "parameter is absent, keeps only allowed subset values, and fails with a policy error when a demand (one of, "
     "subset, superset, essential) can not be met. Parameters without policy pass through unchanged, metadata set by a "
     "superior wins over the entity's own, applying twice changes nothing more, and neither metadata nor policy given is modified.",
     ["inputs"], "For every metadata with up to 4 parameters (single- and list-valued), any consistent policy and "
     "superior metadata.",
     "The tests apply a handful of fixed policies.",
     ["entity/function/policy.py", "entity/function/policy_operator.py"],
     [{"name": "TrustChainPolicy.apply_policy, apply_metadata_policy", "where": "entity/function/policy.py"},
      {"name": "the policy operators and their order", "where": "entity/function/policy_operator.py"}],
     TECH + "generated metadata and policies against a reference application model, plus idempotence and non-mutation",
     "")

prop("C07", "Resolved metadata is what the superiors' signed statements allow",
     "For every trust chain of an entity, the metadata resolved per entity type equals the leaf's own metadata with the "
     "metadata and policies of all superior statements applied, and conforms to each of them; policies or metadata in "
     "the authorities' own self-signed configurations play no part. Contradictory or unmet policies refuse only that "
     "chain, the others still resolve, and the verified statements stay as they were signed.",
     ["inputs", "configurations"], "For every federation with up to two authority paths of up to 4 statements and any "
     "placement of policies and metadata for two entity types.",
     "The tests check one federation with fixed policies.",
     ["entity/function/policy.py", "entity/function/__init__.py"],
     [{"name": "TrustChainPolicy.__call__, gather_policies", "where": "entity/function/policy.py"},
      {"name": "apply_policies, get_verified_trust_chains", "where": "entity/function/__init__.py"}],
     TECH + "generated federations resolved through the virtual network, against a reference model",
     "")

prop("C08", "Cached statements are never used past their lifetime and refreshed in time",
     "Over any history of time passing, authorities vouching for or revoking entities and entities changing keys, "
     "superiors and metadata, resolving never uses an expired statement or one that nobody issued, finds every path that is "
     "currently published, and stops using a revoked path once its last statement has expired. A statement that is "
     "good for a while yet is reused instead of being fetched again.",
     ["histories"], "For every history of collections, waiting times, changes of keys, metadata, endpoints and hints, outages of all or one, and restarts from saved caches.",
     "Tests never let time pass.",
     ["entity/function/trust_chain_collector.py", "entity_statement/cache.py"],
     [{"name": "too_old, config_cache, entity_statement_cache", "where": "entity/function/trust_chain_collector.py"}],
     TECH + "model-based histories with a virtual clock and a virtual network",
     "")

prop("C09", "Created entity statements say exactly what was asked, and nothing private",
     "An entity statement created by an entity is signed with one of its own keys, names it as issuer and the given "
     "subject, is valid from now for exactly the requested (or configured) lifetime, and contains exactly the metadata, "
     "policies, constraints, authority hints, trust marks and other claims asked for, falling back on the entity's "
     "configured hints and trust marks in whatever form those are configured. The subject's public keys are included "
     "and no private or symmetric key material is; what was passed in, the key jar and later statements are unaffected.",
     ["inputs", "configurations"], "For every combination of arguments, key sets, forms of configuration (also saved and read "
     "again) and sequence of statements.",
     "The tests look at single members of a few statements.",
     ["entity_statement/create.py", "entity/context.py"],
     [{"name": "create_entity_statement", "where": "entity_statement/create.py"},
      {"name": "FederationContext.create_entity_statement", "where": "entity/context.py"}],
     TECH + "generated arguments and configurations; the decoded, independently verified statement is compared with the request",
     "")

prop("C10", "The published entity configuration is as configured and free of secrets",
     "At every moment the entity configuration endpoint answers with a statement of the entity about itself that "
     "verifies with the public keys it contains, names the authorities and trust marks configured at that moment (given "
     "as list, file or function), lists exactly the federation endpoints the entity runs and the configured "
     "preferences, has one metadata section per role the entity plays with that role's keys, redirect URIs and "
     "endpoints, and contains no private key, symmetric key or client secret. Other entities retrieve and accept it.",
     ["configurations", "histories"], "For every combination of roles, endpoints, keys, preferences, forms of "
     "configuration, and changes of the configuration over time.",
     "The tests look at a few fixed entities; that no secret leaks and nothing is left out concerns every configuration.",
     ["entity/server/entity_configuration.py", "entity/__init__.py", "combo/__init__.py", "appclient/__init__.py",
      "appserver/__init__.py", "utils.py"],
     [{"name": "EntityConfiguration.process_request", "where": "entity/server/entity_configuration.py"},
      {"name": "make_federation_entity, make_federation_combo", "where": "utils.py"},
      {"name": "get_metadata of FederationCombo, ClientEntity, ServerEntity, FederationEntity", "where": "combo/__init__.py"}],
     TECH + "generated configurations and histories of changes, served over a virtual network and compared with the configuration",
     "Values the underlying OIDC library chooses itself (response types, algorithms) are left open.")

prop("C11", "Fetch issues statements on registered subordinates only, in the issuer's name",
     "Over any history of subordinates being registered, changed and removed and policies being set for subordinates or "
     "entity types, a fetch request gets a signed statement about the requested subordinate with exactly the keys, "
     "constraints, hints, metadata and policies registered and configured at that moment (what is configured where both "
     "speak of one entity type, policies of the entity's types only when it has none of its own). Requests for another issuer or an unknown subject get an error and never a "
     "statement, without subject the entity describes itself, and serving changes neither registrations nor policies.",
     ["histories", "inputs"], "For every history of up to 16 registrations, policy changes and requests, with the "
     "registrations held in memory or in files.",
     "The tests fetch one statement from a fixed registration.",
     ["entity/server/fetch.py"],
     [{"name": "Fetch.process_request", "where": "entity/server/fetch.py"}],
     TECH + "model-based histories of registrations and requests over a virtual network",
     "")

prop("C12", "List names exactly the subordinates that match every filter",
     "The list endpoint answers with exactly the registered subordinates that match every filter given (entity type, "
     "intermediate, trust marked, a trust mark id), judging entity type and intermediate by the registration and trust "
     "marks by the subordinate's configuration as published then and verified with the registered keys. A subordinate "
     "whose configuration is unavailable, expired, not its own or wrongly signed matches no trust mark filter and never "
     "disturbs the others; listing changes nothing.",
     ["inputs", "fault_sequences"], "For every set of up to 4 subordinates, every combination of filters and any failure "
     "of the subordinates.",
     "The tests list one fixed federation in which everything answers.",
     ["entity/server/list.py"],
     [{"name": "List.process_request, filter, collect_subordinates", "where": "entity/server/list.py"}],
     TECH + "generated registrations, failures and filters against a set model",
     "")

prop("C13", "A resolve response is backed by a valid chain and outlives no part of it",
     "Over any history of time passing and outages, the resolve endpoint answers with a statement signed by the "
     "resolver whose metadata is what applying the policies of one currently valid trust chain from the subject to the "
     "requested anchor gives, restricted to the requested type, together with that chain, whose every link verifies, and "
     "valid no longer than the chain. An unknown anchor or subject, no valid chain or no such type gives an error, never "
     "a signed response; a reachable subject with a valid chain is always answered.",
     ["histories", "configurations", "fault_sequences"], "For every federation over 5 entities, policies, lifetimes, outages and up to 9 "
     "requests.",
     "The tests resolve one entity in one federation, once.",
     ["entity/server/resolve.py", "entity/function/__init__.py"],
     [{"name": "Resolve.process_request", "where": "entity/server/resolve.py"}],
     TECH + "generated federations and histories of requests over a virtual network, against a resolution model",
     "")

prop("C14", "Trust mark databases answer like the list of everything added to them",
     "Over any history of additions, expiry, dumps, loads and reopening, both trust mark databases find a mark for an "
     "identifier and subject exactly if the one issued last (or the one issued at the time asked for) was added and has "
     "not expired, and list exactly the subjects with such a mark, each once, whatever else is stored; unknown "
     "identifiers and subjects have no marks. Loading a dump gives a database that answers the same and lives on its own.",
     ["histories", "inputs"], "For every history of up to 25 operations and any subjects, times and extra claims.",
     "The test adds one mark to one database and finds it.",
     ["trust_mark_entity/__init__.py"],
     [{"name": "FileDB, SimpleDB", "where": "trust_mark_entity/__init__.py"}],
     TECH + "model-based histories of operations against a list model", "")

prop("C15", "Trust mark issuers issue what is specified and tell the truth about it",
     "Over any history, a trust mark issuer signs marks with exactly the specified content, the configured lifetime, "
     "the subject and the present time, none for unknown identifiers, and never changes its specification. The status "
     "endpoint says active exactly for marks this issuer has issued that have not expired, whether asked with the mark "
     "itself or by identifier, subject and issue time: never for forged, altered, foreign or unrecorded ones; the list "
     "endpoint names exactly the subjects with active marks; self-signed marks are published by the entity that made them only.",
     ["histories", "inputs"], "For every history of up to 20 issuings, waits, restarts and requests with genuine and forged marks.",
     "The tests issue one mark and ask about that one.",
     ["trust_mark_entity/entity.py", "trust_mark_entity/server/trust_mark.py", "trust_mark_entity/server/trust_mark_list.py",
      "trust_mark_entity/server/trust_mark_status.py"],
     [{"name": "TrustMarkEntity, SelfSignedTrustMarkEntity", "where": "trust_mark_entity/entity.py"},
      {"name": "TrustMarkStatus.process_request", "where": "trust_mark_entity/server/trust_mark_status.py"},
      {"name": "TrustMarkList.process_request", "where": "trust_mark_entity/server/trust_mark_list.py"}],
     TECH + "model-based histories over a virtual network with forged tokens", "")

prop("C16", "A trust mark is accepted only if the federation asked about stands behind it",
     "A trust mark verifies only if it is complete, unexpired and signed with a key of its issuer that an unexpired "
     "trust chain from the issuer to the very trust anchor asked about vouches for, and, when it contains a delegation, "
     "that is an unexpired one for this mark and issuer by the owner the anchor names, with the issuer among the issuers "
     "the anchor lists. When the issuer is asked, it must say active; genuine marks of members are accepted, anything "
     "else (other members' or former keys, altered or unsigned marks, keys in headers, other federations) is refused.",
     ["histories", "inputs", "fault_sequences"], "For every federation with up to two anchors, history of key rollover, "
     "leaving, expiry and up to 14 verifications of genuine and forged marks.",
     "The tests verify genuine marks only.",
     ["entity/function/trust_mark_verifier.py", "entity/__init__.py"],
     [{"name": "TrustMarkVerifier.__call__, verify_delegation", "where": "entity/function/trust_mark_verifier.py"},
      {"name": "FederationEntity.verify_trust_mark", "where": "entity/__init__.py"}],
     TECH + "generated histories with genuine and forged trust marks, judged by what was published and served", "")

prop("C18", "Explicit registration registers exactly what a valid trust chain results in",
     "An explicit registration request registers a client only if it is an entity configuration issued and signed by "
     "the client itself, with the keys an unexpired trust chain from the client to a trusted anchor "
     "vouches for. The client then gets the metadata the policies of one such chain result in, with its published keys, and the signed "
     "response says just that, for the client and the anchor; any other request is refused and changes no "
     "registration. A reachable client with a valid chain is registered.",
     ["histories", "inputs", "fault_sequences"], "For every federation over 6 entities with policies and lifetimes, and every history of up to 6 "
     "requests, genuine or forged, outages and time passing, for OpenID providers and OAuth2 servers.",
     "The tests register one client in one fixed federation, with a genuine request.",
     ["appserver/oidc/registration.py", "appserver/oauth2/registration.py", "entity/function/__init__.py"],
     [{"name": "Registration.process_request", "where": "appserver/oidc/registration.py"},
      {"name": "Registration.process_request", "where": "appserver/oauth2/registration.py"}],
     TECH + "generated federations and histories of genuine and forged requests, judged by a resolution model", "")

prop("C19", "Automatic registration admits only clients with a currently valid trust chain",
     "An authorization or pushed authorization request from a client not registered otherwise is accepted only if, at "
     "that time, an unexpired trust chain (collected, or provided and about that very client) leads from it to a trusted anchor, and the "
     "client is registered with the metadata the policies of one such chain result in; a registration does not "
     "outlive its chain; requests of unknown, expired or foreign entities, with a redirect_uri outside the resulting "
     "metadata or a request object not signed by the client, are refused, a reachable client with a valid chain is admitted.",
     ["histories", "inputs", "fault_sequences"], "For every federation over 6 entities with policies and lifetimes, and every history of up to 6 "
     "requests, forged trust chains and request objects, outages and time passing, for three kinds of requests.",
     "The tests admit one client once, in one fixed federation.",
     ["appserver/oidc/authorization.py", "appserver/oauth2/authorization.py", "appserver/oauth2/pushed_authorization.py",
      "entity/function/__init__.py"],
     [{"name": "Authorization.do_automatic_registration, find_client_keys", "where": "appserver/oidc/authorization.py"},
      {"name": "verify_provided_trust_chain", "where": "entity/function/__init__.py"}],
     TECH + "generated federations and histories of requests, judged by a resolution model", "")

prop("C20", "A client uses a registration response only if its federation stands behind it",
     "A client uses an explicit registration response only if it is about the client, unexpired and signed with keys "
     "that a valid trust chain from the responder to the trust anchor named in it, one the client trusts, vouches for, "
     "and the client itself has a valid chain to that anchor; what it then uses is the response after the policies of "
     "one such chain. Other responses (forged, altered, re-targeted, expired, signed with a superior's or the "
     "client's own keys) are refused and nothing of them is remembered; genuine ones are accepted however many paths there are.",
     ["histories", "inputs", "fault_sequences"], "For every federation over 7 entities with policies and lifetimes, and every history of up to 6 "
     "responses, genuine or forged, outages and time passing, for OpenID and OAuth2 clients.",
     "The tests parse one genuine response in one fixed federation.",
     ["appclient/oidc/registration.py", "appclient/oauth2/registration.py", "entity/function/__init__.py"],
     [{"name": "Registration.parse_federation_registration_response", "where": "appclient/oidc/registration.py"},
      {"name": "verify_issuer_signature", "where": "entity/function/__init__.py"}],
     TECH + "generated federations and histories of genuine and forged responses, judged by what was published", "")

prop("C17", "What is critical but not understood, incomplete or malformed is refused",
     "An entity statement that contains a claim, or a metadata policy operator, which it says is critical and which the "
     "evaluator does not know is refused, as a message and in every trust chain, and what it does not contain or does "
     "not call critical changes nothing. A message (entity statement, trust mark, request or response, metadata) that "
     "lacks a required member, contradicts itself or has members of the wrong type is refused, as is a trust mark for "
     "another subject, expired or issued in the future. Every well-formed message is accepted and survives being "
     "written and read as JSON, JWT or query string unchanged.",
     ["inputs"], "For every statement with any set of extension claims, policy operators and critical lists at any "
     "place of a chain of up to 6, every set of known extensions, and messages of 25 classes with any subset of "
     "members, one missing or of another type; metadata of 7 entity types with any of the claims of the specifications.",
     "Five tests try one extension name on a single message; no test has a critical extension in a chain.",
     ["message.py", "entity/function/verifier.py"],
     [{"name": "EntityStatement.verify, Policy.verify, verify_critical, TrustMark.verify", "where": "message.py"},
      {"name": "verify_trust_chain", "where": "entity/function/verifier.py"}],
     TECH + "generated statements, chains and messages against a reference rule, differential against the chain "
     "without extensions, and serialisation round trips",
     "A critical claim of unusual form (empty list, string) is not judged.")

prop("C27", "Rubbish published by one member costs only the paths through it",
     "Whatever an authority publishes or answers (claims missing or of any type, unreadable policies and constraints, "
     "payloads that are no objects, unsigned or wrongly signed statements, statements about others, endless authority "
     "hints, HTTP errors), every path of an entity that does not go through it is found with the metadata its "
     "statements result in. The same holds for entities looked up afterwards, and as soon as the authority publishes "
     "proper statements, and no earlier statement with a lifetime of its own can still be in use, its paths are found "
     "again.",
     ["inputs", "fault_sequences", "histories"], "For 5 federation shapes, one or two members publishing rubbish of "
     "12 kinds (20 odd values for 14 claims, 35 deeper ones) in their configuration or one statement, before and after "
     "caches are filled, and the time after.",
     "In the tests every member is well-behaved.",
     ["entity/function/trust_chain_collector.py", "entity/function/verifier.py", "entity/function/policy.py",
      "entity/function/__init__.py", "entity_statement/constraints.py"],
     [{"name": "failures are caught per authority", "where": "entity/function/trust_chain_collector.py"},
      {"name": "failures are caught per chain", "where": "entity/function/__init__.py"}],
     TECH + "generated federations with a misbehaving member on the virtual network, against the paths of the graph",
     "Up to 6 entities; whether the paths through the misbehaving member are found is left open.")

prop("C21", "Client and server get through registration, authorization and token",
     "A client below an anchor that the server trusts, with metadata that the policies above it allow, succeeds with explicit "
     "registration (when the server can be found below the anchor chosen), with an authorization request built by its own "
     "authorization service as URL or pushed to the PAR endpoint, and with the response and the code that follow; it and the server "
     "agree about client_id, secret and registered metadata, the server gets the parameters unaltered and knows the client by its "
     "entity ID (automatic) or the one it was given (explicit). The request object is signed by the client, issued by that client_id, "
     "short-lived and says what the URL says; a client that no chain allows never gets registered or answered. The stand-alone client does all of this, "
     "keeps its sessions apart, forgets the one it is told to, holds valid exactly the tokens it got and that have not expired, and uses no provider whose metadata names another issuer.",
     ["inputs", "histories"], "For 7 positions of each of 2 clients and 4 of the server in a federation with 2 anchors and 2 intermediates, "
     "10 policies at any level, any sequence of registrations, requests and time passing, any values of the parameters, and the response types and modes the framework has.",
     "The tests go through one such flow with one federation and one client.",
     ["appclient/oidc/authorization.py", "appclient/oauth2/authorization.py", "appclient/oidc/registration.py", "appclient/oauth2/registration.py",
      "appserver/oidc/authorization.py", "appserver/oauth2/authorization.py", "appserver/oauth2/pushed_authorization.py",
      "appserver/oidc/registration.py", "appserver/oauth2/registration.py", "appclient/stand_alone_client_entity.py"],
     [{"name": "Authorization._automatic_registration, create_request", "where": "appclient/oidc/authorization.py, appclient/oauth2/authorization.py"},
      {"name": "client_registration_setup", "where": "appserver/__init__.py"}],
     TECH + "generated federations and histories, real client against real server over a virtual network; the policy model and the request "
     "log are the reference",
     "Token requests use private_key_jwt (automatic) or client_secret_post (explicit). The audience of a request object is left open.")

prop("C22", "The trust chain used is the one to the trust anchor of highest priority",
     "Of several verified trust chains, new or remembered, the one used is to the trust anchor that comes first in the configured "
     "priority, a shortest one where chains to one anchor are compared, and what follows from it (metadata registered, trust anchor named in the response) "
     "comes from that chain and no other. What is remembered of an entity is one chain per trust anchor, the newest, and never "
     "one of another entity or anchor. Exporting, reading or choosing a chain does not change it, nor does saving and loading it.",
     ["inputs", "histories"], "For every priority (also with anchors nobody has chains to), any chains to 4 anchors, any order of remembering and choosing; "
     "and for servers that know 2 to 4 anchors and clients with any paths to them, some refused, registering explicitly, by an authorization request or a pushed one.",
     "In the tests there is one trust anchor.",
     ["__init__.py", "entity/__init__.py", "entity_statement/statement.py", "appclient/stand_alone_client_entity.py", "appserver/oidc/registration.py",
      "appserver/oauth2/registration.py"],
     [{"name": "FederationEntity.pick_trust_chain, pick_from_stored_trust_chains", "where": "entity/__init__.py"},
      {"name": "save_trust_chains, get_trust_chain, chains2dict", "where": "__init__.py, entity_statement/statement.py"}],
     TECH + "generated sequences of remembering and choosing against a reference model; generated federations with several anchors "
     "and a real server over a virtual network",
     "Between chains of one length to one anchor, and anchors not in the priority, the choice is left open.")

prop("C23", "Signatures are judged by the keys the verified metadata states or points at",
     "A request object or client assertion in a client's name (registered automatically, by a pushed request or explicitly), and an ID token in a provider's, "
     "is accepted when it is signed with a key that the metadata resulting from the verified trust chain states in `jwks`, or that is served at its `jwks_uri`: "
     "also after the key there was replaced, and after it could not be reached for a while. It is never accepted with, and no key is ever held for anybody that is, "
     "a key of somebody else, one that only metadata from before the policies points at, one from an unverified signed_jwks_uri, or an attacker's.",
     ["histories", "inputs", "faults"], "For 2 clients or providers with `jwks`, `jwks_uri`, both, `signed_jwks_uri` or nothing, policies on them at any level, keys that have one "
     "and the same key ID, and any history of requests, registrations, changed metadata, replaced keys, outages and time.",
     "All clients and providers in the tests have `jwks`, and keys never change.",
     ["appserver/__init__.py", "entity/utils.py", "appserver/oidc/authorization.py", "appserver/oauth2/authorization.py", "appserver/oauth2/pushed_authorization.py",
      "appserver/oauth2/registration.py", "appclient/stand_alone_client_entity.py"],
     [{"name": "import_client_keys, get_keys", "where": "appserver/__init__.py, entity/utils.py"},
      {"name": "StandAloneClientEntity._import_keys", "where": "appclient/stand_alone_client_entity.py"}],
     TECH + "generated histories over a virtual network that serves generated key sets; the policy model and the log of what was served when are the reference",
     "Served keys may be remembered for five minutes; with both `jwks` and `jwks_uri` either may be used; keys that were once the party's may remain accepted.")

prop("C24", "Entities of one process do not influence each other or their configuration",
     "Whatever is built from the same configuration (or parts of it, or the defaults), in whatever order and however it is used, each entity publishes, "
     "answers, knows, trusts and asks the network for exactly what it would if it were alone in a process of its own. "
     "Trust anchors, subordinates, policies, hints, trust marks and options given to one never appear in another. "
     "The configuration is the same after building and using entities as it was before.",
     ["inputs", "histories"], "For any 2 to 4 entities of 8 kinds (federation entities, combinations, OIDC and OAuth2 clients and servers) built from shared or "
     "different parts (15 kinds of arguments), and any interleaving of building, looking, fetching, collecting chains, adding anchors, enrolling, ruling, issuing marks.",
     "The tests build fresh configuration for every entity and look at one entity at a time.",
     ["utils.py", "build_entity.py", "defaults.py", "combo/__init__.py", "entity/__init__.py", "appclient/__init__.py", "appserver/__init__.py",
      "entity/function/trust_chain_collector.py", "trust_mark_entity/__init__.py", "trust_mark_entity/entity.py"],
     [{"name": "make_federation_entity, make_federation_combo, build_entity_config", "where": "utils.py"},
      {"name": "FederationEntityBuilder", "where": "build_entity.py"},
      {"name": "federation_services, federation_endpoints, federation_functions", "where": "defaults.py"}],
     TECH + "generated sets of entities and interleaved histories; each entity's observations compared with the same history "
     "run alone in a process of its own, and the configuration with its copy",
     "What idpyoidc itself shares between its applications is covered only as far as it can be seen in what the entities publish.")

prop("C25", "A federation deployed from files is, at every moment, what the files describe",
     "When entities are set up from files as documented (key files, folders of trust anchors and of subordinates, authority hint files, trust "
     "mark files), what others or other programs write is in force: hints and subordinates at once in configurations, listings and statements, "
     "trust anchors when an entity starts, trust marks issued by another program at the endpoints of the running issuer. A restart changes no key and loses nothing. "
     "References to files in a configuration, also in lists, are replaced by what the files contain and nothing else is changed.",
     ["histories", "inputs"], "For every history of enrolling, hinting, unhinting, anchoring, restarting, changing keys, issuing marks and passing time over "
     "two trust anchors, two intermediates (one a tenant), a trust mark issuer, a leaf and a relying party; and for every nested configuration with references to files.",
     "The tests hand subordinates, anchors and hints over as Python values, build every entity once and never restart one.",
     ["utils.py", "build_entity.py", "entity/__init__.py", "entity/context.py", "entity/server/list.py", "entity/server/fetch.py", "trust_mark_entity/__init__.py",
      "trust_mark_entity/entity.py"],
     [{"name": "make_federation_entity, make_federation_combo, load_values_from_file", "where": "utils.py"},
      {"name": "FederationContext.get_authority_hints", "where": "entity/context.py"},
      {"name": "FileDB", "where": "trust_mark_entity/__init__.py"}],
     TECH + "generated deployment histories over real files, processes started again from them, and every published document, listing, chain and mark "
     "compared with a model of the files; generated configurations with file references against a reference loader",
     "Whether an entity without superiors is an anchor in its own eyes is left open; files change between requests, not during one.")

prop("C26", "Client requests arrive unaltered and only properly signed answers are believed",
     "Whatever characters the parameters contain, a request made with a federation client (entity configuration, entity statement, "
     "list, resolve, trust mark, trust mark status, trust mark list) arrives once at the endpoint given, or else the one the entity "
     "asked publishes, with exactly those parameters, and the client gets what was answered there or an error. An answer that has to "
     "be signed and is not signed with a key of its issuer, is expired, or is the configuration of another entity than the one asked "
     "is never returned, whatever content type it has. No answer changes which trust chains the client accepts afterwards.",
     ["inputs", "histories"], "For every sequence of requests of 7 kinds, with endpoints given or discovered, any parameter values, "
     "and 17 kinds of genuine, forged and failing answers; and for requests to real endpoints.",
     "The tests check the URLs of a few fixed requests, and never what a client does with an answer.",
     ["entity/client/__init__.py", "entity/client/entity_configuration.py", "entity/client/trust_mark_status.py", "entity/function/trust_anchor.py"],
     [{"name": "FederationClient.do_request, parse_request_response", "where": "entity/client/__init__.py"},
      {"name": "get_request_parameters of the services", "where": "entity/client/"}],
     TECH + "generated requests and answers (genuine, forged, failing) over a virtual network; the request log and the answers given "
     "are the reference; a fresh client afterwards",
     "")

prop("C28", "Walking down a federation finds what trusted members list, ends, gives no trust",
     "FederationEntity.trawl finds, from a subordinate of a trust anchor downwards, that entity and the intermediates below it that are of the "
     "asked entity type, and everything those list for that type, and nothing else; only entities with a trust chain are asked. Loops in "
     "the tree, and members that are dead, that lie, or whose list can not be had, neither make it fail nor go on forever nor hide what other branches have. "
     "A walk changes nothing about whose keys are believed: a member that issues statements about the anchor or about others gains nothing.",
     ["inputs", "histories", "faults"], "For every tree or graph of up to 7 members below an anchor, any entity types, any failing or lying members, and repeated walks.",
     "Nothing in the tests walks down a federation.",
     ["entity/__init__.py", "entity/client/list.py", "entity/function/trust_anchor.py"],
     [{"name": "FederationEntity.trawl, list_subordinates", "where": "entity/__init__.py"}],
     TECH + "generated federation graphs with failing and lying members over a virtual network; the result is compared with a reference walk over the graph; "
     "afterwards somebody with the keys the liars gave out plays the anchor and has to be refused",
     "Whether a walk goes back to the superior it started from is left open, and the who endpoint, that uses the walk, is not covered.")
