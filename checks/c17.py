"""C17: what is critical but not understood, incomplete or malformed is refused; what is well-formed survives
being written and read. Chains with extensions are judged against the rule 'critical, present and unknown'."""
import copy
import json

from chainspec import *
from fedlib import EC, NOW, DAY, keyobj, jwks, sign, world
from gen import weighted
from vf import Outcome, attempt, require

# names that nobody knows, among them such that mean something elsewhere
EXT = ["ext_a", "ext_b", "https://example.org/claim", "value", "regexp", "Metadata"]
OPS = ["regexp", "intersects", "max_len", "constraints", "jwks", "ext_a", "Value"]
TYPES = ["federation_entity", "openid_provider", "openid_relying_party", "oauth_client", "my_type"]
CLAIMS = ["contacts", "scope", "organization_name"]


@st.composite
def extras(draw):
    """what a statement says beyond the plain claims"""
    e = {}
    for n in draw(st.lists(st.sampled_from(EXT), max_size=2, unique=True)):
        e[n] = draw(st.sampled_from(["x", 1, ["a"], {"b": 1}]))
    crit = draw(weighted((2, st.none()), (3, st.lists(st.sampled_from(EXT + ["metadata", "jwks", "constraints"]),
                                                      min_size=1, max_size=3, unique=True))))
    if crit:
        e["crit"] = crit
    pol = {}
    for t in draw(st.lists(st.sampled_from(TYPES), max_size=2, unique=True)):
        for c in draw(st.lists(st.sampled_from(CLAIMS), max_size=2, unique=True)):
            p = draw(st.sampled_from([{"essential": False}, {"default": ["a"]}, {"add": ["c"]}, {"value": ["a"]}, {"superset_of": [], "subset_of": ["a", "b", "n"]}])).copy()
            for o in draw(st.lists(st.sampled_from(OPS), max_size=2, unique=True)):
                p[o] = draw(st.sampled_from(["^a", 3, ["a", "b"]]))
            pol.setdefault(t, {})[c] = p
    if pol:
        e["metadata_policy"] = pol
    pc = draw(weighted((2, st.none()), (3, st.lists(st.sampled_from(OPS + ["subset_of", "essential"]), min_size=1,
                                                    max_size=3, unique=True))))
    if pc:
        e["policy_language_crit"] = pc
    return e


def unknown(stmt, known=(), known_ops=()):
    """the names of critical things in a statement that are not understood (reference)"""
    spec = {"iss", "sub", "iat", "exp", "jwks", "metadata", "metadata_policy", "constraints", "crit",
            "policy_language_crit", "authority_hints"}
    out = {c for c in stmt.get("crit", []) if c in stmt and c not in spec and c not in known}
    ops = {"subset_of", "superset_of", "one_of", "value", "default", "add", "essential"}
    for per_type in stmt.get("metadata_policy", {}).values():
        for p in per_type.values():
            out |= {o for o in p if o in stmt.get("policy_language_crit", []) and o not in ops
                    and o not in known_ops}
    return out


# the metadata of the specifications (OpenID Federation, Connect discovery and registration, RFC 7591, 8414, 8705, 9126, 9728)
URL, LIST, KEYS = "https://x.example.org/å?a=b", ["a b", "RS256"], {"keys": [{"kty": "EC", "crv": "P-256", "x": "a", "y": "b", "kid": "k"}]}
METHODS_OF = {"authorization_endpoint": ["request_object"], "pushed_authorization_request_endpoint": ["private_key_jwt"]}


def spec(urls="", lists="", flags="", objects="", **other):
    return dict({n: URL for n in urls.split()}, **{n: list(LIST) for n in lists.split()}, **{n: True for n in flags.split()}, **{n: copy.deepcopy(METHODS_OF) for n in objects.split()}, **other)


COMMON = spec("organization_name display_name description logo_uri policy_uri information_uri organization_uri homepage_uri signed_jwks_uri jwks_uri", "keywords contacts", jwks=KEYS)
SERVER = dict(COMMON, **spec(
    "issuer authorization_endpoint token_endpoint registration_endpoint service_documentation op_policy_uri op_tos_uri revocation_endpoint introspection_endpoint federation_registration_endpoint "
    "pushed_authorization_request_endpoint",
    "scopes_supported response_types_supported response_modes_supported grant_types_supported token_endpoint_auth_methods_supported token_endpoint_auth_signing_alg_values_supported ui_locales_supported "
    "revocation_endpoint_auth_methods_supported introspection_endpoint_auth_methods_supported code_challenge_methods_supported client_registration_types_supported request_authentication_signing_alg_values_supported",
    "require_pushed_authorization_requests tls_client_certificate_bound_access_tokens", "request_authentication_methods_supported mtls_endpoint_aliases"))
CLIENT = dict(COMMON, **spec("token_endpoint_auth_method client_name client_uri tos_uri software_id", "redirect_uris grant_types response_types client_registration_types"))
META = {"oauth_authorization_server": SERVER, "oauth_client": CLIENT,
        "openid_provider": dict(SERVER, **spec("userinfo_endpoint end_session_endpoint", "acr_values_supported subject_types_supported id_token_signing_alg_values_supported userinfo_signing_alg_values_supported claims_supported "
                                               "request_object_signing_alg_values_supported", "claims_parameter_supported request_parameter_supported frontchannel_logout_supported")),
        "openid_relying_party": dict(CLIENT, **spec("initiate_login_uri sector_identifier_uri", "request_uris post_logout_redirect_uris default_acr_values", "require_auth_time", default_max_age=5, application_type="web")),
        "federation_entity": dict(COMMON, **spec("federation_fetch_endpoint federation_list_endpoint federation_resolve_endpoint federation_trust_mark_status_endpoint federation_trust_mark_list_endpoint "
                                                 "federation_trust_mark_endpoint federation_historical_keys_endpoint name", "endpoint_auth_signing_alg_values_supported")),
        "oauth_resource": dict(COMMON, **spec("resource resource_documentation", "authorization_servers scopes_supported bearer_methods_supported")), "my_type": dict(SERVER)}
ALL_CLAIMS = sorted({c for t in META.values() for c in t})
# known to the framework, which does not look, or not known
UNCHECKED = {(t, "jwks") for t in META if t not in ("oauth_client", "openid_provider")} | {("my_type", "request_authentication_methods_supported")}


# what the framework adds
RPD = {"application_type": "web", "response_types": ["code"]}
OPD = {"version": "3.0", "token_endpoint_auth_methods_supported": ["client_secret_basic"], "claims_parameter_supported": False, "request_parameter_supported": False,
       "request_uri_parameter_supported": True, "require_request_uri_registration": True, "grant_types_supported": ["authorization_code"]}


def run(ctx):
    ctx.assumptions += ["cryptojwt's signature primitives are correct",
                        "the extensions known to the evaluator are those the caller names, for chains none"]

    def strip(specs):
        out = copy.deepcopy(specs)
        for s in out:
            x = s.get("extra", {})
            for n in EXT + ["crit", "policy_language_crit"]:
                x.pop(n, None)
            for per_type in x.get("metadata_policy", {}).values():
                for p in per_type.values():
                    for o in OPS:
                        p.pop(o, None)
        return out

    def resolved(specs):
        from fedservice.entity.function import apply_policies, verify_trust_chains
        fe = evaluator()
        tokens = build(specs)
        chains = verify_trust_chains(fe, [tokens[:-1]], tokens[-1])
        return [c.metadata for c in apply_policies(fe, chains)], len(chains)

    def chain(case):
        with world(handler):
            specs = copy.deepcopy(case["specs"])
            for i, x in case["extra"]:
                specs[i % len(specs)]["extra"] = x
            bad = set()
            for tok in build(specs):
                bad |= unknown(json.loads(b64d(tok.split(".")[1])))
            out = attempt(evaluator().function.verifier, build(specs))
            ok = bool(out.ok and out.value)
            require(ok == (not bad), lambda: f"chain accepted: {ok} ({out}), critical and unknown: {bad}",
                    "critical-ignored" if ok else "refused")
            out = attempt(resolved, specs)
            require(out.ok, lambda: f"a chain in a list: {out}", "list-raise")
            md, n = out.value
            require(n == (0 if bad else 1), f"{n} chains of the list accepted; critical and unknown: {bad}", "list")
            if not bad:
                plain = attempt(resolved, strip(specs))
                require(plain.ok, f"{plain}", "plain")
                require(md == plain.value[0], lambda: f"extensions that are not critical change the metadata: {md} "
                                                      f"vs {plain.value[0]}", "not-critical-changed")
            if case["extra"] and any(x for _, x in case["extra"]):
                ctx.nontriv([case["extra"], len(specs)])
            ctx.label("critical" if bad else "understood")

    @st.composite
    def cases(draw):
        specs = draw(honest_specs((0, 1)))
        leaf = {"metadata": {t: {"contacts": ["a"], "scope": ["b"], "organization_name": "n"}
                             for t in draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=2, unique=True))}}
        specs[-1]["extra"] = leaf
        ex = draw(st.lists(st.tuples(st.integers(0, len(specs) - 2), extras()), min_size=1, max_size=2)) \
            if len(specs) > 1 else []
        if draw(st.integers(0, 3)) == 0:
            x = draw(extras())
            ex = ex + [[len(specs) - 1, dict(x, **leaf)]]
        return {"specs": specs, "extra": [list(e) for e in ex]}

    ctx.prop("chain", cases(), chain, 500, rule="a chain of which a statement has extensions, distinct extensions")

    def message(case):
        from fedservice.message import EntityStatement
        with world(handler):
            m = {"iss": IDS[4], "sub": IDS[5], "iat": NOW - 5, "exp": NOW + DAY}
            m.update(copy.deepcopy(case["extra"]))
            bad = unknown(m, case["known"], case["ops"])
            kw = {}
            if case["known"]:
                kw["known_extensions"] = case["known"]
            if case["ops"]:
                kw["known_policy_extensions"] = case["ops"]

            def go():
                EntityStatement(**m).verify(**kw)
            out = attempt(go)
            require(out.ok == (not bad), lambda: f"verify {out}; critical and unknown: {bad}", "message-crit")
            ctx.nontriv(case)
            ctx.label("critical" if bad else "understood")

    ctx.prop("message", st.fixed_dictionaries({
        "extra": extras(), "known": st.one_of(st.just([]), st.lists(st.sampled_from(EXT + OPS), max_size=3, unique=True)),
        "ops": st.one_of(st.just([]), st.lists(st.sampled_from(OPS + EXT), max_size=3, unique=True))}), message, 900,
        rule="every statement, distinct extensions and known extensions")

    S, I, L, M, B = "string", "int", "strings", "object", "bool"
    OP_REQ = {"issuer": S, "authorization_endpoint": S, "response_types_supported": L, "subject_types_supported": L, "id_token_signing_alg_values_supported": L, "client_registration_types_supported": L}
    OP_OPT = {"federation_registration_endpoint": S, "organization_name": S, "signed_jwks_uri": S, "jwks": M, "request_authentication_signing_alg_values_supported": L}
    RP_REQ = {"redirect_uris": L, "client_registration_types": L}
    RP_OPT = {"organization_name": S, "signed_jwks_uri": S, "jwks": M, "contacts": L}
    T = {  # class: (required members, optional members) with types
        "EntityStatement": ({"iss": S, "sub": S, "iat": I, "exp": I},
                            {"jti": S, "authority_hints": L, "trust_marks": L, "metadata": M, "trust_anchor_id": S, "jwks": M,
                             "constraints": M}),
        "TrustMark": ({"iss": S, "sub": S, "iat": I, "id": S},
                      {"logo_uri": S, "exp": I, "ref": S, "delegation": S}),
        "ResolveRequest": ({"sub": S, "anchor": S}, {"type": S}),
        "TrustMarkRequest": ({"sub": S, "trust_mark_id": S}, {}),
        "TrustMarkStatusRequest": ({}, {"sub": S, "trust_mark_id": S, "iat": I, "trust_mark": S}),
        "ListRequest": ({}, {"entity_type": S, "trust_mark_id": S, "trust_marked": B, "intermediate": B}),
        "WhoRequest": ({}, {"entity_type": S, "credential_type": S, "trust_mark_id": S}),
        "ListResponse": ({"entity_id": L}, {}),
        "WhoResponse": ({"entities_to_use": L}, {}),
        "ResolveResponse": ({"metadata": M}, {"iss": S, "sub": S, "iat": I, "exp": I, "trust_chain": L}),
        "HistoricalKeysResponse": ({"iss": S, "iat": I, "jwks": M}, {}),
        "OPMetadata": (OP_REQ, dict(OP_OPT, jwks_uri=S)), "ProviderConfigurationResponse": (dict(OP_REQ, jwks_uri=S), OP_OPT),
        "RegistrationRequest": (RP_REQ, RP_OPT), "RegistrationResponse": (dict(RP_REQ, client_id=S), dict(RP_OPT, client_secret=S, client_secret_expires_at=I)),
        "FedASConfigurationResponse": ({"issuer": S, "response_types_supported": L}, {"grant_types_supported": L, "organization_name": S, "signed_jwks_uri": S, "contacts": L, "jwks": M}),
        "OIDCRPMetadata": ({"redirect_uris": L, "client_registration_types": L}, {"client_name": S, "contacts": L}),
        "OIDCRPRegistrationResponse": ({"redirect_uris": L, "client_registration_types": L, "client_id": S},
                                       {"contacts": L}),
        "OauthClientMetadata": ({}, {"organization_name": S, "signed_jwks_uri": S, "redirect_uris": L}),
        "OauthClientInformationResponse": ({"client_id": S}, {"client_secret": S, "client_id_issued_at": I,
                                                              "client_secret_expires_at": I, "client_name": S}),
        "AuthorizationServerMetadata": ({"issuer": S}, {"token_endpoint": S, "scopes_supported": L,
                                                        "client_registration_types_supported": L}),
        "OAuthProtectedResourceMetadata": ({"resource": S}, {"jwks_uri": S, "authorization_servers": L}),
        "Constraints": ({}, {"max_path_length": I, "naming_constraints": M}),
        "NamingConstraints": ({}, {"permitted": L, "excluded": L}),
        "FederationEntity": ({"federation_fetch_endpoint": S}, {"federation_list_endpoint": S, "contacts": L,
                                  "name": S, "trust_mark_issuers": M, "trust_mark_owners": M}),
    }
    DEFAULTS = {"OIDCRPMetadata": RPD, "RegistrationRequest": RPD, "OPMetadata": OPD, "ProviderConfigurationResponse": OPD, "FedASConfigurationResponse": {"version": "3.0"}}
    METHODS = ["json", "jwt", "dict"]
    FLAT = ["ResolveRequest", "TrustMarkRequest", "TrustMarkStatusRequest", "ListRequest", "WhoRequest"]
    STR = ["https://a.example.org", "https://b.example.org/x?y=1&z=å", "plain", "a b"]
    WRONG = {S: [5, True, ["a"], {"a": 1}], I: ["str", True, ["a"], {"a": 1}], L: [5, True, [5], ["a", 5]],
             M: ["str", 5, True, ["a"]], B: ["str", 5, {"a": 1}]}
    # checked by no one who reads it
    LOOSE = {("OauthClientInformationResponse", "client_secret_expires_at")}

    def value(draw, cls, name, typ):
        if name == "issuer":
            return draw(st.sampled_from(["https://a.example.org", "https://b.example.org/x/å"]))
        if name == "response_types_supported":
            return [draw(st.sampled_from(["id_token", "none"]))]    # what goes with code belongs to the framework
        if name == "id_token_signing_alg_values_supported":
            return draw(st.lists(st.sampled_from(STR), max_size=2)) + ["RS256"]
        if typ == S:
            return draw(st.sampled_from(STR))
        if typ == B:
            return draw(st.booleans())
        if typ == L:
            return draw(st.lists(st.sampled_from(STR), min_size=1, max_size=3))
        if typ == I:
            if name in ("exp", "client_secret_expires_at"):
                return NOW + draw(st.sampled_from([0, 1, 60, DAY]))
            if name == "max_path_length":
                return draw(st.integers(0, 5))
            return NOW - draw(st.sampled_from([0, 1, DAY]))
        if name == "naming_constraints":
            return {"permitted": draw(st.lists(st.sampled_from(STR), min_size=1, max_size=2))}
        if name == "constraints":
            return {"max_path_length": draw(st.integers(0, 3))}
        if name == "jwks":
            return jwks(EC[draw(st.integers(0, 5))])
        if name == "metadata":
            return {"my_type": {"a": draw(st.sampled_from(STR))}, "oauth_client": {"client_name": "N"}}
        return {"a": ["b"]}

    @st.composite
    def messages(draw):
        cls = draw(st.sampled_from(sorted(T)))
        req, opt = T[cls]
        m = {n: value(draw, cls, n, t) for n, t in req.items()}
        for n, t in opt.items():
            if draw(st.booleans()):
                m[n] = value(draw, cls, n, t)
        fault = draw(weighted((2, st.none()), (2, st.sampled_from(["drop"])), (2, st.sampled_from(["wrong"])),
                              (1, st.sampled_from(["nested"]))))
        arg = draw(st.integers(0, 30)), draw(st.integers(0, 5))
        return {"cls": cls, "m": m, "fault": fault, "arg": list(arg),
                "method": draw(st.sampled_from(METHODS + (["urlencoded"] if cls in FLAT else [])))}

    def read(cls, m):
        x = cls(**copy.deepcopy(m))
        x.verify()
        return x

    def well_formed(case):
        import fedservice.message as FM
        with world(handler):
            cls = getattr(FM, case["cls"])
            m, fault = copy.deepcopy(case["m"]), case["fault"]
            req, opt = T[case["cls"]]
            i, j = case["arg"]
            bad = None
            if fault == "drop" and req:
                bad = sorted(req)[i % len(req)]
                if bad == "federation_fetch_endpoint":
                    return  # needed by authorities only
                del m[bad]
            elif fault == "wrong" and m:
                n = sorted(m)[i % len(m)]
                if (case["cls"], n) not in LOOSE:
                    w = WRONG[dict(req, **opt)[n]]
                    m[n] = w[j % len(w)]
                    bad = n
            elif fault == "nested" and "constraints" in m:
                m["constraints"] = [{"max_path_length": "many"}, {"naming_constraints": {"permitted": [5]}},
                                    {"naming_constraints": ["a"]}, {"max_path_length": ["1"]}][j % 4]
                bad = "constraints"
            why = None
            if case["cls"] == "TrustMarkStatusRequest" and "trust_mark" not in m and not (
                    "sub" in m and "trust_mark_id" in m):
                why = "neither the mark nor its subject and identifier"
            if case["cls"] == "OauthClientInformationResponse" and "client_secret" in m \
                    and "client_secret_expires_at" not in m:
                why = "a secret without expiry"
            out = attempt_any(read, cls, m)
            ctx.label(f"{case['cls']}-{'bad' if bad or why else 'good'}")
            if bad or why:
                require(not out.ok, lambda: f"{case['cls']} {m} accepted although {why or bad}", "malformed-accepted")
                ctx.nontriv([case["cls"], m])
                return
            require(out.ok, lambda: f"{case['cls']} {m} refused: {out}", "wellformed-refused")
            x = out.value
            m = dict(DEFAULTS.get(case["cls"], {}), **m)
            said = attempt_any(x.to_dict)
            require(said.ok and said.value == m, lambda: f"{case['cls']} of {m} is {said}", "changed")
            meth = case["method"]

            def trip():
                kw = {"key": [keyobj(EC[7])], "algorithm": "ES256"} if meth == "jwt" else {}
                wire = x.serialize(meth, **kw)
                if meth == "jwt":
                    require(verify_sig(wire, jwks(EC[7])) == m, "the JWT says something else", "jwt")
                    from cryptojwt.key_jar import KeyJar
                    kj = KeyJar()
                    kj.import_jwks(jwks(EC[7]), m.get("iss", ""))
                    kw = {"keyjar": kj}
                else:
                    kw = {}
                y = cls().deserialize(wire, meth, **kw)
                y.verify()
                return y.to_dict()
            out = attempt_any(trip)
            require(out.ok, lambda: f"{case['cls']} {m} through {meth}: {out}", "round-trip-raise")
            got = out.value
            if meth == "urlencoded":
                got = {k: str(v).lower() for k, v in got.items()}
                want = {k: str(v).lower() for k, v in m.items()}
            else:
                want = m
            require(got == want, lambda: f"{case['cls']} {m} through {meth} is {got}", "round-trip")
            ctx.nontriv([case["cls"], meth, sorted(m)])

    def metadata(case):
        """an entity statement says of each kind of entity what the specifications have, and means it"""
        from fedservice.message import EntityStatement
        md = {t: {c: copy.deepcopy(META[t][c]) for c in sorted(META[t]) if c in cs} for t, cs in case["metadata"].items()}
        md = {t: cs for t, cs in md.items() if cs}
        with world(handler):
            m = {"iss": IDS[4], "sub": IDS[4], "iat": NOW - 5, "exp": NOW + DAY, "metadata": md}
            if case["wrong"] is not None:
                t = sorted(md)[case["wrong"] % len(md)] if md else None
                known = [c for c in md.get(t, {}) if isinstance(META[t][c], dict) and c != "mtls_endpoint_aliases" and (t, c) not in UNCHECKED]
                if known:
                    md[t][known[0]] = ["a"]
                    out = attempt_any(read, EntityStatement, m)
                    require(not out.ok, lambda: f"{t} with {known[0]} {md[t][known[0]]} accepted", "metadata-wrong")
                    ctx.label("wrong object")
                    return
            for how in ("as it is", "json", "jwt"):
                def through():
                    x = read(EntityStatement, m)
                    if how == "json":
                        x = EntityStatement().from_json(x.to_json())
                    elif how == "jwt":
                        from cryptojwt.key_jar import KeyJar
                        kj = KeyJar()
                        kj.import_jwks(jwks(EC[7]), m["iss"])
                        x = EntityStatement().from_jwt(x.to_jwt(key=[keyobj(EC[7])], algorithm="ES256"), keyjar=kj)
                    return x.to_dict()
                out = attempt_any(through)
                require(out.ok, lambda: f"{md} {how}: {out}", "metadata-refused")
                want = {t: dict({"openid_provider": OPD, "openid_relying_party": RPD}.get(t, {}), **cs) for t, cs in md.items()}
                require(out.value["metadata"] == want, lambda: f"{md} {how} became {out.value['metadata']}", "metadata-changed")
            if md:
                ctx.nontriv(case["metadata"])

    ctx.prop("metadata", st.fixed_dictionaries({
        "metadata": st.dictionaries(st.sampled_from(sorted(META)), st.lists(st.sampled_from(ALL_CLAIMS), min_size=1, max_size=12, unique=True), min_size=1, max_size=3),
        "wrong": st.one_of(st.none(), st.none(), st.integers(0, 2))}), metadata, 400, rule="metadata of some type, distinct types and claims")

    def attempt_any(fn, *args):
        """the classes are mostly tables read by the library they inherit from, which is what raises"""
        from vf import Violation
        try:
            return Outcome(fn(*args))
        except Violation:
            raise
        except Exception as err:
            return Outcome(err=err)

    ctx.prop("well_formed", messages(), well_formed, 2600,
             rule="message with a missing/wrong member, or distinct class, serialisation and set of members")

    SUBJECTS = ["https://leaf.example.org", "https://leaf.example.org/", "https://leaf.example.org/a", "https://leaf.example.org.evil.example.com", "https://LEAF.example.org", IDS[4]]

    def mark(case):
        from fedservice.message import TrustMark
        with world(handler):
            m = {"iss": IDS[4], "sub": SUBJECTS[case["sub"]], "iat": NOW + case["iat"], "id": "https://tm.example.org/1"}
            if case["exp"] is not None:
                m["exp"] = NOW + case["exp"]
            kw = {}
            if case["of"] is not None:
                kw["entity_id"] = SUBJECTS[case["of"]]
            out = attempt_any(lambda: TrustMark(**m).verify(**kw))
            bad = []
            if case["of"] is not None and case["of"] != case["sub"]:
                bad.append("someone else's")
            if case["exp"] is not None and case["exp"] < 0:
                bad.append("expired")
            if case["iat"] > 0:
                bad.append("issued in the future")
            require(out.ok == (not bad), lambda: f"trust mark {m}, {kw}: {out}, but it is {bad or 'fine'}", "mark")
            if bad or kw:
                ctx.nontriv(case)

    ctx.prop("mark", st.fixed_dictionaries({
        "sub": st.integers(0, 5), "of": st.one_of(st.none(), st.integers(0, 5)),
        "exp": st.one_of(st.none(), st.sampled_from([-DAY, -1, 0, 1, DAY])),
        "iat": st.sampled_from([-DAY, -1, 0, 0, 1, 3600])}), mark, 250,
        rule="mark checked for a subject, or expired or from the future")
