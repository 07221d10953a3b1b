"""C24: entities in one process, built from the same configuration, do not influence each other, and the configuration stays as it was."""
import copy
import json
import os
from urllib.parse import parse_qs, urlsplit

from hypothesis import strategies as st

from gen import weighted
from fedlib import EC, PaperFed, jwks, key_conf, payload_of, world
import realfed as R
from vf import require

TA, TA2, IM, LEAF, LEAF2 = ("https://ta.example.org", "https://ta2.example.org", "https://im.example.org", "https://leaf.example.org",
                            "https://leaf2.example.com/app")
MARK = "https://marks.example.org/one"
MARK2 = "https://marks.example.org/two"
ENDPOINTS = [["entity_configuration"], ["entity_configuration", "fetch", "list"], ["entity_configuration", "fetch", "list", "resolve"],
             ["entity_configuration", "fetch", "list", "status"]]
SUBS = {LEAF: {"jwks": jwks(EC[5]), "entity_types": ["openid_relying_party"]}, LEAF2: {"jwks": jwks(EC[6]), "entity_types": ["openid_provider", "federation_entity"]}}
POLICIES = {"openid_relying_party": {"metadata_policy": {"contacts": {"add": ["x"]}}}, LEAF: {"metadata_policy": {"openid_relying_party": {"contacts": {"add": ["y"]}}}},
            LEAF2: {"metadata": {"openid_provider": {"contacts": ["z"]}}}}


def catalog(case):
    """what configurations are made of; an entity that gets the same part as another gets the same object"""
    from fedservice import defaults
    res = {
        "trust_anchors": [{}, {TA: jwks(EC[0])}, {TA: jwks(EC[0]), TA2: jwks(EC[1])}],
        "authority_hints": [None, [IM], [TA, IM]],
        "preference": [{"organization_name": "one"}, {"organization_name": "two", "contacts": ["a@example.org"]}],
        "endpoints": [None] + [list(e) for e in ENDPOINTS] + [defaults.federation_endpoints(*ENDPOINTS[1])],
        "services": [None, ["entity_configuration", "entity_statement", "list"], defaults.federation_services("entity_configuration", "entity_statement", "resolve")],
        "functions": [None, ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]],
        "init_kwargs": [None, {"endpoint": {"fetch": {"client_authn_method": ["private_key_jwt"]}}, "service": {"entity_statement": {"max_ttl": 5}}, "function": {"trust_chain_collector": {"allowed_delta": 77}}},
                        {"endpoint": {"list": {"auth_signing_alg_values": ["ES256"]}}, "service": {}, "function": {"trust_chain_collector": {"allowed_delta": 1}}}],
        "item_args": [None, {"endpoint": {"fetch": {"auth_signing_alg_values": ["RS256"]}}}],
        "subordinate": [None, {LEAF: copy.deepcopy(SUBS[LEAF])}, copy.deepcopy(SUBS)],
        "metadata_policy": [None, copy.deepcopy(POLICIES), {LEAF: copy.deepcopy(POLICIES[LEAF])}],
        "httpc_params": [None, {"verify": False, "timeout": 4}],
        "trust_marks": [None, ["a.b.c"], ["a.b.c", "d.e.f"]],
        "trust_mark_entity": [None, {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
            "trust_mark_specification": {MARK: {"lifetime": 1000}, MARK2: {"ref": "https://ref.example.org"}},
            "endpoint": {"trust_mark": {"path": "trust_mark", "class": "fedservice.trust_mark_entity.server.trust_mark.TrustMark", "kwargs": {}},
                         "trust_mark_list": {"path": "trust_mark_list", "class": "fedservice.trust_mark_entity.server.trust_mark_list.TrustMarkList", "kwargs": {}}}}}],
        "self_signed_trust_mark_entity": [None, {"class": "fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity", "kwargs": {
            "trust_mark_specification": {MARK: {}, MARK2: {"ref": "https://ref.example.org"}}}}],
        "key_config": [key_conf(n) for n in range(3)],
    }
    return res


def built():
    """configurations of the kind that FederationEntity() is called with"""
    from fedservice.build_entity import FederationEntityBuilder
    from fedservice.utils import build_entity_config
    maker = FederationEntityBuilder("https://built.example.org", preference={"organization_name": "built"}, authority_hints=[IM], key_conf=key_conf(1))
    maker.add_services()
    maker.add_endpoints(args={"fetch": {"auth_signing_alg_values": ["RS256"]}})
    maker.add_functions()
    maker.set_attr("function", {})
    return [build_entity_config("https://built.example.org", key_config=key_conf(0), preference={"organization_name": "built"}, authority_hints=[TA],
                                endpoints=list(ENDPOINTS[2])), maker.conf]


def applications():
    """configurations of applications"""
    import fedservice.utils as u
    make = u.make_federation_combo
    u.make_federation_combo = lambda *args, **kw: kw["entity_type"]
    try:
        res = {g: f("https://app.example.org", n, guise=g) for n, (g, f) in enumerate(
            [("openid_relying_party", R.rp), ("openid_provider", R.op), ("oauth_client", R.rp), ("oauth_authorization_server", R.op)])}
        res["openid_relying_party"]["openid_relying_party"]["kwargs"]["config"]["metadata"] = {"client_name": "an application", "contacts": ["c@example.org"]}
        res["openid_relying_party"]["openid_relying_party"]["kwargs"]["config"]["request_args"] = {"scope": ["openid", "email"], "claims": {"userinfo": {"email": {"essential": True}}}}
        res["openid_relying_party"]["openid_relying_party"]["class"] = "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity"
        res["oauth_client"]["oauth_client"]["kwargs"]["key_conf"] = key_conf(3)
        return res
    finally:
        u.make_federation_combo = make


PARTS = sorted(k for k in catalog(None) if k != "entity_type")
SIZES = {k: len(v) for k, v in catalog(None).items()}
KINDS = ["federation", "federation", "federation", "direct", "direct", "combo", "rp", "op", "client", "as"]
GUISES = {"rp": "openid_relying_party", "op": "openid_provider", "client": "oauth_client", "as": "oauth_authorization_server"}
builder = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "parts": st.fixed_dictionaries({k: st.integers(0, SIZES[k] - 1) for k in PARTS})})
op = weighted((2, st.tuples(st.just("build"))),
              (3, st.just(("look",))),
              (2, st.tuples(st.just("fetch"), st.sampled_from([LEAF, LEAF2]))),
              (2, st.tuples(st.just("anchor"), st.sampled_from([TA, TA2]))),
              (2, st.tuples(st.just("chains"), st.sampled_from([LEAF, LEAF2]))),
              (1, st.tuples(st.just("begin"), st.sampled_from([["openid"], ["openid", "profile"], None]))),
              (1, st.tuples(st.just("enrol"), st.sampled_from([LEAF, LEAF2]))),
              (1, st.tuples(st.just("expel"), st.sampled_from([LEAF, LEAF2]))),
              (1, st.tuples(st.just("rule"), st.sampled_from([LEAF, LEAF2, "openid_relying_party"]))),
              (1, st.tuples(st.just("mark"), st.sampled_from([MARK, MARK2]), st.sampled_from([LEAF, LEAF2]))),
              (1, st.tuples(st.just("own mark"), st.sampled_from([MARK, MARK2]))),
              (1, st.tuples(st.just("hint"), st.sampled_from([[TA], [IM], [TA2, IM]]))),
              (1, st.tuples(st.just("prefer"), st.sampled_from(["x", "y"]))))
case_st = st.fixed_dictionaries({"entities": st.lists(builder, min_size=2, max_size=4), "same": st.sampled_from([None, None, "all", "all", "parts"]),
                                 "ops": st.lists(st.tuples(st.integers(0, 3), op), min_size=1, max_size=14)})


def eid(n):
    return f"https://e{n}.example.org" + ("/tenant" if n == 2 else "")


def build(case, parts, n):
    from fedservice.utils import make_federation_combo, make_federation_entity
    b = case["entities"][n]
    chosen = case["entities"][0]["parts"] if case["same"] == "all" else b["parts"]
    args = {k: parts[k][chosen[k]] for k in PARTS}
    if b["kind"] == "direct":
        from fedservice.entity import FederationEntity
        return FederationEntity(**{**parts["built"][chosen["endpoints"] % 2], "entity_id": eid(n)})
    if b["kind"] == "federation":
        return make_federation_entity(eid(n), **args)
    if b["kind"] != "combo":
        args["entity_type"] = parts["applications"][GUISES[b["kind"]]]
        if b["kind"] in ("rp", "client"):
            args["services"] = parts["client services"][GUISES[b["kind"]]]
    return make_federation_combo(eid(n), **args)


def paper(clock):
    nodes = {TA: {"key": 0, "sup": []}, TA2: {"key": 1, "sup": []}, IM: {"key": 2, "sup": [TA, TA2]},
             LEAF: {"key": 5, "sup": [IM], "meta": {"openid_relying_party": {"contacts": ["me"]}}},
             LEAF2: {"key": 6, "sup": [TA2], "meta": {"openid_provider": {"contacts": ["me"]}}}}
    return PaperFed(nodes, clock)


def plain(x):
    """something that can be compared"""
    if isinstance(x, str):
        if x.count(".") == 2 and x.startswith("ey"):
            try:
                return {"jws": plain(payload_of(x))}
            except Exception:
                return x
        return x
    if isinstance(x, dict) or hasattr(x, "to_dict"):
        x = x if isinstance(x, dict) else x.to_dict()
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda i: str(i[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if x is None or isinstance(x, (int, float, bool)):
        return x
    if isinstance(x, type):
        return x.__name__
    return type(x).__name__


def perform(case, entities, parts, n, o):
    """what the entity shows; errors are shown as well"""
    if o[0] == "build":
        if entities.get(n) is None:
            entities[n] = build(case, parts, n)
        return "built"
    ent = entities.get(n)
    if ent is None:
        return None
    fe = R.fed_entity(ent)
    if o[0] == "look":
        return look(ent, fe)
    if o[0] == "fetch":
        ep = fe.get_endpoint("fetch")
        return R.serve(ep, "GET", {"iss": fe.entity_id, "sub": o[1]}) if ep else None
    if o[0] == "anchor":
        fe.add_trust_anchor(o[1], jwks(EC[0 if o[1] == TA else 1]))
    elif o[0] == "chains":
        from fedservice.entity.function import get_verified_trust_chains
        return [[tc.anchor, tc.metadata, tc.iss_path] for tc in get_verified_trust_chains(fe, o[1])]
    if o[0] == "enrol":
        fe.server.subordinate[o[1]] = {"jwks": jwks(EC[9]), "entity_types": ["oauth_client"]}
    elif o[0] == "expel":
        del fe.server.subordinate[o[1]]
    elif o[0] == "rule":
        fe.server.policy[o[1]] = {"metadata_policy": {"openid_relying_party": {"client_name": {"value": "ruled"}}}}
    elif o[0] == "hint":
        fe.context.authority_hints = list(o[1])
    elif o[0] == "prefer":
        fe.context.claims.prefer["organization_name"] = o[1]
    elif o[0] == "own mark":
        return fe.server.self_signed_trust_mark_entity(o[1])
    elif o[0] == "mark":
        return fe.server.trust_mark_entity.create_trust_mark(o[1], o[2]) and fe.server.trust_mark_entity.issued.dumps()
    return "done"


def begin(ent, scope):
    cl = ent["openid_relying_party"]
    cl.context.issuer = "https://op.example.org"
    cl.context.provider_info = {"issuer": "https://op.example.org", "authorization_endpoint": "https://op.example.org/authorization"}
    cl.context.server_metadata = {"openid_provider": cl.context.provider_info}
    url = cl.init_authorization(req_args={"scope": scope} if scope else None)
    return [url.split("?")[0], {k: v for k, v in parse_qs(urlsplit(url).query).items() if k not in ("state", "nonce", "request")}]


def services(unit):
    known = unit.get_services() if hasattr(unit, "get_services") else []
    return sorted(type(s).__name__ + json.dumps(plain(getattr(s, "conf", None))) for s in (known.values() if hasattr(known, "values") else known))


def look(ent, fe):
    conf = fe.get_endpoint("entity_configuration")
    res = {"configuration": conf.process_request({}) if conf else None,
           "endpoints": {k: [v.full_path, v.client_authn_method, getattr(v, "auth_signing_alg_values", None), type(v)] for k, v in fe.server.endpoint.items()},
           "services": services(fe.client),
           "anchors": dict(fe.function.trust_chain_collector.trust_anchors), "known": sorted(fe.keyjar.owners()),
           "delta": fe.function.trust_chain_collector.allowed_delta, "subordinates": fe.server.subordinate, "policy": fe.server.policy,
           "supports": fe.supports(), "hints": fe.get_authority_hints()}
    if fe.get_endpoint("list"):
        res["list"] = R.serve(fe.get_endpoint("list"), "GET", {})
    if getattr(fe.server, "trust_mark_entity", None):
        res["marks"] = fe.server.trust_mark_entity.issued.dumps()
        res["specification"] = fe.server.trust_mark_entity.trust_mark_specification
    if ent is not fe:
        res["metadata"] = ent.get_metadata()
        for guise in ent.keys():
            if guise != "federation_entity":
                unit = ent[guise]
                res[guise] = {"endpoints": {k: v.full_path for k, v in getattr(unit, "endpoint", {}).items()},
                              "services": services(unit),
                              "preference": unit.context.claims.prefer, "supports": unit.context.claims._supports,
                              "clients": sorted(unit.context.cdb) if hasattr(unit.context, "cdb") and unit.context.cdb is not None else None}
    return res


def in_child(fn):
    """the result of fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as fp:
                json.dump(fn(), fp)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fp:
        text = fp.read()
    _, status = os.waitpid(pid, 0)
    require(status == 0 and text, lambda: f"the process ended with {status}", "harness")
    return json.loads(text)


def live(case, who):
    """[what was seen after each operation of the entities in `who`], and what became of the configuration"""
    with world() as (clock, net):
        parts = catalog(case)
        parts["applications"] = applications()
        from fedservice import defaults
        parts["client services"] = {"openid_relying_party": {**defaults.federation_services("entity_configuration", "entity_statement"), **copy.deepcopy(defaults.DEFAULT_OIDC_FED_SERVICES)},
                                    "oauth_client": {**defaults.federation_services("entity_configuration", "entity_statement"), **copy.deepcopy(defaults.DEFAULT_OAUTH2_FED_SERVICES)}}
        parts["built"] = built()
        before = plain(parts)
        net.add(paper(clock).handler)
        entities, seen = {}, []
        for n, o in history_of(case):
            if n not in who:
                seen.append(None)
                continue
            asked = len(net.log)
            try:
                res = {"shown": perform(case, entities, parts, n, o)}
            except Exception as err:
                res = {"error": repr(err)[:300]}
            seen.append(plain({**res, "asked": net.log[asked:]}))
        after = plain(parts)
        changed = {k: [before[k], after[k]] for k in parts if before[k] != after[k]}
        return [seen, changed]


def history_of(case):
    m = len(case["entities"])
    ops = [(n % m, list(o)) for n, o in case["ops"]]
    # everybody is built before it is used
    res, built = [], set()
    for n, o in ops:
        if n not in built:
            built.add(n)
            res.append((n, ["build"]))
        res.append((n, o))
    return res + [(n, ["build"]) for n in range(m) if n not in built] + [(n, ["look"]) for n in range(m)]


def run(ctx):
    import fedservice.utils, fedservice.entity.function  # noqa: the parent builds nothing but knows everything

    def history(case):
        m = len(case["entities"])
        together, changed = in_child(lambda: live(case, set(range(m))))
        require(not changed, lambda: f"the configuration changed: {short(changed)}", "configuration")
        ops = history_of(case)
        for n in range(m):
            alone, _ = in_child(lambda: live(case, {n}))
            for i, (o, a, b) in enumerate(zip(ops, together, alone)):
                if o[0] == n:
                    require(a == b, lambda: f"step {i} {o}: {difference(a, b)} (with the others / alone)", "influence")
        ctx.nontriv(case)
        for e in case["entities"]:
            ctx.label(e["kind"])
        for x in together:
            ctx.label(x["error"].split("(")[0] if "error" in x else "shown" if x["shown"] is not None else "nothing")

    ctx.prop("process", case_st, history, 140, rule="several entities were built and used")


def short(changed):
    return {k: difference(b, a) for k, (a, b) in changed.items()}


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return difference(a.get(k), b.get(k), f"{path}/{k}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, f"{path}/{i}")
    return f"{path}: {str(a)[:300]} / {str(b)[:300]}"
