"""C21: a client and a server of one federation, both the code under test, do business: registration (explicit or
automatic), authorization request, response and token, whatever the tree between them, its policies and the request."""
import copy
import functools
import html
import json
import os
import re
from urllib.parse import parse_qsl, urlencode, urlsplit

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
from fedlib import DAY, EC, RSA, entity, jwks, payload_of, sign, verify_sig, world
from vf import Outcome, require

OP, TA, TA2, IM, IM2, RP, RP2 = ("https://op.example.org", "https://ta.example.org", "https://ta2.example.com/x", "https://im.example.org",
                                 "https://im2.example.org/tenant", "https://rp.example.org", "https://rp2.example.com/app")
CLIENTS = [RP, RP2]
PATHS = [[TA], [IM, TA], [IM2, IM, TA], [IM2, TA], [IM, TA2], [TA2], [IM2, IM, TA2]]
TEXT = ["x", "a+b c%20d&e=f", "å/é?#", "\"'<>\\", "https://leaf.example.org/a?b=c"]
ENDPOINTS = ["entity_configuration", "fetch", "list"]


def mp(**kw):
    return kw


POLICIES = [{}, {}, {}, {"contacts": {"default": ["given"]}}, {"contacts": {"add": ["added"]}}, {"client_name": {"value": "by superior"}},
            {"grant_types": {"subset_of": ["authorization_code", "refresh_token"]}}, {"grant_types": {"essential": True}},
            {"software_version": {"default": "1.å"}}, {"software_id": {"one_of": ["a", "b"]}},
            {"contacts": {"subset_of": ["nobody"], "essential": True}}]
request = st.fixed_dictionaries(
    {"response_type": st.just("code"), "scope": st.sampled_from([["openid"], ["openid", "email"], ["openid", "profile"]])},
    optional={"state": st.sampled_from(["s1", "a+b c", "å", "s2"]), "nonce": st.sampled_from(["n1", "n+ 2", "é"]), "login_hint": st.sampled_from(TEXT),
              "prompt": st.just("consent"), "max_age": st.sampled_from([3600]), "claims": st.just({"userinfo": {"email": {"essential": True}}}),
              "ui_locales": st.just(["sv", "en"]), "display": st.just("page"), "extra_param": st.sampled_from(TEXT), "uri": st.integers(0, 1)})
op = weighted((2, st.tuples(st.just("register"), st.integers(0, 1))),
              (5, st.tuples(st.just("authorize"), st.integers(0, 1), request, st.sampled_from(["url", "url", "push"]), st.booleans())),
              (1, st.tuples(st.just("wait"), st.sampled_from([1, 200, 700, 3700, 3 * DAY]))))
client = st.fixed_dictionaries({"path": st.sampled_from([0, 1, 1, 2, 3, 4, 5, 6]), "policy": st.sampled_from(POLICIES), "level": st.integers(0, 2),
                                "own_keys": st.booleans(), "two_uris": st.booleans(), "name": st.sampled_from([None, "c", "å&"]),
                                "contacts": st.sampled_from([None, None, ["me"]]),
                                "marks": st.sampled_from([None, None, "list", "file", "function", "empty"])})
federation = st.fixed_dictionaries({"op": st.sampled_from([0, 0, 1, 2, 3]), "clients": st.tuples(client, client), "anchors": st.sampled_from([1, 1, 2]),
                                    "methods": st.sampled_from([None] * 6 + [{}, {}, {"authorization_endpoint": ["request_object"]}]),
                                    "ops": st.lists(op, min_size=1, max_size=5)}).map(
    lambda c: dict(c, ops=[("register", 0)] + c["ops"]) if c["methods"] == {} else c)


def guises(name):
    return ("openid_relying_party", "openid_provider") if name == "oidc" else ("oauth_client", "oauth_authorization_server")


def make_op(name, sg, anchors, hints, more=None):
    tokens = {"jwks_def": {"read_only": False, "key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
              "code": {"lifetime": 600, "kwargs": {"crypt_conf": R.crypt()}},
              "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600, "alg": "RS256"}}}
    tokens["refresh"] = {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 7200, "alg": "RS256"}}
    if name == "oidc":
        tokens["id_token"] = {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}
    authn = {"anon": {"acr": "x", "class": "idpyoidc.server.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}}
    return R.op(OP, 4, config={"authentication": authn, "token_handler_args": tokens, **(more or {})}, guise=sg, anchors=anchors, authority_hints=hints)


def norm_uris(uris):
    return sorted(u if isinstance(u, str) else u[0] for u in uris)


def run(ctx):
    ctx.assumptions += ["the application makes the server's metadata and keys known to the client, as the deployments do",
                        "a client whose metadata its superiors do not allow is not required to get anywhere",
                        "the audience of a request object is not decided"]
    for name in ("oidc", "oauth2"):
        prop(ctx, name)
    standalone(ctx)


def prop(ctx, name):
    et, sg = guises(name)

    def history(case):
        with world() as (clock, net):
            known = [TA, TA2][:case["anchors"]]
            anchors = {t: jwks(RSA[i]) for i, t in enumerate([TA, TA2])}
            ents = {t: entity(t, i, trust_anchors=anchors, endpoints=ENDPOINTS) for i, t in enumerate([TA, TA2])}
            anchors = {t: R.own_jwks(ents[t]) for t in (TA, TA2)}
            paths = [PATHS[case["op"]]] + [PATHS[c["path"]] for c in case["clients"]]
            hints = {}
            for sub, p in zip([OP] + CLIENTS, paths):
                for a, b in zip([sub] + p, p):
                    if b not in hints.setdefault(a, []):
                        hints[a].append(b)
            for n, i in enumerate((IM, IM2)):
                ents[i] = entity(i, 2 + n, trust_anchors=anchors, endpoints=ENDPOINTS, authority_hints=hints.get(i, []))
            served = {t: anchors[t] for t in known}
            ents[OP] = make_op(name, sg, served, hints[OP])
            meta = {}
            for n, (cid, c) in enumerate(zip(CLIENTS, case["clients"])):
                pref = {}
                if c["name"]:
                    pref["client_name"] = c["name"]
                if c["contacts"]:
                    pref["contacts"] = list(c["contacts"])
                uris = [f"{cid}/cb"] + ([f"{cid}/cb2"] if c["two_uris"] else [])
                ents[cid] = R.rp(cid, 5 + n, cli_key=8 + n if c["own_keys"] else None, guise=et, anchors=anchors, authority_hints=hints[cid],
                                 config={"redirect_uris": uris, "preference": pref,
                                         "authorization_request_endpoints": ["authorization_endpoint", "pushed_authorization_request_endpoint"],
                                         "client_authn_methods": ["private_key_jwt", "client_secret_post"]})
                configure_marks(R.fed_entity(ents[cid]).context, cid, c["marks"])
            for sub, sups in hints.items():
                for s in sups:
                    R.register(ents[s], ents[sub], **({"intermediate": True} if sub in (IM, IM2) else {}))
            ruled = []
            for n, (cid, c) in enumerate(zip(CLIENTS, case["clients"])):
                p = paths[n + 1]
                level = min(c["level"], len(p) - 1)
                if c["policy"]:
                    R.fed_entity(ents[p[level]]).server.policy[([cid] + p)[level]] = {"metadata_policy": {et: copy.deepcopy(c["policy"])}}
                    ruled.append((([cid] + p)[level], p[level], c["policy"]))
            if case["methods"] is not None:   # how a request can be authenticated, as the server's superiors say
                for u in hints[OP]:
                    R.fed_entity(ents[u]).server.policy[OP] = {"metadata": {sg: {"request_authentication_methods_supported": dict(case["methods"])}}}
            wire = R.Wire(*ents.values())
            requests = []
            net.add(lambda method, url, headers, body: requests.append((url, body)))
            net.add(wire)
            oper = ents[OP]
            cdb = oper[sg].context.cdb
            clients = [Client(cid, ents[cid], n) for n, cid in enumerate(CLIENTS)]
            from fedservice.entity.function import get_verified_trust_chains
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                    continue
                cl, c = clients[o[1]], case["clients"][o[1]]
                tcs = Outcome(get_verified_trust_chains(cl.ent, OP)).value
                require(tcs, lambda: f"the client found no way to the server: {net.log[-8:]}", "no-server")
                edges = {(a, b) for x in hint_paths(hints, cl.cid) if x[-1] in known for a, b in zip(x, x[1:])}
                reach = bool(edges)
                own = payload_of(cl.fe.get_endpoint("entity_configuration").process_request({})["response"])["metadata"]
                resolved = [pm.resolve_model([statement(ents, s, u) for u, s in zip(x, x[1:])][::-1], copy.deepcopy(own))
                            for x in hint_paths(hints, cl.cid) if x[-1] in known]
                ok = bool(resolved) and all(m is not None and pm.OPEN not in m.values() and et in m for m in resolved)
                never = not any(m is not None for m in resolved)
                cl.know(tcs[0].metadata, sg, et)
                cl.plain = case["methods"] == {}
                wire.errors.clear()
                where = f"step {n}: {name} {o} by {cl.cid}"
                if o[0] == "register":
                    # the client has to find the server below the anchor that the server chose
                    common = {x[-1] for x in hint_paths(hints, cl.cid) if x[-1] in known} <= {x[-1] for x in hint_paths(hints, OP)}
                    requests.clear()
                    register(cl, et, sg, cdb, ok and common, never, where, wire)
                    sent = [b for u, b in requests if u == oper[sg].get_endpoint("registration").full_path]
                    require(len(sent) == 1, lambda: f"{where}: {len(sent)} registration requests", "one-request")
                    require(payload_of(sent[0]).get("trust_marks", []) == marks_of(cl.cid, c["marks"]), lambda: f"{where}: the request has the trust marks {payload_of(sent[0]).get('trust_marks')}", "marks")
                else:
                    authorize(cl, et, sg, oper, cdb, ok, never, o, where, wire, net)
                if cl.plain and cl.registered and o[0] != "register":
                    ctx.label("plain-request")
                ctx.label(f"{o[0]}-{'registered' if cl.registered else 'automatic'}-{'ok' if ok else 'never' if never else 'open'}-{reach}")
                if ok:
                    ctx.nontriv([case, n])

    def register(cl, et, sg, cdb, ok, never, where, wire):
        svc = cl.ent[et].get_service("registration")
        svc.endpoint = cl.ent[et].context.get_metadata_claim("federation_registration_endpoint", [sg])
        try:
            out = Outcome(cl.ent[et].do_request("registration", request_body_type="jose", method="POST", request_args={"entity_id": cl.cid}))
        except Exception as err:
            out = Outcome(err=err)
        good = out.ok and out.value and "error" not in out.value
        require(good or not ok, lambda: f"{where}: explicit registration failed: {out} {wire.errors}", "register")
        require(not (good and never), lambda: f"{where}: registered against the policies: {out}", "registered")
        if not good:
            cl.half = cl.cid in cdb
            return
        info = out.value if name == "oidc" else out.value[et]
        context = cl.ent[et].context
        cid = info["client_id"]
        require(cid in cdb, lambda: f"{where}: the server does not know {cid}, only {list(cdb)}", "client-id")
        require(context.get_client_id() == cid, lambda: f"{where}: the client calls itself {context.get_client_id()}, the server {cid}", "client-id")
        mem = cdb[cid]
        for claim in ("client_secret", "contacts", "client_name", "grant_types", "response_types", "software_version", "token_endpoint_auth_method",
                      "id_token_signed_response_alg", "client_secret_expires_at"):
            if claim in info:
                require(claim in mem and pm.same(info[claim], mem[claim]),
                        lambda: f"{where}: {claim} is {info[claim]!r} for the client, {mem.get(claim)!r} for the server", "agree")
        secret = context.get_usage("client_secret")
        require("client_secret" not in mem or secret == mem["client_secret"], lambda: f"{where}: client secret {secret}", "secret")
        cl.registered = cid
        cl.secret_until = mem.get("client_secret_expires_at", 0)

    def authorize(cl, et, sg, oper, cdb, ok, never, o, where, wire, net):
        _, _, req, way, exchange = o
        push = way == "push" and name == "oauth2" and not cl.registered
        args = copy.deepcopy(req)
        args["redirect_uri"] = cl.uris[args.pop("uri", 0) % len(cl.uris)]
        args.setdefault("state", f"made-{len(net.log)}")
        if name == "oauth2":
            for k in ("nonce", "max_age", "claims", "display", "prompt"):
                args.pop(k, None)
        svc = cl.ent[et].get_service("authorization")
        ep = oper[sg].get_endpoint("authorization")
        cid = cl.registered or cl.cid
        before = set(cdb)
        try:
            if push:
                out = Outcome(pushed(cl, svc, oper[sg], ep, args, wire))
            else:
                info = svc.get_request_parameters(request_args=copy.deepcopy(args))
                require(info["url"].split("?")[0] == ep.full_path, lambda: f"{where}: sent to {info['url']}", "url")
                if not cl.plain:
                    judge_object(cl, urlsplit(info["url"]).query, cid, args, where)
                out = Outcome(ep.parse_request(urlsplit(info["url"]).query))
        except AssertionError:
            raise
        except Exception as err:
            if type(err).__name__ == "Violation":
                raise
            out = Outcome(err=err)
        good = out.ok and "error" not in out.value
        require(set(cdb) - before <= {cid}, lambda: f"{where}: the server now knows the clients {set(cdb) - before}", "client-id")
        # someone who was registered explicitly remains so
        # (a server that can not tell who made a request is asked nothing by a client that is not registered)
        require(good or not ((ok and not cl.plain) or cl.registered), lambda: f"{where}: the request was refused: {out} {wire.errors}", "refused")
        require(not (good and never and not cl.registered), lambda: f"{where}: a client its superiors do not allow: {out}", "accepted")
        if not good:
            return
        got = out.value
        require(got["client_id"] == cid and cid in cdb, lambda: f"{where}: client id {got['client_id']}, should be {cid}", "client-id")
        for k, v in args.items():
            have = got.get(k)
            if k == "scope" and name == "oauth2" and isinstance(have, str):
                have = have.split(" ")
            require(as_json(have) == as_json(v) or (k == "prompt" and have == [v]), lambda: f"{where}: the server got {k} {have!r}, sent was {v!r}", "param")
        resp = ep.process_request(got)
        require("error" not in resp and "return_uri" in resp, lambda: f"{where}: {resp}", "process")
        info = ep.do_response(request=got, **resp)
        require(info["response"].split("?")[0] == args["redirect_uri"], lambda: f"{where}: answer to {info['response']}", "redirect")
        try:
            ar = svc.parse_response(urlsplit(info["response"]).query, "urlencoded", state=args["state"])
        except Exception as err:
            ar = {"error": repr(err)}
        require("error" not in ar and ar["state"] == args["state"] and "code" in ar, lambda: f"{where}: the client does not understand {info['response']}: {ar}", "response")
        if not cl.registered and not cl.half:
            require(ar.get("trust_anchor_id") in cl.anchors, lambda: f"{where}: trust anchor {ar.get('trust_anchor_id')}", "trust-anchor")
        if not exchange:
            return
        svc.update_service_context(ar, key=args["state"])
        tok = {"code": ar["code"], "redirect_uri": args["redirect_uri"], "grant_type": "authorization_code"}
        method = "client_secret_post" if cl.registered else "private_key_jwt"
        try:
            r = cl.ent[et].do_request("accesstoken", state=args["state"], request_args=tok, authn_method=method)
        except Exception as err:
            r = {"error": repr(err)}
        require("error" not in r and r.get("access_token"), lambda: f"{where}: no token: {r} {wire.errors}", "token")
        if name == "oidc":
            idt = payload_of(r["id_token"]) if isinstance(r["id_token"], str) else dict(r["id_token"])
            require(cid in idt["aud"] and idt["iss"] == OP and ("nonce" not in args or idt.get("nonce") == args["nonce"]), lambda: f"{where}: {idt}", "id-token")

    def judge_object(cl, query, cid, args, where):
        from urllib.parse import parse_qs
        q = parse_qs(query)
        require(q.get("client_id") == [cid], lambda: f"{where}: client_id {q.get('client_id')}, should be {cid}", "client-id")
        require(len(q.get("request", [])) == 1, lambda: f"{where}: no request object: {q}", "request-object")
        p = verify_sig(q["request"][0], cl.app_jwks)
        require(p is not None, lambda: f"{where}: the request object is not signed with a key of the client", "request-object")
        require(p["client_id"] == cid and p["iss"] == cid and "jti" in p, lambda: f"{where}: request object {p}", "request-object")
        require(p["iat"] < p["exp"] <= p["iat"] + 300, lambda: f"{where}: request object {p}", "request-object")
        for k, v in q.items():
            require(k == "request" or as_json(p.get(k)) == as_json(v[0]), lambda: f"{where}: {k} is {v} outside and {p.get(k)} in the request object", "request-object")

    def pushed(cl, svc, server, ep, args, wire):
        """RFC 9126: the request is left at the server by the authenticated client; the browser only brings the reference"""
        from idpyoidc.message.oauth2 import AuthorizationRequest
        ra = AuthorizationRequest(client_id=cl.cid, **args)
        svc.get_headers(ra, http_method="POST", authn_method="private_key_jwt")
        answer = R.serve(server.get_endpoint("pushed_authorization"), "POST", None, ra.to_urlencoded(), wire.errors)[2]
        if not isinstance(answer, dict) or "request_uri" not in answer:
            return {"error": answer}
        return ep.parse_request(urlencode({"client_id": cl.cid, "response_type": args["response_type"], "request_uri": answer["request_uri"]}))

    ctx.prop(name, federation, history, 220, rule="a client that its superiors allow registered or asked for authorization")


def tried(fn, *args, **kw):
    try:
        return Outcome(fn(*args, **kw))
    except Exception as err:
        return Outcome(err=err)


session = st.fixed_dictionaries({"kind": st.sampled_from([0, 1, 2, None])}, optional={"scope": st.sampled_from([["openid"], ["openid", "email"]]), "login_hint": st.sampled_from(TEXT), "max_age": st.just(3600),
                                             "ui_locales": st.just(["sv", "en"]), "response_mode": st.just("form_post"), "second": st.booleans(), "extra_param": st.sampled_from(TEXT)})
offline = st.just({"scope": ["openid", "offline_access"], "prompt": ["consent"]})
use = weighted((3, st.tuples(st.just("begin"), session)), (1, st.tuples(st.just("begin"), offline)),
               (5, st.tuples(st.just("answer"), st.integers(0, 3), st.sampled_from(["as it is"] * 5 + ["denied", "unknown state", "other state", "no code", "other server", "other client"]))),
               (2, st.tuples(st.just("wait"), st.sampled_from([1, 100, 280, 1000, 3500, 3700, DAY]))),
               (2, st.tuples(st.just("until"), st.integers(0, 3), st.sampled_from(["id_token", "token"]), st.sampled_from([-2, -1, 0, 1, 3]))),
               (1, st.just(("again",))), (1, st.tuples(st.just("clear"), st.integers(0, 3))),
               (1, st.tuples(st.just("refresh"), st.integers(0, 3))),
               (1, st.tuples(st.just("userinfo"), st.integers(0, 3))))
whole = st.tuples(weighted((1, session), (2, offline)), st.sampled_from([0, 0, 100, 3599, 3600, 5000]), st.booleans(), st.sampled_from([1, 3601])).map(
    lambda x: [("begin", x[0]), ("answer", -1, "as it is"), ("wait", x[1]), ("refresh", -1), ("wait", x[3]), ("userinfo", -1)] + ([("clear", -1)] if x[2] else []))
uses = st.lists(weighted((4, use.map(lambda o: [o])), (1, whole)), min_size=2, max_size=8).map(lambda x: [o for y in x for o in y])
site = st.fixed_dictionaries({"op": st.integers(0, 6), "client": client, "types": st.sampled_from([["automatic"], ["explicit"], ["explicit"], ["automatic", "explicit"]]),
                              "priority": st.sampled_from([[], [TA, TA2], [TA2, TA], [TA2], ["https://other.example.org", TA2, TA]]),
                              "alias": st.sampled_from([None] * 20 + ["https://other-op.example.org", OP + "/", "https://op.example.org.evil.example.net"]),
                              "both": st.booleans(), "ops": uses,
                              "modes": st.sampled_from([None] * 4 + [["form_post"], ["query", "fragment"], ["form_post", "query"]]),
                              "kinds": st.sampled_from([None] * 2 + [["code"], ["id_token"], ["code id_token"], ["code", "id_token"], ["id_token", "code id_token"], ["code", "id_token token"], ["id_token token", "code"],
                                                                     ["code id_token token", "id_token", "code"], ["code id_token", "id_token"], ["code id_token", "code"]])})


def standalone(ctx):
    """the client of the deployments: the whole of it is driven through its own interface"""
    def history(case):
        with world() as (clock, net):
            c = case["client"]
            anchors = {t: jwks(RSA[i]) for i, t in enumerate([TA, TA2])}
            ents = {t: entity(t, i, trust_anchors=anchors, endpoints=ENDPOINTS) for i, t in enumerate([TA, TA2])}
            anchors = {t: R.own_jwks(ents[t]) for t in (TA, TA2)}
            paths = [PATHS[case["op"]], PATHS[c["path"]]] + ([PATHS[0], PATHS[5]] if case["both"] else [])
            hints = {}
            for sub, p in zip([OP, RP, OP, OP], paths):
                for a, b in zip([sub] + p, p):
                    if b not in hints.setdefault(a, []):
                        hints[a].append(b)
            for n, i in enumerate((IM, IM2)):
                ents[i] = entity(i, 2 + n, trust_anchors=anchors, endpoints=ENDPOINTS, authority_hints=hints.get(i, []))
            people = {"diana": {"name": "Diana å", "email": "diana@example.org"}}
            ents[OP] = make_op("oidc", "openid_provider", anchors, hints[OP], {"userinfo": {"class": "idpyoidc.server.user_info.UserInfo", "kwargs": {"db": people}}})
            auto = case["types"] == ["automatic"]
            pref = {"client_registration_types": list(case["types"]),
                    "token_endpoint_auth_methods_supported": ["private_key_jwt"] if auto else ["client_secret_post"]}
            if c["name"]:
                pref["client_name"] = c["name"]
            # (the server of the framework looks for the registered response types under another name, so it is helped below;
            # nothing does that when it registers a client on its own)
            kinds = None if auto else case["kinds"]
            modes = case["modes"]
            if modes:
                pref["response_modes_supported"] = list(modes)
            if kinds:
                pref["response_types_supported"] = list(kinds)
            ents[RP] = R.rp(RP, 5, cli_key=8 if c["own_keys"] else None, anchors=anchors, authority_hints=hints[RP],
                            cls="fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
                            config={"redirect_uris": [f"{RP}/cb", f"{RP}/cb2"][:1 + c["two_uris"]], "preference": pref, "authorization_request_endpoints": ["authorization_endpoint"],
                                    "client_authn_methods": ["private_key_jwt", "client_secret_post"]})
            R.fed_entity(ents[RP]).context.tr_priority = list(case["priority"])
            configure_marks(R.fed_entity(ents[RP]).context, RP, c["marks"])
            for sub, sups in hints.items():
                for s in sups:
                    R.register(ents[s], ents[sub], **({"intermediate": True} if sub in (IM, IM2) else {}))
            path = [RP] + PATHS[c["path"]]
            level = min(c["level"], len(path) - 2)
            if c["policy"]:
                R.fed_entity(ents[path[level + 1]]).server.policy[path[level]] = {"metadata_policy": {"openid_relying_party": copy.deepcopy(c["policy"])}}
            wire = R.Wire(*ents.values())
            net.add(wire)
            cl, op = ents[RP]["openid_relying_party"], ents[OP]["openid_provider"]
            ep = op.get_endpoint("authorization")
            own = payload_of(R.fed_entity(ents[RP]).get_endpoint("entity_configuration").process_request({})["response"])["metadata"]
            ways = [x for x in hint_paths(hints, RP) if x[-1] in (TA, TA2)]
            resolved = [pm.resolve_model([statement(ents, s, u) for u, s in zip(x, x[1:])][::-1], copy.deepcopy(own)) for x in ways]
            ok = all(m is not None and pm.OPEN not in m.values() and "openid_relying_party" in m for m in resolved)
            never = all(m is None for m in resolved)
            theirs = {x[-1] for x in hint_paths(hints, OP)} & {TA, TA2}
            if not auto:
                ok = ok and {x[-1] for x in ways} <= theirs
            cl.context.issuer = OP
            if case["alias"]:   # all that vouch for the server say that it is someone else
                for u in hints[OP]:
                    R.fed_entity(ents[u]).server.policy[OP] = {"metadata": {"openid_provider": {"issuer": case["alias"]}}}
                res = tried(cl.do_provider_info)
                require(not res.ok and not cl.context.provider_info.get("authorization_endpoint"), lambda: f"{OP} says it is {case['alias']}: {res}", "other-issuer")
                require(case["alias"] not in cl.get_attribute("keyjar").owners(), lambda: f"{OP} says it is {case['alias']}: its keys are known", "other-issuer-keys")
                ctx.label("other-issuer")
                return
            try:
                iss = cl.do_provider_info()
            except Exception as err:
                iss = err
            require(iss == OP, lambda: f"the client found no way to the server: {iss!r} {net.log[-6:]}", "provider")
            expected = [t for t in case["priority"] if t in theirs][:1] or sorted(theirs)
            anchor = R.fed_entity(ents[RP]).trust_chain_anchor
            require(anchor in expected, lambda: f"trust anchor {anchor}, priority {case['priority']}, there are chains to {sorted(theirs)}", "priority")
            out = None
            try:
                cl.do_client_registration()
            except Exception as err:
                out = err
            require(out is None or not ok, lambda: f"registration {case['types']}: {out!r} {wire.errors}", "registration")
            cdb = op.context.cdb
            if not auto:
                require((RP in cdb or out is not None) and not (never and out is None), lambda: f"registration {case['types']} gave {out!r}, known are {list(cdb)}", "registered")
                if out is not None:
                    ctx.label("standalone-refused")
                    return
                require(cl.get_client_id() in cdb, lambda: f"{cl.get_client_id()} is not known, only {list(cdb)}", "client-id")
            cid = cl.get_client_id()
            if kinds:
                require(sorted(cdb[cid].get("response_types", [])) == sorted(kinds), lambda: f"response types {kinds}, registered {cdb[cid].get('response_types')}", "response-types")
                cdb[cid]["response_types_supported"] = cdb[cid]["response_types"]
            begun = []
            for n, o in enumerate(case["ops"]):
                where = f"step {n}: {o} of {case['types']}"
                wire.errors.clear()
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "until":
                    ends = [b["done"]["id_token"]["exp"] if o[2] == "id_token" else b["until"] for b in begun if b["done"]]
                    if ends:
                        clock.advance(max(0, ends[o[1] % len(ends)] + o[3] - clock.now))
                elif o[0] == "begin":
                    args = copy.deepcopy(o[1])
                    k = args.pop("kind", None)
                    if args.pop("second", False) and c["two_uris"]:
                        args["redirect_uri"] = f"{RP}/cb2"
                    if kinds and (k is not None or "code" not in kinds):
                        args["response_type"] = kinds[(k or 0) % len(kinds)]
                    kind = args.get("response_type", "code" if "code" in (kinds or ["code"]) else kinds[0])
                    default = "query" if kind == "code" else "fragment"
                    allowed = modes or ["query", "fragment", "form_post"]
                    mode = args.get("response_mode") or (default if default in allowed else allowed[0])
                    url = tried(cl.init_authorization, req_args=args or None)
                    if mode not in allowed:
                        require(not url.ok, lambda: f"{where}: the client can not receive {mode}, only {modes}: {url}", "mode")
                        continue
                    require(url.ok, lambda: f"{where}: no request: {url}", "begin")
                    url = url.value
                    res = tried(ep.parse_request, urlsplit(url).query)
                    good = res.ok and "error" not in res.value
                    # who is registered remains so
                    require(good or not (ok or not auto), lambda: f"{where}: the request was refused: {res.value.to_dict() if res.ok else res} {url} {wire.errors}", "refused")
                    require(not (good and auto and never), lambda: f"{where}: a client its superiors do not allow: {res}", "accepted")
                    if not good:
                        continue
                    require(url.split("?")[0] == ep.full_path and res.value["client_id"] == cid, lambda: f"{where}: {url}", "url")
                    for k, v in dict({"response_type": kind}, **args).items():
                        require(as_json(res.value.get(k)) == as_json(v), lambda: f"{where}: the server got {k} {res.value.get(k)!r}, sent was {v!r}", "param")
                    require(all(b["state"] != res.value["state"] and b["nonce"] != res.value["nonce"] for b in begun), lambda: f"{where}: state or nonce used again", "state")
                    back = args.get("redirect_uri", f"{RP}/cb")
                    require(res.value["redirect_uri"] == back, lambda: f"{where}: redirect URI {res.value['redirect_uri']}, should be {back}", "redirect-uri")
                    begun.append({"back": back, "state": res.value["state"], "nonce": res.value["nonce"], "req": res.value, "done": None, "when": clock.now, "kind": kind, "mode": mode,
                                  "offline": "offline_access" in args.get("scope", []) and "code" in kind.split()})
                    ctx.nontriv([case, n])
                elif begun and o[0] == "answer":
                    finish(cl, op, ep, clock, begun, o, where, wire, cid)
                elif o[0] == "again":   # the server is known by now
                    res = tried(cl.do_provider_info)
                    require(res.ok and res.value == OP, lambda: f"{where}: {res}", "again")
                    for sname, part in (("authorization", "authorization"), ("accesstoken", "token")):
                        url = op.get_endpoint(part).full_path
                        require(cl.get_service(sname).endpoint in ("", None, url), lambda: f"{where}: {sname} at {cl.get_service(sname).endpoint}", "again")
                elif begun and o[0] == "clear":
                    # one session is forgotten, and no other
                    b = begun[o[1] % len(begun)]
                    out = tried(cl.clear_session, b["state"])
                    require(out.ok or b.get("cleared"), lambda: f"{where}: {out}", "clear")
                    b["done"], b["used"], b["cleared"] = None, True, True
                elif begun and o[0] == "refresh":
                    b = begun[o[1] % len(begun)]
                    out = tried(cl.refresh_access_token, b["state"])
                    if not b["done"]:
                        require(not out.ok, lambda: f"{where}: nothing to refresh: {out}", "refresh-nothing")
                    else:
                        require(out.ok or not b["offline"] or clock.now >= b["refreshable"], lambda: f"{where}: {out} {wire.errors}", "refresh")
                        if out.ok:
                            require(out.value["access_token"] != b["done"]["token"], lambda: f"{where}: {out}", "refresh")
                            b["done"]["token"], b["until"] = out.value["access_token"], clock.now + 3600
                            if "id_token" in out.value:
                                b["done"]["id_token"] = out.value["__verified_id_token"]
                            ctx.label("refreshed")
                elif begun:
                    b = begun[o[1] % len(begun)]
                    # (the endpoint of the framework fails when the authentication is older)
                    if b["done"] and clock.now < min(b["until"], b["refreshable"] - 3600):
                        info = cl.get_user_info(b["state"])
                        require(info["sub"] == b["done"]["id_token"]["sub"], lambda: f"{where}: {info.to_dict()}", "userinfo")
                for b in begun:
                    active = tried(cl.has_active_authentication, b["state"])
                    want = bool(b["done"] and clock.now < b["done"]["id_token"]["exp"])
                    require((active.ok and active.value == want) or (b.get("cleared") and not active.ok), lambda: f"{where}: active authentication {active}, should be {want}", "active")
                    tok = tried(cl.get_valid_access_token, b["state"])
                    if b["done"] and clock.now < b["until"]:
                        require(tok.ok and tok.value[0] == b["done"]["token"], lambda: f"{where}: valid access token {tok}", "valid-token")
                    else:
                        require(not tok.ok, lambda: f"{where}: there is no valid access token, but {tok}", "valid-token")

    def finish(cl, op, ep, clock, begun, o, where, wire, cid):
        b = begun[o[1] % len(begun)]
        if b["done"] or b.get("used") or clock.now >= b["when"] + 280:
            return
        resp = ep.process_request(b["req"])
        back = ep.do_response(request=b["req"], **resp)["response"]
        if b["mode"] != "form_post":
            require(re.split("[?#]", back)[0] == b["back"], lambda: f"{where}: the answer goes to {back}, not to {b['back']}", "redirect-uri")
        if b["mode"] == "form_post":
            answer = {k: html.unescape(v) for k, v in re.findall('name="([^"]*)" value="([^"]*)"', back)}
        else:
            answer = dict(parse_qsl(getattr(urlsplit(back), b["mode"])))
        require(answer.get("state") == b["state"], lambda: f"{where}: mode {b['mode']}: {answer} {back}", "answer")
        ctx.label("mode " + b["mode"])
        ctx.label("kind " + b["kind"])
        how = o[2]
        if how == "denied":
            answer = {"error": "access_denied", "state": b["state"]}
            r = cl.finalize(answer)
            require(r.get("error") == "access_denied" and r.get("state") == b["state"] and "token" not in r, lambda: f"{where}: {r}", "denied")
            b["used"] = True
            return
        if how == "unknown state":
            answer["state"] = answer["state"][::-1]
        elif how == "other state":
            rest = [x for x in begun if x is not b and not x["done"] and not x.get("used")]
            if not rest:
                return
            answer["state"] = rest[0]["state"]
            rest[0]["used"] = True
        elif how == "no code":
            for k in ("code", "id_token", "access_token"):
                answer.pop(k, None)
        elif how == "other server":
            answer["iss"] = "https://other.example.org"
        elif how == "other client":
            answer["client_id"] = RP2
        out = tried(cl.finalize, answer)
        if how != "as it is":
            b["used"] = True
            require(not out.ok or not (out.value.get("token") or out.value.get("id_token")), lambda: f"{where}: {out}", "forged")
            return
        token = b["kind"] != "id_token"
        require(out.ok and bool(out.value.get("token")) == token, lambda: f"{where}: {out} {wire.errors}", "finalize")
        r = out.value
        idt = r["id_token"]
        require(r["state"] == b["state"] and r["issuer"] == OP and idt["nonce"] == b["nonce"] and cid in idt["aud"], lambda: f"{where}: {r}", "result")
        require(r["userinfo"]["sub"] == idt["sub"], lambda: f"{where}: {r}", "result")
        require(RP in op.context.cdb or cid in op.context.cdb, lambda: f"{where}: {list(op.context.cdb)}", "client-id")
        b["done"], b["until"], b["refreshable"] = r, clock.now + 3600 if token else 0, clock.now + 7200

    ctx.prop("standalone", site, history, 240, rule="a session was begun")


def marks_of(cid, kind):
    return [one_mark(cid, n) for n in range(2)] if kind not in (None, "empty") else []


@functools.cache
def one_mark(cid, n):
    return sign({"iss": TA, "sub": cid, "id": f"https://marks.example.org/{n}", "iat": 1}, EC[20])


def configure_marks(context, cid, kind):
    """the trust marks of an entity are a list, in a file or given by a function"""
    marks = marks_of(cid, kind)
    if kind in ("list", "empty"):
        context.trust_marks = marks
    elif kind == "function":
        context.trust_marks = lambda: list(marks)
    elif kind == "file":
        name = os.path.abspath(f"marks-{len(cid)}.json")     # a check runs in a scratch directory
        with open(name, "w") as fp:
            json.dump(marks, fp)
        context.trust_marks = name


def as_json(v):
    if isinstance(v, list) and v and all(isinstance(x, str) for x in v):
        v = " ".join(v)
    if hasattr(v, "to_dict"):
        v = v.to_dict()
    if isinstance(v, dict):
        return json.dumps(v, sort_keys=True)
    return str(v)


def statement(ents, sup, sub):
    p = R.serve(R.fed_entity(ents[sup]).get_endpoint("fetch"), "GET", {"iss": sup, "sub": sub})
    return payload_of(p[2])


def hint_paths(hints, sub):
    res, todo = [], [(sub,)]
    while todo:
        p = todo.pop()
        ups = hints.get(p[-1], [])
        if not ups:
            res.append(p)
        todo += [p + (u,) for u in ups if u not in p]
    return res


class Client(object):
    def __init__(self, cid, ent, n):
        self.cid, self.ent = cid, ent
        self.fe = ent["federation_entity"]
        self.registered = None
        self.half = False       # the server knows the client, which did not accept the answer
        self.anchors = [TA, TA2]

    def know(self, metadata, sg, et):
        """what an application does"""
        context = self.ent[et].context
        context.issuer = OP
        context.server_metadata = metadata
        self.fe.client.context.server_metadata = metadata
        context.provider_info = metadata[sg]
        self.app_jwks = self.ent[et].keyjar.export_jwks()
        if "jwks" in metadata[sg]:
            keyjar = self.ent[et].keyjar
            if OP not in keyjar.owners():
                keyjar.import_jwks(metadata[sg]["jwks"], OP)
        self.uris = context.claims.get_preference("redirect_uris") or context.claims.get_usage("redirect_uris")
