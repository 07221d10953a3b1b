"""C10: the entity configuration an entity publishes is what it is configured to be: verifiable with the
keys it contains, naming exactly its endpoints, and free of secrets."""
import copy
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

import realfed as R
from realfed import judge_ec, norm, secrets_in
from fedlib import DAY, EC, NOW, RSA, entity, header_of, jwks, payload_of, rotate, rsa_file, sign, verify_sig, world
from vf import attempt, require

EID = "https://e.example.org"
TA = "https://ta.example.org"
CLAIM = {"fetch": "federation_fetch_endpoint", "list": "federation_list_endpoint", "resolve": "federation_resolve_endpoint",
         "trust_mark_status": "federation_trust_mark_status_endpoint", "trust_mark": "federation_trust_mark_endpoint",
         "trust_mark_list": "federation_trust_mark_list_endpoint"}
PREFS = {"organization_name": "Örg & co", "contacts": ["a@example.org", "b@example.org"], "homepage_uri": "https://e.example.org/",
         "trust_mark_issuers": {"https://m.example.org/1": ["https://tmi.example.org"]},
         "trust_mark_owners": {"https://m.example.org/1": {"sub": "https://o.example.org", "jwks": {"keys": []}}}}
MARKS = [{"id": "https://m.example.org/1", "trust_mark": "a.b.c"}, {"id": "https://m.example.org/2", "trust_mark": "d.e.f"},
         {"id": "https://m.example.org/1", "trust_mark": "g.h.i"}]
HINTS = ["https://ta.example.org", "https://im.example.org", "https://im.example.org/tenant"]
forms = st.sampled_from(["list", "file", "callable"])


def run(ctx):
    ctx.assumptions += ["the entity has an RSA key", "an empty list of hints or trust marks may be left out"]

    def one_entity(case):
        tmp = tempfile.mkdtemp(prefix="vf-c10-")
        try:
            def form(how, val, name):
                if how == "file":
                    fn = os.path.join(tmp, name)
                    with open(fn, "w") as fp:
                        json.dump(val, fp)
                    return fn
                if how == "callable":
                    return lambda: list(val)
                return val

            with world() as (clock, net):
                hints, marks = list(case["hints"]), [MARKS[i] for i in case["marks"]]
                keyfile = os.path.join(tmp, "keys.json")
                keys = [RSA[case["key"]]] + [EC[i] for i in case["more_keys"]]
                with open(keyfile, "w") as fp:
                    json.dump({"keys": [dict(k) for k in keys]}, fp)
                kw = {}
                if case["tme"]:
                    from fedservice.defaults import federation_endpoints
                    kw["trust_mark_entity"] = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
                        "trust_mark_specification": {"https://m.example.org/x": {}},
                        "endpoint": federation_endpoints(*case["tme"])}}
                marks_conf = form(case["mform"], marks, "marks")
                if case["marks_late"]:
                    kw.pop("trust_marks", None)
                elif marks:
                    kw["trust_marks"] = marks_conf
                hints_conf = form(case["hform"], hints, "hints")
                prefs = {k: copy.deepcopy(PREFS[k]) for k in case["prefs"]}
                fe = entity(EID, key_config={"private_path": keyfile, "key_defs": "", "read_only": True},
                            preference=prefs, endpoints=["entity_configuration"] + case["endpoints"],
                            authority_hints=hints_conf, trust_anchors={TA: jwks(EC[23])}, **kw)
                if case["marks_late"] and marks:
                    fe.context.trust_marks = marks_conf
                peer = entity("https://peer.example.org", 5, {TA: jwks(EC[23])})
                wire = R.Wire(fe)
                net.add(wire)
                want_md = copy.deepcopy(prefs)
                for n in case["endpoints"] + case["tme"]:
                    want_md[CLAIM[n]] = f"{EID}/{n}"
                for step in [None] + case["steps"]:
                    if step is None:
                        pass
                    elif step[0] == "hint":
                        if step[1] in hints:
                            hints.remove(step[1])
                        else:
                            hints.append(step[1])
                        if case["hform"] == "file":
                            form("file", hints, "hints")
                        elif case["hform"] == "list":
                            fe.context.authority_hints = hints
                    elif step[0] == "mark":
                        if not marks:
                            continue
                        if MARKS[step[1]] in marks and len(marks) > 1:
                            marks.remove(MARKS[step[1]])
                        else:
                            marks.append(MARKS[step[1]])
                        if case["mform"] == "file":
                            form("file", marks, "marks")
                        elif case["mform"] == "list":
                            fe.context.trust_marks = marks
                    elif step[0] == "rotate":
                        keys = [RSA[(case["key"] + step[1]) % 10]] + keys[:step[2]]
                        rotate(fe, *keys)
                    elif step[0] == "wait":
                        clock.advance(step[1])
                    out = attempt(peer.client.get_service("entity_configuration").get_request_parameters,
                                  request_args={"entity_id": EID})
                    import requests
                    r = requests.request("GET", f"{EID}/.well-known/openid-federation")
                    require(r.status_code == 200 and not wire.errors, lambda: f"status {r.status_code}: {r.text} {wire.errors}", "raise")
                    require("application/entity-statement+jwt" in r.headers.get("content-type", ""),
                            lambda: f"content type {r.headers.get('content-type')}", "content-type")
                    p = judge_ec(r.text, EID, keys, (clock.now,))
                    md = p.get("metadata", {})
                    require(set(md) == {"federation_entity"}, lambda: f"entity types {set(md)}", "metadata")
                    got_md = {k: v for k, v in md["federation_entity"].items() if not (k.endswith("auth_methods") or k == "jwks")}
                    require(got_md == want_md, lambda: f"metadata {got_md}, configured {want_md}", "metadata")
                    if hints or "authority_hints" in p:
                        require(p.get("authority_hints") == hints, lambda: f"hints {p.get('authority_hints')}, configured {hints}", "hints")
                    if marks or "trust_marks" in p:
                        require(p.get("trust_marks") == marks, lambda: f"marks {p.get('trust_marks')}, configured {marks}", "marks")
                    extra = set(p) - {"iss", "sub", "iat", "exp", "jwks", "metadata", "authority_hints", "trust_marks", "jti"}
                    require(not extra, lambda: f"unexpected members {extra}", "content")
                    # another entity accepts it
                    out = attempt(peer.function.trust_chain_collector.get_entity_configuration, EID)
                    require(out.ok and out.value == r.text, lambda: f"not retrieved by a peer: {out}", "peer")
                    out = attempt(peer.function.trust_chain_collector.get_metadata, EID)
                    require(out.ok and out.value and out.value.get("federation_entity") == md["federation_entity"],
                            lambda: f"peer does not see the metadata: {out}", "peer")
                if case["steps"] or case["endpoints"] or case["tme"]:
                    ctx.nontriv()
                ctx.label(f"hints-{case['hform']}", f"marks-{case['mform']}", f"endpoints-{len(case['endpoints'] + case['tme'])}")
        finally:
            shutil.rmtree(tmp)

    steps = st.one_of(st.tuples(st.just("hint"), st.sampled_from(HINTS)), st.tuples(st.just("mark"), st.integers(0, 2)),
                      st.tuples(st.just("wait"), st.sampled_from([1, 1000, 2 * DAY])),
                      st.tuples(st.just("rotate"), st.integers(1, 9), st.sampled_from([0, 0, 1])))
    ctx.prop("entity", st.fixed_dictionaries({
        "key": st.integers(0, 9), "more_keys": st.lists(st.integers(0, 6), max_size=2, unique=True),
        "endpoints": st.lists(st.sampled_from(["fetch", "list", "resolve"]), unique=True),
        "tme": st.lists(st.sampled_from(["trust_mark", "trust_mark_list", "trust_mark_status"]), unique=True),
        "prefs": st.lists(st.sampled_from(sorted(PREFS)), min_size=1, unique=True),
        "hints": st.lists(st.sampled_from(HINTS), unique=True), "marks": st.lists(st.integers(0, 2), max_size=3, unique=True),
        "hform": forms, "mform": forms, "marks_late": st.booleans(), "steps": st.lists(steps, max_size=5)}),
        one_entity, 400, rule="an entity with endpoints of its own, or whose configuration changes over time")

    def combo(case):
        with world() as (clock, net):
            kw = {"anchors": {TA: jwks(EC[23])}, "authority_hints": case["hints"], "endpoints": ["entity_configuration"] + case["endpoints"]}
            guise, key, conf = case["guise"], case["key"], {}
            eid = EID + case["path"]
            if guise in ("openid_relying_party", "oauth_client"):
                conf["redirect_uris"] = [eid + p for p in case["redirects"]]
                ck = case["cli_key"]
                e = R.rp(eid, key, ck, conf, guise, **kw)
            else:
                ck = key
                conf["preference"] = {"scopes_supported": case["scopes"]}
                e = R.op(eid, key, conf, guise, **kw)
            fe = R.fed_entity(e)
            marks = [MARKS[i] for i in case["marks"]]
            if marks:
                fe.context.trust_marks = list(marks)
            wire = R.Wire(e)
            net.add(wire)
            hints, keys, shared = list(case["hints"]), [RSA[key]], e.keyjar is fe.keyjar
            for n, change in enumerate([None] + case["changes"]):
                clock.advance(100)
                if change == "hint":
                    hints = fe.context.authority_hints = [h for h in HINTS if h not in hints]
                elif change == "mark":
                    marks = fe.context.trust_marks = [m for m in MARKS if m not in marks]
                elif change == "rotate" and not shared:
                    keys = [RSA[(key + 5 + n) % 10]]
                    rotate(fe, *keys)
                    ctx.label("rotated")
                out = attempt(fe.get_endpoint("entity_configuration").process_request, {})
                require(out.ok and isinstance(out.value, dict), lambda: f"no entity configuration: {out}", "raise")
                p = judge_ec(out.value["response"], eid, keys, (clock.now,))
                md = p["metadata"]
                require(set(md) == {"federation_entity", guise}, lambda: f"entity types {set(md)}", "metadata")
                m = md[guise]
                if "jwks" in m:
                    pubs = norm(jwks(RSA[ck], RSA[key]))
                    require(m["jwks"]["keys"] and all(k in pubs for k in norm(m["jwks"])), lambda: f"keys of {guise}: {m['jwks']}", "metadata")
                    require(norm(jwks(RSA[ck]))[0] in norm(m["jwks"]), lambda: f"keys of {guise}: {m['jwks']}", "metadata")
                if "redirect_uris" in conf:
                    require(sorted(m.get("redirect_uris") or []) == sorted(conf["redirect_uris"]), lambda: f"redirect_uris {m.get('redirect_uris')}", "metadata")
                    if guise == "openid_relying_party":
                        require(m.get("client_registration_types") == ["automatic", "explicit"], lambda: f"{m}", "metadata")
                else:
                    require(m.get("issuer") == eid, lambda: f"issuer {m.get('issuer')}", "metadata")
                    require(sorted(m.get("scopes_supported") or []) == sorted(case["scopes"]), lambda: f"scopes {m.get('scopes_supported')}", "metadata")
                    for c, name in (("authorization_endpoint", "authorization"), ("token_endpoint", "token")):
                        require(m.get(c) == f"{eid}/{name}", lambda: f"{c} {m.get(c)}", "metadata")
                    require(m.get("federation_registration_endpoint") == f"{eid}/registration",
                            lambda: f"federation_registration_endpoint {m.get('federation_registration_endpoint')}", "metadata")
                require(p.get("authority_hints", []) == hints, lambda: f"hints {p.get('authority_hints')}, configured {hints}", "hints")
                require(p.get("trust_marks", []) == marks, lambda: f"marks {p.get('trust_marks')}", "marks")
                f = md["federation_entity"]
                require({k: v for k, v in f.items() if k.endswith("_endpoint")} == {CLAIM[n]: f"{eid}/{n}" for n in case["endpoints"]},
                        lambda: f"endpoints {f}", "metadata")
            ctx.nontriv()
            ctx.label(guise)

    ctx.prop("combo", st.fixed_dictionaries({
        "guise": st.sampled_from(["openid_relying_party", "oauth_client", "openid_provider", "oauth_authorization_server"]),
        "key": st.integers(0, 4), "cli_key": st.integers(0, 4), "path": st.sampled_from(["", "/tenant1", "/a/b"]),
        "redirects": st.lists(st.sampled_from(["/cb", "/cb2", "/x/cb"]), min_size=1, unique=True),
        "scopes": st.lists(st.sampled_from(["openid", "email", "x"]), min_size=1, unique=True),
        "marks": st.lists(st.integers(0, 2), max_size=2, unique=True),
        "hints": st.lists(st.sampled_from(HINTS), unique=True), "changes": st.lists(st.sampled_from(["hint", "mark", "rotate", None]), max_size=4),
        "endpoints": st.lists(st.sampled_from(["fetch", "list", "resolve"]), unique=True)}), combo, 500,
        rule="an entity that is also a relying party, OAuth client, OpenID provider or authorization server")
