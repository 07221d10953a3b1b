"""C23: what is signed in a client's name is judged by the keys its verified metadata states, or points at."""
import copy
import json
from urllib.parse import parse_qs, urlsplit

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
import regfed as G
from fedlib import DAY, EC, payload_of, pub, sign, world
from vf import Outcome, attempt, require

URIS = ["https://rp.example.org/jwks.json", "https://keys.example.net/rp", "https://rp2.example.com/app/jwks", "https://keys.example.net/sup"]
SIGNED = "https://keys.example.net/signed"
SLOTS = [30, 31, 32, 33]
CACHED = 300          # how long a served key set may be remembered
OUT = ["404", "500", "conn", "html", "empty"]

keyset = st.lists(st.sampled_from(SLOTS), min_size=1, max_size=2, unique=True)
stated = st.fixed_dictionaries({"mode": weighted((3, st.just("jwks")), (6, st.just("uri")), (1, st.just("both")), (1, st.just("signed")), (1, st.just("none"))),
                                "slots": keyset, "uri": st.integers(0, 2)})
ask = st.tuples(st.just("ask"), st.fixed_dictionaries({
    "who": st.sampled_from([0, 0, 1]), "slot": weighted((8, st.just("own")), (2, st.sampled_from(SLOTS)), (1, st.sampled_from([G.BAD_KEY, 34]))), "v": st.integers(0, 3),
    "explicit": st.booleans()}))
rotate = st.tuples(st.just("rotate"), st.integers(0, 3), keyset)
down = st.tuples(st.just("down"), st.integers(0, 3), st.sampled_from(OUT + [None, None]))
wait = st.tuples(st.just("wait"), st.sampled_from([1, 100, 299, 302, 302, 700, 4000]))
op = weighted((8, ask), (2, rotate), (1, down), (2, wait), (1, st.tuples(st.just("reg"), st.integers(0, 1))), (1, st.tuples(st.just("meta"), st.integers(0, 1), stated)))


def explicit_then(x):
    who, v, new, uri, rest = x
    a = {"who": who, "slot": "own", "v": v, "explicit": True}
    return [("reg", who), ("ask", dict(a)), ("rotate", uri, new), ("wait", 302), ("ask", dict(a))] + rest


def changed_then(x):
    who, v, m, rest = x
    a = {"who": who, "slot": "own", "v": v, "explicit": False}
    return [("ask", dict(a)), ("meta", who, m), ("ask", dict(a))] + rest


sequences = weighted((1, st.tuples(st.integers(0, 1), st.integers(0, 3), stated, st.lists(op, max_size=3)).map(changed_then)), (4, st.lists(op, min_size=2, max_size=9)),
                     (1, st.tuples(st.integers(0, 1), st.integers(0, 3), keyset, st.integers(0, 2), st.lists(op, max_size=3)).map(explicit_then)))


def statement(et):
    return weighted((9, st.just({})), (1, st.sampled_from([
        {"metadata": {et: {"jwks_uri": URIS[3]}}}, {"metadata_policy": {et: {"jwks_uri": {"value": URIS[3]}}}},
        {"metadata_policy": {et: {"jwks_uri": {"default": URIS[3]}}}}, {"metadata_policy": {et: {"jwks_uri": {"one_of": URIS[:2]}}}},
        {"metadata_policy": {et: {"jwks_uri": {"essential": True}}}}, {"metadata": {et: {"jwks": {"keys": [pub(EC[G.SUP_KEY])]}}}}])))


def run(ctx):
    ctx.assumptions += ["a key set that is served at a jwks_uri may be remembered for five minutes, and keys that it no longer contains may still be accepted",
                        "the content of a signed_jwks_uri is not used", "with both jwks and jwks_uri in the metadata either may be used"]
    for name, et in (("oidc", "openid_relying_party"), ("oauth2", "oauth_client"), ("par", "oauth_client")):
        prop(ctx, name, et)
    provider(ctx)


class Keys(object):
    """what the clients say their keys are, and what is served where"""

    def __init__(self, case, fed):
        self.fed, self.same = fed, case["same_kid"]
        self.served = [[(fed.clock.now - 10 * DAY, list(s), None)] for s in case["served"]]
        self.metas = {x: [] for x in G.LEAVES}

    def jwk(self, slot):
        return dict(EC[slot], kid="k") if self.same and slot != G.SUP_KEY else EC[slot]

    def jwks(self, slots):
        return {"keys": [pub(self.jwk(s)) for s in slots]}

    def sign(self, payload, slot):
        return JWS(json.dumps(payload), alg="ES256").sign_compact([key_from_jwk_dict(self.jwk(slot))])

    def set_meta(self, leaf, m, et):
        md = G.metadata(et, {"redirect_uris": ["https://rp.example.org/cb"], "keys": 30}, ())
        del md[et]["jwks"]
        if et == "openid_provider":
            md[et] = {"issuer": leaf, "authorization_endpoint": f"{leaf}/authorization", "token_endpoint": f"{leaf}/token", "userinfo_endpoint": f"{leaf}/userinfo", "response_types_supported": ["code"],
                      "client_registration_types_supported": ["automatic"], "subject_types_supported": ["public"], "id_token_signing_alg_values_supported": ["ES256"],
                      "token_endpoint_auth_methods_supported": ["private_key_jwt"], "request_authentication_methods_supported": {"authorization_endpoint": ["request_object"]}}
        if m["mode"] in ("jwks", "both"):
            md[et]["jwks"] = self.jwks(m["slots"])
        if m["mode"] in ("uri", "both"):
            md[et]["jwks_uri"] = URIS[m["uri"]]
        if m["mode"] == "signed":
            md[et]["signed_jwks_uri"] = SIGNED
        self.fed.nodes[leaf]["meta"] = md
        self.metas[leaf].append([x[et] for x in self.fed.candidates(leaf, copy.deepcopy(self.fed.meta(leaf))).values()])

    def change(self, i, slots=None, out="same"):
        t, s, o = self.served[i][-1]
        self.served[i].append((self.fed.clock.now, s if slots is None else list(slots), o if out == "same" else out))

    def handler(self, method, url, headers, body):
        if url == SIGNED:
            return 200, {"Content-Type": "application/json"}, json.dumps({"keys": [pub(EC[G.BAD_KEY])]})
        if url in URIS:
            t, s, out = self.served[URIS.index(url)][-1]
            if out:
                return self.fed.dead(out)
            return 200, {"Content-Type": "application/json"}, json.dumps(self.jwks(s))

    def at(self, uri, since=None):
        """-> keys ever served / keys that have been served all the time since"""
        i = URIS.index(uri)
        if since is None:
            return {k for t, s, out in self.served[i] for k in s}
        states = [(t, s, out) for n, (t, s, out) in enumerate(self.served[i]) if n + 1 == len(self.served[i]) or self.served[i][n + 1][0] >= since]
        res = set(SLOTS) | {G.BAD_KEY}
        for t, s, out in states:
            res &= set(s) if out is None else set()
        return res

    def slots(self, jw):
        by = {EC[i]["x"]: i for i in range(len(EC))}
        return {by[k["x"]] for k in jw["keys"]}

    def may(self, leaf):
        res = set()
        for cands in self.metas[leaf]:
            for m in cands:
                if m == pm.OPEN:
                    return set(range(len(EC)))
                if m.get("jwks_uri"):
                    res |= self.at(m["jwks_uri"])
                if m.get("jwks"):
                    res |= self.slots(m["jwks"])
        return res

    def must(self, leaf):
        res = None
        for m in self.metas[leaf][-1]:
            if m == pm.OPEN or m.get("signed_jwks_uri"):
                return set()
            here = None
            if m.get("jwks_uri"):
                here = self.at(m["jwks_uri"], self.fed.clock.now - CACHED - 1)
            if m.get("jwks"):
                here = self.slots(m["jwks"]) if here is None else here & self.slots(m["jwks"])
            res = (here or set()) if res is None else res & (here or set())
        if self.same and len(self.may(leaf)) > 1:
            return set()
        return res or set()


def prop(ctx, name, et):
    def history(case):
        with world() as (clock, net):
            fcase = dict(case["fed"], meta=[{"redirect_uris": ["https://rp.example.org/cb"], "keys": 30}] * 2, ttl=DAY, sttl=[DAY] * G.n_edges, extra=[])
            fed = G.Fed(fcase, clock, et)
            keys = Keys(case, fed)
            for leaf, m in zip(G.LEAVES, case["metas"]):
                keys.set_meta(leaf, m, et)
            srv, guise = G.server(et, fed, case["key"], **({"new_client_id": True} if case["new_id"] and name != "par" else {}))
            ent = srv[guise]
            reg = ent.get_endpoint("registration")
            ep = ent.get_endpoint("pushed_authorization" if name == "par" else "authorization")
            kj = ent.get_attribute("keyjar")
            for h in (keys.handler, R.Wire(srv), fed.handler):
                net.add(h)
            explicit = {}   # client -> [client id, are its keys what it states now?]
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "rotate":
                    keys.change(o[1], slots=o[2])
                elif o[0] == "down":
                    keys.change(o[1], out=o[2])
                elif o[0] == "meta":   # and everyone has forgotten how it was
                    leaf = G.LEAVES[o[1]]
                    keys.set_meta(leaf, o[2], et)
                    clock.advance(DAY + 1000)
                    if leaf in explicit:
                        explicit[leaf][1] = False
                elif o[0] == "reg":
                    leaf = G.LEAVES[o[1]]
                    r = attempt(lambda: reg.process_request(reg.parse_request(sign(fed.ec_payload(leaf), fed.keys(leaf)[0], {"typ": "entity-statement+jwt"}))))
                    if r.ok and isinstance(r.value, dict) and "response_msg" in r.value:
                        explicit[leaf] = [payload_of(r.value["response_msg"])["metadata"][et]["client_id"], True]
                        ctx.label("registered")
                else:
                    step(n, o[1], fed, keys, ep, kj, ent, explicit)

    def step(n, a, fed, keys, ep, kj, ent, explicit):
        leaf = G.LEAVES[a["who"]]
        cid, fresh = leaf, True
        if leaf in explicit and (a["explicit"] or explicit[leaf][0] == leaf):
            cid, fresh = explicit[leaf]
        may, must = keys.may(leaf), keys.must(leaf)
        slot = a["slot"]
        if slot == "own":
            pool = sorted(must) or sorted(may) or SLOTS
            slot = pool[a["v"] % len(pool)]
        req = {"client_id": cid, "response_type": "code", "state": "s", "scope": ["openid"], "nonce": "n", "redirect_uri": "https://rp.example.org/cb"}
        claims = {"iss": cid, "iat": int(fed.clock.now), "exp": int(fed.clock.now) + 300, "jti": f"j{n}"}
        if name == "par":
            claims.update(sub=cid, aud=[ep.full_path])
            req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
            req["client_assertion"] = keys.sign(claims, slot)
        else:
            claims.update({k: (v if k != "scope" else " ".join(v)) for k, v in req.items()}, aud=G.OP)
            req["request"] = keys.sign(claims, slot)
        try:
            r = Outcome(ep.parse_request(req))
        except Exception as err:
            r = Outcome(err=err)
        ctxt = f"step {n}: {name} {leaf} {a} slot {slot}: {r}" + (f" {r.value.to_dict()}" if r.ok and hasattr(r.value, "to_dict") else "")
        accepted = r.ok and r.value is not None and "error" not in r.value and "response_type" in r.value
        chains = fed.paths(leaf) and keys.metas[leaf][-1]
        for x in {leaf, cid}:
            have = G.client_keys(kj, x)
            right = {EC[i]["x"] for i in may}
            require(have <= right, lambda: f"keys held for {x}: {have - right} are not its own; {ctxt}", "foreign-keys")
        if accepted:
            require(slot in may, lambda: f"accepted with a key that is not the client's, whose keys are {may}; {ctxt}", "foreign-key-accepted")
        ways = chains and fresh and (cid == leaf or leaf in explicit)
        # who has been registered with keys the server could not get at does not get better ones until it is there again
        if ways and slot in must:
            require(accepted, lambda: f"refused although {slot} is a key of the client; {ctxt}", "own-key-refused")
        m = keys.metas[leaf][-1][0] if chains else {}
        kind = "none" if not chains or m == pm.OPEN else "+".join(c for c in ("jwks", "jwks_uri", "signed_jwks_uri") if m.get(c)) or "none"
        if accepted and "jwks_uri" in kind:
            ctx.nontriv([keys.served, keys.metas, n, slot, len(keys.metas[leaf])])
        ctx.label(f"{kind}-accepted" if accepted else f"{kind}-refused", *(["rotated-accepted"] if accepted and "jwks_uri" in kind and m.get("jwks_uri") in URIS and len(keys.served[URIS.index(m["jwks_uri"])]) > 1 else []),
                  *(["explicit-accepted"] if accepted and leaf in explicit and explicit[leaf][0] == cid else []))

    case = st.fixed_dictionaries({
        "key": st.integers(0, 4), "new_id": weighted((2, st.just(False)), (1, st.just(True))), "same_kid": weighted((5, st.just(False)), (1, st.just(True))),
        "fed": st.fixed_dictionaries({"anchors": st.sampled_from([2, 2, 1]), "edges": st.sampled_from(G.SHAPES[:9]),
                                      "stmts": st.lists(statement(et), min_size=G.n_edges, max_size=G.n_edges)}),
        "metas": st.lists(stated, min_size=2, max_size=2), "served": st.lists(keyset, min_size=4, max_size=4),
        "ops": sequences})
    ctx.prop(name, case, history, 600, rule="distinct request accepted with a key from a jwks_uri")


def provider(ctx):
    """the same for what a provider signs, with the client of the deployments"""
    et = "openid_provider"

    def history(case):
        with world() as (clock, net):
            fcase = dict(case["fed"], meta=[{"redirect_uris": ["https://rp.example.org/cb"], "keys": 30}] * 2, ttl=DAY, sttl=[DAY] * G.n_edges, extra=[])
            fed = G.Fed(fcase, clock, et)
            keys = Keys(case, fed)
            for leaf, m in zip(G.LEAVES, case["metas"]):
                keys.set_meta(leaf, m, et)
            clients = {}
            for n, leaf in enumerate(G.LEAVES):
                cid = f"https://client{n}.example.org"
                clients[leaf] = R.rp(cid, 5 + n, cli_key=8, anchors=fed.anchors(), authority_hints=[fed.known[0]],
                                     cls="fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
                                     config={"redirect_uris": [f"{cid}/cb"], "client_authn_methods": ["private_key_jwt"], "authorization_request_endpoints": ["authorization_endpoint"],
                                             "preference": {"client_registration_types": ["automatic"], "id_token_signed_response_alg": "ES256",
                                                            "token_endpoint_auth_methods_supported": ["private_key_jwt"]}})
                clients[leaf]["openid_relying_party"].context.issuer = leaf
            answer = {}

            def tokens(method, url, headers, body):
                if url.endswith("/token"):
                    return 200, {"Content-Type": "application/json"}, json.dumps(answer)
                if url.endswith("/userinfo"):
                    return 200, {"Content-Type": "application/json"}, json.dumps({"sub": "diana"})
            for h in (keys.handler, tokens, fed.handler):
                net.add(h)
            met = set()
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "rotate":
                    keys.change(o[1], slots=o[2])
                elif o[0] == "down":
                    keys.change(o[1], out=o[2])
                elif o[0] == "meta":   # and the client looks again
                    leaf = G.LEAVES[o[1]]
                    keys.set_meta(leaf, o[2], et)
                    clock.advance(DAY + 1000)
                    met.discard(leaf)
                    clients[leaf]["openid_relying_party"].context.provider_info = {}
                elif o[0] == "ask":
                    step(n, o[1], fed, keys, clients, answer, met)

    def step(n, a, fed, keys, clients, answer, met):
        leaf = G.LEAVES[a["who"]]
        cl = clients[leaf]["openid_relying_party"]
        kj = cl.get_attribute("keyjar")
        may, must = keys.may(leaf), keys.must(leaf)
        chains = fed.paths(leaf) and keys.metas[leaf][-1]
        ctxt = f"step {n}: {leaf} {a}"
        if leaf not in met:
            r = attempt(lambda: cl.do_provider_info())
            require(r.ok or not chains, lambda: f"no provider info; {ctxt}: {r}", "provider")
            require(chains or not r.ok, lambda: f"provider info without chain; {ctxt}: {r}", "provider")
            if not r.ok:
                ctx.label("provider-unknown")
                return
            cl.do_client_registration()
            met.add(leaf)
        slot = a["slot"]
        if slot == "own":
            pool = sorted(must) or sorted(may) or SLOTS
            slot = pool[a["v"] % len(pool)]
        q = {k: v[0] for k, v in parse_qs(urlsplit(cl.init_authorization()).query).items()}
        if "request" in q:
            q.update(payload_of(q["request"]))
        now = int(fed.clock.now)
        cid = cl.get_client_id()
        idt = {"iss": leaf, "sub": "diana", "aud": [cid], "iat": now, "exp": now + 300, "nonce": cl.context.cstate.get(q["state"]).get("nonce")}
        answer.clear()
        answer.update({"access_token": "a", "token_type": "bearer", "expires_in": 3600, "id_token": keys.sign(idt, slot)})
        try:
            r = Outcome(cl.finalize({"code": "c", "state": q["state"]}))
        except Exception as err:
            r = Outcome(err=err)
        ctxt += f" slot {slot}: {r}"
        accepted = r.ok and bool(r.value.get("token") or r.value.get("id_token"))
        have = G.client_keys(kj, leaf)
        require(have <= {EC[i]["x"] for i in may}, lambda: f"keys held for {leaf} that are not its own; {ctxt}", "foreign-keys")
        if accepted:
            require(slot in may, lambda: f"accepted with a key that is not the provider's, whose keys are {may}; {ctxt}", "foreign-key-accepted")
        if chains and slot in must:
            require(accepted, lambda: f"refused although {slot} is a key of the provider; {ctxt}", "own-key-refused")
        m = keys.metas[leaf][-1][0] if chains else {}
        kind = "none" if not chains or m == pm.OPEN else "+".join(c for c in ("jwks", "jwks_uri", "signed_jwks_uri") if m.get(c)) or "none"
        if accepted and "jwks_uri" in kind:
            ctx.nontriv([keys.served, keys.metas, n, slot])
        ctx.label(f"{kind}-accepted" if accepted else f"{kind}-refused")

    case = st.fixed_dictionaries({
        "same_kid": weighted((5, st.just(False)), (1, st.just(True))),
        "fed": st.fixed_dictionaries({"anchors": st.sampled_from([2, 2, 1]), "edges": st.sampled_from(G.SHAPES[:9]),
                                      "stmts": st.lists(statement(et), min_size=G.n_edges, max_size=G.n_edges)}),
        "metas": st.lists(stated, min_size=2, max_size=2), "served": st.lists(keyset, min_size=4, max_size=4),
        "ops": sequences})
    ctx.prop("provider", case, history, 300, rule="distinct ID token accepted with a key from a jwks_uri")
