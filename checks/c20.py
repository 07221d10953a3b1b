"""C20: a client believes a registration response only when the keys of a verified chain to the named, trusted anchor
signed it and it is about the client; what it then uses is the response after the policies of its own superiors."""
import copy

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
import regfed as G
from fedlib import DAY, EC, ES_CT, RSA, jwks, payload_of, sign, split_url, well_known_urls, world
from vf import Outcome, require

OP2 = "https://op2.example.com/as"
OP_EDGES = [(G.OP, G.IM1), (G.OP, G.TA), (G.OP, G.TA2), (G.OP, G.IM2), (OP2, G.IM1), (OP2, G.TA), (G.OP, G.ROGUE), (OP2, G.ROGUE)]
FORGE = ["none"] * 8 + ["old-key", "old-key", "rogue", "rogue", "extra", "other-key", "other-iss", "superior-key", "my-key", "iss-superior", "sub", "sub-op", "sub-longer", "sub-shorter",
                        "expired", "badsig", "nojwks", "nometa", "garbage", "noanchor", "critical", "not-critical"]
answer = st.fixed_dictionaries({"forge": st.sampled_from(FORGE), "anchor": st.sampled_from([G.TA] * 5 + [G.TA2, G.TA2, G.ROGUE, G.IM1]),
                                "meta": st.integers(0, 1), "seen": st.booleans()})
op = weighted((6, st.tuples(st.just("answer"), answer)),
               (2, st.tuples(st.just("wait"), st.sampled_from([1, 150, 250, 700, 3000, DAY - 700, DAY + 100]))),
               (1, st.just(("rotate",))),
               (1, st.tuples(st.just("resolve"), st.sampled_from([G.OP, OP2, G.IM1]))),
               (1, st.tuples(st.just("dead"), st.sampled_from([G.OP, G.IM1, G.IM2, G.TA]), st.sampled_from(["404", "conn", "500", "garbage", None]))))
plain = st.fixed_dictionaries({"forge": st.just("none"), "anchor": st.sampled_from([G.TA, G.TA, G.TA2]), "meta": st.integers(0, 1), "seen": st.booleans()})
again = st.tuples(st.tuples(st.just("answer"), plain), st.just(("rotate",)), st.tuples(st.just("wait"), st.sampled_from([250, 3700, DAY + 100, 4 * DAY])),
                  st.tuples(st.just("answer"), st.builds(lambda a, f: dict(a, forge=f), plain, st.sampled_from(["none", "old-key", "old-key"])))).map(list)


class Fed(G.Fed):
    def __init__(self, case, opcase, clock, et, key):
        G.Fed.__init__(self, case, clock, et)
        self.rp_key = key
        self.rotated = None     # [when, the key used until then]
        for n, e in enumerate((G.OP, OP2)):
            self.nodes[e] = {"key": 20 + n, "sup": [], "ttl": case["ttl"], "sttl": {}, "stmt": {}, "fetch": False,
                             "meta": {"openid_provider": {"issuer": e}}}
        for n, i in enumerate(opcase["edges"]):
            a, b = OP_EDGES[i]
            self.nodes[a]["sup"].append(b)
            self.nodes[a]["sttl"][b] = opcase["sttl"][n]

    def rotate(self):
        """the provider gets a new key, its superiors vouch for that one from now on"""
        self.rotated = [self.clock.now, self.keys(G.OP)[0]]
        self.nodes[G.OP]["key"] += 2

    def old_key_remembered(self):
        n = self.nodes[G.OP]
        return self.rotated and self.rotated[0] + max([n["sttl"].get(u, DAY) for u in n["sup"]] + [0]) >= self.clock.now

    def keys(self, eid):
        return [RSA[self.rp_key]] if eid == G.LEAF else G.Fed.keys(self, eid)

    def handler(self, method, url, headers, body):
        if split_url(url)[0] in well_known_urls(G.LEAF):
            return None   # published by the real client
        return G.Fed.handler(self, method, url, headers, body)


def response(fed, a, et, metas):
    """-> (token, payload, may it be believed, how many keys vouch)"""
    now = int(fed.clock.now)
    by, k = G.OP, fed.keys(G.OP)[0]
    m = G.metadata(et, copy.deepcopy(metas[a["meta"]]), ())
    m[et].pop("jwks")
    m[et]["client_id"] = "given-id"
    p = {"iss": G.OP, "sub": G.LEAF, "aud": [G.LEAF], "iat": now, "exp": now + DAY, "jwks": fed.jwks(G.OP), "metadata": m,
         "trust_anchor_id": a["anchor"], "authority_hints": [a["anchor"]]}
    f, ok = a["forge"], True
    if f in ("rogue", "extra"):
        k = EC[G.BAD_KEY]
        p["jwks"] = jwks(k) if f == "rogue" else jwks(k, *fed.keys(G.OP))
        ok = False
    elif f == "old-key":
        if fed.rotated:
            k = fed.rotated[1]
            p["jwks"] = jwks(k)
            ok = None if fed.old_key_remembered() else False
    elif f in ("other-key", "superior-key", "my-key"):
        k = {"other-key": fed.keys(OP2)[0], "superior-key": fed.keys((fed.nodes[G.OP]["sup"] + [G.IM1])[0])[0], "my-key": fed.keys(G.LEAF)[0]}[f]
        p["jwks"] = jwks(k)
        ok = False
    elif f == "other-iss":   # an honest entity, but nobody asked it: not decided here
        p["iss"], k = OP2, fed.keys(OP2)[0]
        p["jwks"] = jwks(k)
        ok = None
    elif f == "iss-superior":
        p["iss"] = G.IM1
        ok = False
    elif f in ("sub", "sub-op", "sub-longer", "sub-shorter"):
        p["sub"] = {"sub": G.LEAF2, "sub-op": G.OP, "sub-longer": G.LEAF + "/tenant", "sub-shorter": G.LEAF[:-4]}[f]
        ok = False
    elif f == "expired":
        p["exp"], p["iat"] = now - 60, now - 1000
        ok = False
    elif f in ("nojwks", "noanchor"):
        p.pop("jwks" if f == "nojwks" else "trust_anchor_id")
        ok = False
    elif f in ("critical", "not-critical"):
        p["https://example.org/claim"] = "x"
        if f == "critical":
            p["crit"] = ["https://example.org/claim"]
            ok = False
    elif f == "nometa":
        p.pop("metadata")
        ok = None
    tok = sign(p, k, {"typ": "entity-statement+jwt"})
    if f == "badsig":
        h, b, s = tok.split(".")
        tok = ".".join([h, b, s[:9] + ("A" if s[9] != "A" else "B") + s[10:]])
        ok = False
    elif f == "garbage":
        tok, ok = "a.b.c", False
    return tok, p, ok


def run(ctx):
    ctx.assumptions += ["statements may be cached as long as they are valid",
                        "whether a response of another trusted entity than the one asked is believed is left open"]
    for name, et in (("oidc", "openid_relying_party"), ("oauth2", "oauth_client")):
        prop(ctx, name, et)


def prop(ctx, name, et):
    def history(case):
        with world() as (clock, net):
            fed = Fed(case["fed"], case["op"], clock, et, case["key"])
            sup = fed.nodes[G.LEAF]["sup"]
            rp = R.rp(G.LEAF, case["key"], guise=et, anchors=fed.anchors(), authority_hints=list(sup))
            fe = rp["federation_entity"]
            svc = rp[et].get_service("registration") or fe.get_service("registration")
            net.add(R.Wire(rp))
            fed.fe = fe
            net.add(fed.handler)
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "dead":
                    fed.nodes[o[1]]["dead"] = o[2]
                elif o[0] == "rotate":
                    fed.rotate()
                elif o[0] == "resolve":   # so that the keys of others are known
                    from fedservice.entity.function import get_verified_trust_chains
                    try:
                        get_verified_trust_chains(fe, o[1])
                    except Exception:
                        pass
                else:
                    step(n, o[1], fed, svc, case)

    def step(n, a, fed, svc, case):
        tok, p, ok = response(fed, a, et, case["alt"])
        state = svc.upstream_get("context")
        before = copy.deepcopy(getattr(state, "registration_response", None))
        try:
            r = Outcome(svc.parse_response(tok, request="x"))
        except Exception as err:
            r = Outcome(err=err)
        ctxt = f"step {n}: {name} {a}: {r}"
        anchor = a["anchor"]
        accepted = r.ok and bool(r.value)
        by = [x for x in fed.paths(p["iss"]) if x[-1] == anchor and fed.allowed(x)] if p.get("iss") in fed.nodes else []
        mine = {x: pm.resolve_model([fed.stmt_payload(v, u) for u, v in zip(x, x[1:])][::-1], copy.deepcopy(p.get("metadata", {})))
                for x in fed.paths(G.LEAF) if x[-1] == anchor}
        mine = {x: m for x, m in mine.items() if m is not None and fed.good(x, p.get("metadata", {})) is not None}
        if anchor not in fed.known:
            by, mine = [], {}
        if not accepted:
            require(getattr(state, "registration_response", None) == before, lambda: f"refused, but remembered; {ctxt}", "refused-remembered")
            alive = [x for x in mine if fed.alive(x)]
            every = all(m.get(et) != pm.OPEN for m in mine.values())
            if every and name == "oauth2":   # a client whose own metadata its superiors do not allow may refuse
                own = payload_of(fed.fe.get_endpoint("entity_configuration").process_request({})["response"])["metadata"]
                res = [pm.resolve_model([fed.stmt_payload(v, u) for u, v in zip(x, x[1:])][::-1], copy.deepcopy(own)) for x in alive]
                every = all(m is not None and pm.OPEN not in m.values() for m in res)
            oby = [x for x in by if fed.alive(x)]
            if fed.old_key_remembered():
                every = False
            require(not (ok is True and alive and oby and every), lambda: f"refused although there are {alive} and {oby}; {ctxt}", "refused")
            ctx.label(f"refused-{a['forge']}")
            return
        require(ok is not False, lambda: f"accepted; {ctxt}", "accepted-" + a["forge"])
        require(by, lambda: f"accepted, but no chain from {p['iss']} to {anchor}; {ctxt}", "accepted-no-chain")
        require(mine, lambda: f"accepted, but no chain of my own to {anchor}; {ctxt}", "accepted-no-chain-of-mine")
        if ok is None and a["forge"] != "old-key":
            ctx.label("open-" + a["forge"])
            return
        got = r.value if name == "oidc" else r.value.get(et)
        require(got is not None, lambda: f"nothing about the client; {ctxt}", "metadata")
        exps = [m.get(et) for m in mine.values()]
        if pm.OPEN not in exps:
            require(any(set(got) == set(e) and all(pm.same(got[c], e[c]) for c in e) for e in exps),
                    lambda: f"metadata {got}, expected {exps}; {ctxt}", "metadata")
        mem = getattr(state, "registration_response", None)
        require(mem == r.value, lambda: f"remembered {mem}; {ctxt}", "remembered")
        ctx.nontriv([case, n])
        ctx.label("accepted", f"chains-{len(mine)}")

    ctx.prop(name, st.fixed_dictionaries({
        "key": st.integers(0, 4), "fed": G.federation(et), "alt": st.lists(G.client_meta(et), min_size=2, max_size=2),
        "op": st.fixed_dictionaries({"edges": st.one_of(st.sampled_from([[1], [0], [0, 5], [2, 1, 4], [0, 3], [6, 5], [2]]),
                                                         st.lists(st.integers(0, len(OP_EDGES) - 1), min_size=1, unique=True)),
                                     "sttl": st.lists(st.sampled_from([DAY] * 4 + G.TTL), min_size=len(OP_EDGES), max_size=len(OP_EDGES))}),
        "ops": weighted((4, st.lists(op, min_size=1, max_size=6)), (1, again))}), history, 1000, rule="distinct accepted response")
