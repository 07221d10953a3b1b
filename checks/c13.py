"""C13: a resolve response carries metadata of a currently valid, verifiable chain from the subject to the
requested anchor, and is valid no longer than that chain; anything else is an error."""
import json

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
from fedlib import DAY, EC, NOW, RSA, PaperFed, entity, header_of, jwks, payload_of, verify_sig, world
from vf import attempt, require

RES = "https://resolver.example.org"
LEAF, IM1, IM2, TA, TA2 = ("https://leaf.example.org", "https://im1.example.org", "https://im1.example.org/t",
                           "https://ta.example.org", "https://ta.example.org/2")
IDS = [LEAF, IM1, IM2, TA, TA2]
EDGES = [(LEAF, IM1), (LEAF, IM2), (LEAF, TA), (IM1, TA), (IM1, TA2), (IM2, TA), (IM2, TA2), (IM1, IM2), (TA, TA2)]
TYPES = ["openid_relying_party", "federation_entity", "oauth_client"]
TTL = [20, 100, 610, 1300, 3600, DAY, 3 * DAY]
statement = st.sampled_from([{}] * 6 + [
    {"metadata_policy": {"openid_relying_party": {"contacts": {"value": ["x"]}}}},
    {"metadata_policy": {"openid_relying_party": {"contacts": {"value": ["y"]}}}},
    {"metadata_policy": {"openid_relying_party": {"contacts": {"add": ["x"]}}}},
    {"metadata_policy": {"openid_relying_party": {"contacts": {"subset_of": ["leaf", "x"]}}}},
    {"metadata_policy": {"openid_relying_party": {"missing": {"essential": True}}}},
    {"metadata_policy": {"openid_relying_party": {"extra": {"default": "d"}}}},
    {"metadata": {"openid_relying_party": {"organization_name": "by superior"}}},
    {"metadata": {"openid_relying_party": {"organization_name": "by another"}}},
    {"constraints": {"max_path_length": 0}}])
leafmeta = st.fixed_dictionaries({}, optional={
    "openid_relying_party": st.sampled_from([{"contacts": ["leaf"], "client_name": "é"}, {"contacts": ["x"]}, {"client_name": "c"}]),
    "oauth_client": st.just({"client_name": "o"})})
query = st.fixed_dictionaries({"sub": st.sampled_from([LEAF] * 5 + [IM1, "https://nobody.example.org"]),
                               "anchor": st.sampled_from([TA] * 4 + [TA2, TA2, "https://unknown.example.org", IM1])},
                              optional={"type": st.sampled_from(TYPES)})
op = weighted((8, st.tuples(st.just("ask"), query)),
              (3, st.tuples(st.just("wait"), st.sampled_from([1, 19, 50, 99, 101, 600, 1000, 3000, DAY - 700, DAY]))),
              (2, st.tuples(st.just("dead"), st.sampled_from([LEAF, IM1, IM2]), st.sampled_from(["404", "conn", "500", "garbage", None]))),
              (1, st.tuples(st.just("incomplete"), st.sampled_from([{}, {"sub": LEAF}, {"anchor": TA}]))))


def run(ctx):
    ctx.assumptions += ["with several valid chains to the anchor, any of them may be used",
                        "after an outage a still valid cached chain may be used or not"]

    def history(case):
        import requests
        with world() as (clock, net):
            nodes = {e: {"key": i, "sup": [], "ttl": case["ttl"][i], "sttl": {}, "stmt": {}} for i, e in enumerate(IDS)}
            nodes[LEAF]["meta"] = case["leaf"]
            for n, i in enumerate(case["edges"]):
                a, b = EDGES[i]
                nodes[a]["sup"].append(b)
                nodes[a]["sttl"][b] = case["sttl"][i]
                nodes[a]["stmt"][b] = case["stmts"][i]
            fed = PaperFed(nodes, clock)
            fe = entity(RES, case["key"], {t: fed.jwks(t) for t in [TA, TA2][:case["anchors"]]},
                        endpoints=["entity_configuration", "resolve"])
            known = [TA, TA2][:case["anchors"]]
            net.add(R.Wire(fe))
            net.add(fed.handler)
            outage = False  # since the start some authority or the leaf has been down at some time

            def paths(sub, anchor):
                res, todo = [], [(sub,)]
                while todo:
                    p = todo.pop()
                    if p[-1] == anchor and len(p) > 1:
                        res.append(p)
                    else:
                        todo += [p + (u,) for u in nodes[p[-1]]["sup"] if u not in p]
                return res

            def good(p):
                """model of the metadata for a path, None if the chain is to be refused"""
                stmts = [fed.stmt_payload(b, a) for a, b in zip(p, p[1:])][::-1]
                for n, s in enumerate(stmts):
                    if s.get("constraints", {}).get("max_path_length", 9) < len(stmts) - n - 1:
                        return None
                return pm.resolve_model(stmts, fed.meta(p[0]))

            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                    continue
                if o[0] == "dead":
                    nodes[o[1]]["dead"] = o[2]
                    outage = outage or o[2] is not None
                    continue
                q = o[1]
                r = requests.request("GET", f"{RES}/resolve", params=q)
                ctxt = f"step {n}: resolve {q}: {r.status_code} {r.text[:200]}"
                try:
                    p = payload_of(r.text)
                except Exception:
                    p = None
                if o[0] == "incomplete":
                    require(p is None and r.status_code >= 400, lambda: "incomplete request answered; " + ctxt, "incomplete")
                    continue
                sub, anchor = q["sub"], q["anchor"]
                cand = {x: good(x) for x in paths(sub, anchor)} if anchor in known and sub in nodes else {}
                cand = {x: m for x, m in cand.items() if m is not None}
                if "type" in q:
                    cand = {x: m for x, m in cand.items() if q["type"] in m}
                if p is None:
                    require(r.status_code >= 400, lambda: "no answer; " + ctxt, "status")
                    exact = [x for x, m in cand.items() if pm.OPEN not in m.values()]
                    alive = [x for x in exact if not any(nodes[e].get("dead") for e in x)]
                    require(not alive, lambda: f"refused although there is {alive}; " + ctxt, "refused")
                    ctx.label("error")
                    continue
                require(cand, lambda: f"answer {p} although no chain is valid; " + ctxt, "answered")
                require(p == verify_sig(r.text, jwks(RSA[case["key"]])), "not signed by the resolver", "signature")
                require(p["iss"] == RES and p["sub"] == sub, lambda: f"iss {p['iss']} sub {p['sub']}", "names")
                chain = p.get("trust_chain")
                require(isinstance(chain, list) and len(chain) > 1, lambda: f"trust chain {chain}", "chain")
                cs = [payload_of(c) for c in chain]
                path = (sub,)
                require(cs[0]["iss"] == cs[0]["sub"] == sub, lambda: f"the chain does not start with the subject: {cs[0]}", "chain")
                if cs[-1]["iss"] == cs[-1]["sub"] == anchor:
                    chain, cs = chain[:-1], cs[:-1]
                for c, tok in zip(cs[1:], chain[1:]):
                    require(c["sub"] == path[-1], lambda: f"broken link {path} {c}", "chain")
                    path += (c["iss"],)
                require(path in cand, lambda: f"chain {path}, valid are {list(cand)}", "chain")
                below = [fed.jwks(path[0])] + [fed.jwks(x) for x in path[1:]]
                for tok, kj in zip(chain, below):
                    require(verify_sig(tok, kj) is not None or kj is None, "a statement of the chain does not verify", "chain")
                minexp = min(c["exp"] for c in cs)
                require(minexp >= clock.now, lambda: f"expired statement in the chain: exp {minexp}, now {clock.now}", "expired")
                require(p["iat"] == int(clock.now) and clock.now < p["exp"] <= max(minexp, clock.now + 1),
                        lambda: f"valid until {p['exp']}, its chain until {minexp}, now {clock.now}", "lifetime")
                model = cand[path]
                if "type" in q:
                    model = {q["type"]: model[q["type"]]}
                require(set(p.get("metadata", {})) == set(model), lambda: f"types {set(p.get('metadata', {}))} expected {set(model)}", "types")
                for et, exp in model.items():
                    md = p["metadata"][et]
                    if exp != pm.OPEN:
                        require(set(md) == set(exp) and all(pm.same(md[c], exp[c]) for c in exp),
                                lambda: f"{path} {et}: {md}, expected {exp}", "metadata")
                require("metadata_policy" not in p and "constraints" not in p, lambda: f"{p}", "content")
                ctx.nontriv([case, n])
                ctx.label(f"chain-{len(path)}", "typed" if "type" in q else "untyped")

    n = len(EDGES)
    uniform = st.sampled_from(TTL).map(lambda t: [t] * n)
    ctx.prop("history", st.fixed_dictionaries({
        "key": st.integers(0, 4), "anchors": st.sampled_from([2, 2, 2, 1]), "leaf": leafmeta,
        "edges": weighted((2, st.lists(st.integers(0, n - 1), min_size=2, unique=True)), (3, st.sampled_from([[0, 3, 1, 6], [0, 3, 5, 1]]))),
        "stmts": st.lists(statement, min_size=n, max_size=n),
        "ttl": st.one_of(uniform, st.lists(st.sampled_from(TTL), min_size=n, max_size=n)),
        "sttl": st.one_of(uniform, st.lists(st.sampled_from(TTL), min_size=n, max_size=n)),
        "ops": st.lists(op, min_size=2, max_size=9)}), history, 1200,
        rule="distinct request answered with resolved metadata")
