"""C07: the metadata resolved for an entity, end to end, against a model computed from the signed statements."""
from hypothesis import strategies as st

import policymodel as pm
from fedlib import EC, PaperFed, entity, jwks, payload_of, world
from vf import attempt, require

LEAF = "https://a.example.org/leaf"      # a tenant of one of its superiors; so is an intermediate of an anchor
IM = ["https://a.example.org", "https://b.example.org/t", "https://ta.example.org/c"]
TA = ["https://ta.example.org", "https://a.example.org/2"]
TYPES = ["openid_relying_party", "oauth_client", "federation_entity"]
CL = ["c0", "c1", "c2"]


def nodes_of(case):
    nodes = {LEAF: {"key": 0, "sup": [], "meta": case["leaf"], "stmt": {}}}
    for i, eid in enumerate(IM + TA):
        nodes[eid] = {"key": i + 1, "sup": [], "stmt": {}, "ec": {}}
        if case["ecs"][i]:
            nodes[eid]["meta"] = case["ecs"][i].get("metadata", {})
            if "metadata_policy" in case["ecs"][i]:
                nodes[eid]["ec"]["metadata_policy"] = case["ecs"][i]["metadata_policy"]
    for p in case["paths"]:
        ids = [LEAF] + [IM[i] for i in p["ims"]] + [TA[p["ta"]]]
        for sub, sup, extra in zip(ids, ids[1:], p["stmts"]):
            if sup not in nodes[sub]["sup"]:
                nodes[sub]["sup"].append(sup)
                nodes[sub]["stmt"][sup] = extra
    return nodes


def run(ctx):
    ctx.assumptions += ["claims are strings or lists of strings",
                        "the precise result is open where a policy and metadata from different superiors meet "
                        "on one claim, or where operators are combined that the documented rules do not cover; "
                        "then only conformance to every single statement is demanded"]

    def resolve(case):
        from fedservice.entity import function as F
        with world() as (clock, net):
            fed = PaperFed(nodes_of(case), clock)
            net.add(fed.handler)
            tas = TA[:1] if case["one_ta"] else TA
            fe = entity("https://ev.example.org", 0, trust_anchors={t: fed.jwks(t) for t in tas})
            # all authority paths the published hints give
            paths, todo = [], [(LEAF,)]
            while todo:
                p = todo.pop()
                ups = fed.nodes[p[-1]]["sup"]
                if not ups and p[-1] in tas:
                    paths.append(p)
                todo += [p + (u,) for u in ups if u not in p]
            if len(paths) > 8:
                return
            if case["net"]:
                out = attempt(F.get_verified_trust_chains, fe, LEAF)
            else:
                def direct():
                    given = []
                    for p in paths:
                        c = [fed.ec(p[-1])] if case["top_ec"] else []
                        for i, t in zip(p[-2::-1], fed.chain(*p)[:-1]):     # perhaps followed by what the subject says itself
                            c += [t, fed.ec(i)] if case["mid_ecs"] and i != LEAF else [t]
                        given.append(c)
                    chains = F.verify_trust_chains(fe, given, fed.ec(LEAF))
                    return F.apply_policies(fe, chains)
                out = attempt(direct)
            require(out.ok, lambda: f"resolving fails as a whole: {out}", "raise")
            got = {}
            for tc in out.value:
                if tc.verified_chain[0]["iss"] == tc.verified_chain[0]["sub"]:
                    require(not case["net"] and case["top_ec"], "a chain nobody asked for", "chain")
                    tc.verified_chain.pop(0)
                if case["mid_ecs"] and not case["net"]:
                    tc.verified_chain[:-1] = [s for s in tc.verified_chain[:-1] if s["iss"] != s["sub"]]
                p = tuple(s["sub"] for s in reversed(tc.verified_chain[:-1])) + (tc.verified_chain[0]["iss"],)
                got[p] = tc
            for p in got:
                require(p in paths, f"a chain nobody published: {p}", "chain")
            supersets = {}
            for p in paths:
                want_stmts = [fed.stmt_payload(sup, sub) for sub, sup in zip(p, p[1:])][::-1]
                model = pm.resolve_model(want_stmts, fed.meta(LEAF))
                ctx.label("refused" if model is None else "open" if pm.OPEN in model.values() else "exact")
                if any(s.get("metadata_policy") or s.get("metadata") for s in want_stmts):
                    ctx.nontriv(["p", p, want_stmts, case["leaf"]])
                if p not in got:
                    require(model is None or pm.OPEN in model.values(),
                            lambda: f"no resolved metadata for {p}; expected {model}; statements {want_stmts}", "missing")
                    continue
                require(model is not None, lambda: f"metadata resolved for {p} although the statements contradict "
                        f"each other or the leaf: {got[p].metadata}; {want_stmts}; leaf {fed.meta(LEAF)}", "contradiction")
                tc = got[p]
                require(tc.anchor == p[-1], f"anchor {tc.anchor} for {p}", "anchor")
                for vs, ws in zip(tc.verified_chain, want_stmts + [fed.ec_payload(LEAF)]):
                    require({k: v for k, v in vs.items() if k[0] != "_"} == ws,
                            lambda: f"statement changed: {vs} was {ws}", "mutated")
                for et, exp in model.items():
                    md = tc.metadata.get(et)
                    require(md is not None, lambda: f"no {et} metadata for {p}: {tc.metadata}", "type-missing")
                    if exp != pm.OPEN:
                        require(set(md) == set(exp) and all(pm.same(md[c], exp[c]) for c in exp),
                                lambda: f"{p} {et}: {md}, expected {exp}; statements {want_stmts}", "wrong")
                    for s in want_stmts:
                        n = sum("superset_of" in x.get("metadata_policy", {}).get(et, {}).get(c, {})
                                for x in want_stmts for c in CL)
                        for c, ops in s.get("metadata_policy", {}).get(et, {}).items():
                            bad = pm.violated(ops, md.get(c, pm.ABSENT))
                            if bad == ["superset_of"] and n > 1:  # C05's listed finding
                                continue
                            require(not bad, lambda: f"{p} {et} {c}: {md.get(c)} violates {bad} of {s}", "violates")
                require(set(tc.metadata) == set(model), lambda: f"types {set(tc.metadata)} for {set(model)}", "types")

    @st.composite
    def stmts(draw, n, targets):
        res = [{} for _ in range(n)]
        for (et, c), (listy, tgt) in targets.items():
            k = draw(st.integers(0, 7))
            if k < 4:
                for i in range(n):
                    if draw(st.booleans()):
                        res[i].setdefault("metadata_policy", {}).setdefault(et, {})[c] = draw(pm.level(tgt, listy))
            if k in (3, 4, 5):
                val = list(tgt) if listy else tgt[0]
                for i in range(n):
                    if draw(st.integers(0, 2)) == 0 and c not in res[i].get("metadata_policy", {}).get(et, {}):
                        v = val if draw(st.integers(0, 5)) else draw(st.sampled_from(pm.V))
                        res[i].setdefault("metadata", {}).setdefault(et, {})[c] = v
                if k == 3 and draw(st.integers(0, 3)) == 0:
                    res[draw(st.integers(0, n - 1))].setdefault("metadata", {}).setdefault(et, {})[c] = val
        return res

    @st.composite
    def cases(draw):
        types = draw(st.lists(st.sampled_from(TYPES), min_size=1, max_size=2, unique=True))
        targets, leaf = {}, {}
        for et in types:
            bare = draw(st.integers(0, 5)) == 0
            leaf[et] = {"name": "leaf"} if et != "federation_entity" and not bare else {}
            for c in CL:
                listy = draw(st.booleans())
                tgt = pm.sub(draw, draw(st.permutations(pm.V)))[:3] if listy else [draw(st.sampled_from(pm.V))]
                targets[(et, c)] = (listy, tgt)
                m = draw(st.integers(0, 3))
                if m and not bare:
                    leaf[et][c] = sorted(set(tgt) | set(pm.sub(draw, pm.V, 0) if m == 1 else [])) if listy else tgt[0]
        paths = []
        for _ in range(draw(st.integers(1, 2))):
            ims = draw(st.lists(st.integers(0, 2), max_size=2, unique=True))
            paths.append({"ims": ims, "ta": draw(st.integers(0, 1)), "stmts": draw(stmts(len(ims) + 1, targets))})
        ecs = []
        for _ in range(5):
            k = draw(st.integers(0, 3))
            et = draw(st.sampled_from(types))
            ecs.append({} if k < 2 else {"metadata": {et: {c: draw(st.sampled_from(["zz", ["zz"]])) for c in CL}}}
                       if k == 2 else {"metadata_policy": {et: {c: {"value": "zz"} for c in CL}}})
        return {"leaf": leaf, "paths": paths, "ecs": ecs, "net": draw(st.booleans()), "top_ec": draw(st.booleans()), "mid_ecs": draw(st.booleans()),
                "one_ta": draw(st.integers(0, 3)) == 0}

    ctx.prop("resolve", cases(), resolve, 700,
             rule="a federation with 1-2 declared authority paths (up to 4 statements each), policies and metadata "
                  "on the statements, misleading ones in the authorities' own configurations, collected over the "
                  "virtual network or verified directly; non-trivial = distinct chain with policy or metadata")
