"""C18: a server registers a client explicitly only on the word of a verified trust chain that vouches for the
keys the request is signed with, with the metadata the chain's policies leave, and says so in a statement of its own."""
import copy
import json

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
import regfed as G
from fedlib import DAY, EC, RSA, jwks, key_conf, payload_of, sign, verify_sig, world
from vf import attempt, require

FORGE = ["none"] * 8 + ["other-meta"] * 3 + ["fewer-hints", "rogue", "rogue", "extra", "iss", "sub", "expired", "badsig", "notype", "nojwks",
                                            "nometa", "other-leaf-key", "other-leaf", "other-leaf", "superior", "superior-key", "garbage", "not-published"]
reg = st.tuples(st.just("reg"), st.integers(0, 1), st.sampled_from(FORGE), st.integers(0, 3))
op = weighted((6, reg), (2, st.tuples(st.just("wait"), st.sampled_from([1, 150, 250, 700, 3000, DAY - 700, DAY + 100]))),
               (1, st.tuples(st.just("meta"), st.integers(0, 1), st.integers(0, 2 ** 16))),
               (1, st.tuples(st.just("dead"), st.sampled_from([G.LEAF, G.IM1, G.IM2, G.TA]), st.sampled_from(["404", "conn", "500", "garbage", None]))))


def request(fed, leaf, forge, n, et, alt):
    """-> (signed statement, payload, should it be accepted if the chains are fine?)"""
    p = fed.ec_payload(leaf)
    k = fed.keys(leaf)[0]
    ok = True
    if forge == "other-meta":
        p["metadata"] = G.metadata(et, alt, ())
    elif forge == "fewer-hints":
        if len(p.get("authority_hints", [])) > 1:
            p["authority_hints"] = p["authority_hints"][1:]
    elif forge in ("rogue", "extra"):
        k = EC[G.BAD_KEY]
        p["jwks"] = jwks(k) if forge == "rogue" else jwks(k, *fed.keys(leaf))
        ok = False
    elif forge in ("other-leaf-key", "superior-key"):
        other = [x for x in G.LEAVES if x != leaf][0] if forge == "other-leaf-key" else G.IM1
        k = fed.keys(other)[0]
        p["jwks"] = jwks(k)
        ok = False
    elif forge in ("other-leaf", "superior"):  # someone the server may know already makes a request for the client
        p["iss"] = [x for x in G.LEAVES if x != leaf][0] if forge == "other-leaf" else (fed.nodes[leaf]["sup"] + [G.IM1])[0]
        k = fed.keys(p["iss"])[0]
        p["jwks"] = jwks(k)
        ok = False
    elif forge == "iss":
        p["iss"] = [x for x in G.LEAVES if x != leaf][0]
        ok = False
    elif forge == "sub":
        p["sub"] = [x for x in G.LEAVES if x != leaf][0]
        ok = False
    elif forge == "expired":
        p["exp"] = int(fed.clock.now) - 60
        p["iat"] = p["exp"] - 1000
        ok = False
    elif forge == "notype":
        p["metadata"].pop(et)
        ok = False
    elif forge == "nojwks":
        p.pop("jwks")
        ok = False
    elif forge == "nometa":
        p.pop("metadata")
        ok = False
    tok = sign(p, k, {"typ": "entity-statement+jwt"})
    if forge == "badsig":
        h, b, s = tok.split(".")
        tok = ".".join([h, b, s[:9] + ("A" if s[9] != "A" else "B") + s[10:]])
        ok = False
    elif forge == "garbage":
        tok = ["", "a.b.c", "abc", json.dumps(p)][n]
        ok = False
    return tok, p, ok


def run(ctx):
    ctx.assumptions += ["with several valid chains any of them may be used",
                        "after an outage a still valid cached statement may be used or not"]
    for et in ("openid_relying_party", "oauth_client"):
        prop(ctx, et)


def prop(ctx, et):
    def history(case):
        with world() as (clock, net):
            fed = G.Fed(case["fed"], clock, et)
            srv, guise = G.server(et, fed, case["key"])
            ent = srv[guise]
            ep = ent.get_endpoint("registration")
            cdb = ent.context.cdb
            if case["priority"]:
                srv["federation_entity"].context.tr_priority = case["priority"]
            kj = ent.get_attribute("keyjar")
            net.add(R.Wire(srv))
            net.add(fed.handler)
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                    continue
                if o[0] == "dead":
                    fed.nodes[o[1]]["dead"] = o[2]
                    continue
                if o[0] == "meta":
                    leaf = G.LEAVES[o[1]]
                    m = copy.deepcopy(case["alt"])
                    fed.nodes[leaf]["meta"] = G.metadata(et, m, ())
                    continue
                _, who, forge, v = o
                leaf = G.LEAVES[who]
                tok, p, ok = request(fed, leaf, forge, v, et, case["alt"])
                before = {k: copy.deepcopy(dict(c)) for k, c in cdb.items()}
                info_before = copy.deepcopy(dict(ent.context.provider_info))
                keys_before = G.client_keys(kj, leaf)
                r = attempt(lambda: ep.process_request(ep.parse_request(tok)))
                ctxt = f"step {n}: {et} {leaf} {forge}: {r}"
                require(dict(ent.context.provider_info) == info_before, lambda: f"provider info changed; {ctxt}", "provider-info")
                resp = r.value if r.ok else None
                accepted = r.ok and isinstance(resp, dict) and "response_msg" in resp
                sub = p.get("sub")
                cand = fed.candidates(leaf, p["metadata"]) if ok else {}
                after = {k: dict(c) for k, c in cdb.items()}
                changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
                if not accepted:
                    require(not changed, lambda: f"refused, but registered {changed}; {ctxt}", "refused-registered")
                    if not cand:
                        require(G.client_keys(kj, leaf) == keys_before, lambda: f"refused, but keys changed; {ctxt}", "refused-keys")
                    sure = [x for x, m in cand.items() if m[et] != pm.OPEN and fed.alive(x) and not G.unusable(m[et])
                            and p.get("authority_hints")]
                    sure = [x for x in sure if not fed.nodes[leaf].get("dead")]
                    sure = [x for x in sure if x[1] in p["authority_hints"]]
                    every = all(m[et] != pm.OPEN and not G.unusable(m[et]) for m in cand.values())
                    require(not (sure and every), lambda: f"refused although there is {sure}; {ctxt}", "refused")
                    ctx.label("refused", f"refused-{forge}")
                    continue
                require(ok, lambda: f"accepted; {ctxt}", "accepted-" + forge)
                require(cand, lambda: f"accepted without any chain; {ctxt}", "accepted-no-chain")
                cand = {x: m for x, m in cand.items() if not G.unusable(m[et])}
                require(cand, lambda: f"accepted with metadata that can not be used; {ctxt}", "accepted-unusable")
                s = payload_of(resp["response_msg"])
                require(s == verify_sig(resp["response_msg"], jwks(RSA[case["key"]])), f"signature of the response; {ctxt}", "signature")
                require(s["iss"] == G.OP and s["sub"] == leaf and s.get("aud") in (leaf, [leaf]), lambda: f"names in {s}", "names")
                require(s["iat"] == int(clock.now) < s["exp"], lambda: f"times in {s}", "times")
                mine = {x: m for x, m in cand.items() if x[-1] == s.get("trust_anchor_id")}
                require(mine, lambda: f"anchor {s.get('trust_anchor_id')}, chains {list(cand)}", "anchor")
                require(set(s["metadata"]) == {et}, lambda: f"metadata for {set(s['metadata'])}", "types")
                cid = s["metadata"][et].get("client_id")
                require(changed == {cid}, lambda: f"changed {changed}, client_id {cid}; {ctxt}", "client-id")
                if et == "openid_relying_party":
                    require(cid == leaf, lambda: f"client id {cid} of {leaf}", "client-id")
                else:
                    require(cid not in before, lambda: f"client id {cid} used before", "client-id")
                problems = []
                for x, m in mine.items():
                    try:
                        G.judge_client(after[cid], m[et], cid)
                        if m[et] != pm.OPEN:
                            G.judge_keys(kj, cid, keys_before if cid == leaf else set(), m[et])
                        md = s["metadata"][et]
                        if m[et] != pm.OPEN:
                            for c in ("contacts", "client_name", "grant_types", "response_types"):
                                if c in m[et]:
                                    require(c in md and pm.same(md[c], m[et][c]), lambda: f"{c} answered {md.get(c)}, verified {m[et][c]}", "response")
                        problems = []
                        break
                    except Exception as err:
                        problems.append(err)
                if problems:
                    raise problems[0]
                require(sorted(map(str, s["metadata"][et].get("redirect_uris", []))) in ([], sorted(p["metadata"][et]["redirect_uris"])), "uris", "response")
                ctx.nontriv([case, n])
                ctx.label("registered", f"ok-{forge}", "again" if cid in before else "first")

    name = "oidc" if et == "openid_relying_party" else "oauth2"
    ctx.prop(name, st.fixed_dictionaries({
        "key": st.integers(0, 4), "priority": st.sampled_from([[], [G.TA2, G.TA], [G.TA2], [G.ROGUE, G.TA]]), "fed": G.federation(et), "alt": G.client_meta(et),
        "ops": st.lists(op, min_size=1, max_size=7)}), history, 900, rule="distinct accepted registration")

