"""C22: of several trust chains, the one used is the one whose trust anchor comes first in the configured priority; what is remembered
of an entity is, per trust anchor, the newest (and of those found together a shortest) chain; chains can be exported without changing."""
import copy
import json

from hypothesis import strategies as st

from gen import weighted

import realfed as R
from fedlib import DAY, EC, PaperFed, RSA, jwks, payload_of, sign, world
from vf import Outcome, attempt, require

TAS = ["https://ta0.example.org", "https://ta1.example.org/x", "https://ta2.example.org", "https://ta2.example.org/tenant"]
OTHER = "https://other.example.org"
SUBJECTS = ["https://leaf.example.org", "https://leaf.example.org/t", "https://op.example.com"]
OP, RP, IMS = "https://op.example.org", "https://rp.example.org", ["https://im0.example.org", "https://im1.example.org"]

priority = st.lists(st.sampled_from(TAS + [OTHER]), unique=True, max_size=5)
chain = st.tuples(st.integers(0, 3), st.integers(2, 6), st.integers(-5, 5))     # anchor, length, seconds until it expires
chains = st.lists(chain, min_size=1, max_size=6)
op = weighted((4, st.tuples(st.just("save"), st.integers(0, 2), chains)),
              (3, st.tuples(st.just("pick"), chains)),
              (4, st.tuples(st.just("stored"), st.integers(0, 2))),
              (3, st.tuples(st.just("get"), st.integers(0, 2), st.sampled_from([None, 0, 1, 2, 3, 4]))),
              (2, st.tuples(st.just("export"), st.integers(0, 2))),
              (1, st.tuples(st.just("priority"), priority)))


def run(ctx):
    ctx.assumptions += ["between chains of one length to one anchor, and between anchors that are not in the priority, any may be used"]
    choose(ctx)
    server(ctx)


MEMBERS = ["anchor", "chain", "combined_policy", "err", "exp", "iss_path", "metadata", "verified_chain"]


def make(TrustChain, sub, c, n, now):
    anchor, length, left = c
    path = [sub] + [f"https://im{i}.example.org/{n}" for i in range(length - 2)] + [TAS[anchor]]
    stmts = [{"iss": TAS[anchor], "sub": TAS[anchor]}] + [{"iss": a, "sub": b} for a, b in zip(path[::-1], path[::-1][1:])] + [{"iss": sub, "sub": sub}]
    tc = TrustChain(anchor=TAS[anchor], iss_path=path, verified_chain=stmts, exp=int(now) + left, metadata={"openid_relying_party": {"n": n}, f"type{n}": {}})
    tc.chain = [f"a.{n}.{i}" for i in range(length)]
    tc.combined_policy = {"openid_relying_party": {"metadata_policy": {"n": {"value": n}}, "metadata": {}}}
    return tc


def choose(ctx):
    def history(case):
        from fedservice import get_trust_chain, save_trust_chains
        from fedservice.entity_statement.statement import TrustChain
        with world() as (clock, net):
            anchors = {t: jwks(EC[i]) for i, t in enumerate(TAS)}
            if case["who"] == "standalone":
                ent = R.rp(RP, 0, anchors=anchors, authority_hints=[TAS[0]],
                           cls="fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity")
                fe, unit = R.fed_entity(ent), ent["openid_relying_party"]
                context, stored = unit.context, lambda s: unit.pick_from_stored_trust_chains(s, fe)
            else:
                from fedlib import entity
                fe = entity(RP, 0, trust_anchors=anchors)
                context, stored = fe.context, fe.pick_from_stored_trust_chains
            prio = list(case["priority"])
            fe.context.tr_priority = list(prio)
            model, born, n = {}, {}, 0
            for step, o in enumerate(case["ops"]):
                where = f"step {step}: {o} priority {prio}"
                if o[0] == "priority":
                    prio = list(o[1])
                    fe.context.tr_priority = list(prio)
                elif o[0] in ("save", "pick"):
                    sub = SUBJECTS[o[1]] if o[0] == "save" else SUBJECTS[0]
                    made = []
                    for c in o[-1]:
                        made.append(make(TrustChain, sub, c, n, clock.now))
                        born[id(made[-1])] = (made[-1], copy.deepcopy(made[-1].verified_chain), c, n)
                        n += 1
                    for t in made:
                        api(t, born[id(t)], where)
                    if o[0] == "pick":
                        got = attempt(fe.pick_trust_chain, list(made))
                        best = [a for a in prio if a in {t.anchor for t in made}][:1]
                        right = [t for t in made if t.anchor in best] if best else made
                        require(got.ok and any(got.value is t for t in right), lambda: f"{where}: {got.err or got.value.iss_path}, should be one of {[t.iss_path for t in right]}", "pick")
                        if len({t.anchor for t in made}) > 1 and best:
                            ctx.nontriv([case["who"], prio, o])
                            ctx.label("picked-by-priority")
                        continue
                    r = attempt(save_trust_chains, context, list(made))
                    require(r.ok, lambda: f"{where}: {r}", "save")
                    for a in {t.anchor for t in made}:
                        short = min(len(t.verified_chain) for t in made if t.anchor == a)
                        model.setdefault(sub, {})[a] = [t for t in made if t.anchor == a and len(t.verified_chain) == short]
                elif o[0] == "stored":
                    sub = SUBJECTS[o[1]]
                    if sub not in model:
                        continue
                    got = attempt(stored, sub)
                    best = [a for a in prio if a in model[sub]][:1] or list(model[sub])
                    require(got.ok and any(got.value is t for a in best for t in model[sub][a]),
                            lambda: f"{where}: {got.err or got.value.anchor}, remembered are chains to {list(model[sub])}", "stored")
                    if len(model[sub]) > 1:
                        ctx.nontriv([case["who"], prio, o, sorted(model[sub])])
                        ctx.label("stored-" + ("priority" if set(prio) & set(model[sub]) else "any"))
                elif o[0] == "get" and model:
                    sub, ta = SUBJECTS[o[1]], o[2] if o[2] is None else (TAS + [OTHER])[o[2]]
                    got = attempt(get_trust_chain, context, sub, *([] if ta is None else [ta]))
                    require(got.ok, lambda: f"{where}: {got}", "get")
                    if sub not in model:
                        require(not got.value, lambda: f"{where}: {got}, nothing is remembered", "get")
                    elif ta:
                        want = model[sub].get(ta)
                        require(got.value is None if want is None else any(got.value is t for t in want), lambda: f"{where}: {got}", "get")
                    else:
                        require(set(got.value) == set(model[sub]) and all(any(got.value[a] is t for t in model[sub][a]) for a in got.value), lambda: f"{where}: {got}", "get")
                elif o[0] == "export":
                    for alts in model.get(SUBJECTS[o[1]], {}).values():
                        for t in alts:
                            a, b = t.export_chain(), t.export_chain()
                            require(a == b == born[id(t)][1][::-1], lambda: f"{where}: {a} and {b} of {born[id(t)][1]}", "export")
                            ctx.label("exported")
                            u = TrustChain().load(json.loads(json.dumps(t.dump())))     # as another process would read it
                            require(all(getattr(u, m) == getattr(t, m) for m in MEMBERS), lambda: f"{where}: read {u.__dict__}, written {t.__dict__}", "dump")
                            api(u, born[id(t)], where + " written and read")
                            a.clear()
                for t, was, _, _ in born.values():
                    require(t.verified_chain == was, lambda: f"{where}: the chain changed: {t.verified_chain}, was {was}", "changed")

    def api(t, b, where):
        _, _, c, n = b
        want = {"openid_relying_party": {"n": n}, f"type{n}": {}}
        require(dict(t.items()) == want and set(t.keys()) == set(want) and t.claims() == want and t["openid_relying_party"] == {"n": n} and "openid_provider" not in t
                and f"type{n}" in t, lambda: f"{where}: {dict(t.items())} {t.claims()}", "mapping")
        if c[2]:
            require(t.is_expired() == (c[2] < 0), lambda: f"{where}: expires in {c[2]} s, is_expired {t.is_expired()}", "expired")

    ctx.prop("choose", st.fixed_dictionaries({"who": st.sampled_from(["entity", "entity", "standalone"]), "priority": priority,
                                              "ops": st.lists(op, min_size=2, max_size=14)}), history, 700,
             rule="a chain is chosen from chains to several trust anchors")


POLICY = [{}, {"contacts": {"value": ["x"]}}, {"client_name": {"one_of": ["nobody"]}}, {"software_id": {"essential": True}}, {"contacts": {"add": ["y"]}}]
OK = [True, True, False, False, True]
EDGES = [(RP, IMS[0]), (RP, IMS[1])] + [(i, t) for i in IMS for t in TAS] + [(RP, t) for t in TAS]


def server(ctx):
    """a server with several trust anchors registers a client"""
    def history(case):
        from fedservice import get_trust_chain
        et = case["et"]
        with world() as (clock, net):
            nodes = {e: {"key": i, "sup": [], "stmt": {}} for i, e in enumerate(TAS + IMS + [RP])}
            for i in case["edges"]:
                a, b = EDGES[i]
                nodes[a]["sup"].append(b)
                p = copy.deepcopy(POLICY[case["policy"][i]])
                p.setdefault("software_version", {"value": f"by {b}"})
                nodes[a]["stmt"][b] = {"metadata_policy": {et: p}} if b in TAS else {}
            nodes[RP]["meta"] = {et: {"redirect_uris": [RP + "/cb"], "client_name": "c", "contacts": ["me"], "grant_types": ["authorization_code"],
                                      "response_types": ["code"], "token_endpoint_auth_method": "private_key_jwt", "jwks": jwks(EC[30])}}
            nodes[RP]["fetch"] = False
            fed = PaperFed(nodes, clock)
            known = [TAS[i] for i in case["known"]]
            guise = "openid_provider" if et == "openid_relying_party" else "oauth_authorization_server"
            srv = R.op(OP, 0, anchors={t: fed.jwks(t) for t in known}, guise=guise, authority_hints=[known[0]])
            R.fed_entity(srv).context.tr_priority = list(case["priority"])
            net.add(R.Wire(srv))
            net.add(fed.handler)
            edge = {EDGES[i]: case["policy"][i] for i in case["edges"]}
            ways = [(RP, t) for t in known if (RP, t) in edge] + [(RP, i, t) for i in IMS for t in known if (RP, i) in edge and (i, t) in edge]
            good = [w for w in ways if OK[edge[w[-2:]]]]
            if case["how"] != "register":
                return automatic(ctx, case, srv, guise, et, good, clock)
            ep = srv[guise].get_endpoint("registration")
            req = sign(fed.ec_payload(RP), EC[nodes[RP]["key"]], {"typ": "entity-statement+jwt"})
            r = attempt(lambda: ep.process_request(ep.parse_request(req)))
            there = r.ok and isinstance(r.value, dict) and "response_msg" in r.value
            ctxt = f"{et}: {r}, chains {ways}, acceptable {good}, priority {case['priority']}"
            require(there == bool(good), ctxt, "registered")
            if not there:
                return
            s = payload_of(r.value["response_msg"])
            best = [t for t in case["priority"] if t in {w[-1] for w in good}][:1] or [w[-1] for w in good]
            require(s.get("trust_anchor_id") in best, lambda: f"trust anchor {s.get('trust_anchor_id')}; {ctxt}", "anchor")
            require(R.fed_entity(srv).trust_chain_anchor == s["trust_anchor_id"], lambda: f"{R.fed_entity(srv).trust_chain_anchor}; {ctxt}", "anchor-memory")
            require(s["metadata"][et].get("software_version") == f"by {s['trust_anchor_id']}", lambda: f"metadata {s['metadata']}; {ctxt}", "metadata")
            if et == "openid_relying_party":
                for t in {w[-1] for w in good}:
                    tc = get_trust_chain(srv[guise].context, RP, t)
                    short = min(len(w) for w in good if w[-1] == t)
                    require(tc is not None and tc.anchor == t and tuple(tc.iss_path) in good and len(tc.iss_path) == short, lambda: f"{tc and tc.iss_path} to {t}; {ctxt}", "remembered")
                    require(tc.metadata[et].get("software_version") == f"by {t}", lambda: f"{tc.metadata} to {t}; {ctxt}", "remembered")
                    sent = [(x["iss"], x["sub"]) for x in map(dict, tc.export_chain())]
                    want = [(RP, RP)] + [(b, a) for a, b in zip(tc.iss_path, tc.iss_path[1:])]
                    require(sent[:len(want)] == want, lambda: f"exported {sent}; {ctxt}", "export")
            if len({w[-1] for w in good}) > 1:
                ctx.nontriv(case)
                ctx.label("by-priority" if len(best) == 1 else "any")
            if len(good) < len(ways):
                ctx.label("some-refused")

    every = len(EDGES)
    ctx.prop("server", st.fixed_dictionaries({
        "et": st.sampled_from(["openid_relying_party", "oauth_client"]), "priority": priority, "how": st.sampled_from(["register", "register", "authorize", "push"]),
        "known": st.lists(st.integers(0, 3), min_size=2, unique=True),
        "edges": weighted((1, st.lists(st.integers(0, every - 1), min_size=2, unique=True)), (2, st.lists(st.integers(2, every - 1), min_size=2, unique=True).map(lambda x: [0, 1] + x)),
                          (1, st.lists(st.integers(every - 4, every - 1), min_size=2, unique=True))),
        "policy": st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4]), min_size=every, max_size=every)}), history, 320,
        rule="the client can be registered by chains to several trust anchors")


def automatic(ctx, case, srv, guise, et, good, clock):
    """the server gets to know the client by its first (pushed) authorization request"""
    push = case["how"] == "push" and et == "oauth_client"
    ep = srv[guise].get_endpoint("pushed_authorization" if push else "authorization")
    req = {"client_id": RP, "response_type": "code", "state": "s", "scope": ["openid"], "nonce": "n", "redirect_uri": RP + "/cb"}
    if push:
        now = int(clock.now)
        req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
        req["client_assertion"] = sign({"iss": RP, "sub": RP, "aud": [ep.full_path], "iat": now, "exp": now + 300, "jti": "j"}, EC[30])
    try:
        r = Outcome(ep.parse_request(req))
    except Exception as err:
        r = Outcome(err=err)
    there = r.ok and "error" not in r.value
    ctxt = f"{et} {case['how']}: {r}, acceptable {good}, priority {case['priority']}"
    require(there == bool(good), ctxt, "registered")
    if not there:
        return
    best = [t for t in case["priority"] if t in {w[-1] for w in good}][:1] or [w[-1] for w in good]
    anchor = ep.extra_response_args({}, client_id=RP).get("trust_anchor_id")
    require(anchor in best, lambda: f"trust anchor {anchor}; {ctxt}", "anchor")
    info = srv[guise].context.cdb[RP]
    require(info.get("software_version") == f"by {anchor}", lambda: f"registered {dict(info)}, trust anchor {anchor}; {ctxt}", "metadata")
    if len({w[-1] for w in good}) > 1:
        ctx.nontriv(case)
        ctx.label("automatic-by-priority" if len(best) == 1 else "automatic-any")
