"""C02: what an evaluator accepts does not depend on what it has been shown before, and nobody but the
operator (or the anchor itself) changes the keys of a trust anchor or of the evaluator."""
import copy
import json

from hypothesis import strategies as st

from chainspec import *
from fedlib import EC, NOW, DAY, RSA, PaperFed, entity, jwks, pub, sign, world, well_known_urls, ES_CT
from vf import attempt, require

EV = IDS[2]


@st.composite
def poison(draw):
    """An honestly signed chain in which a legitimate intermediate vouches for keys of someone important"""
    anchor = draw(st.sampled_from([0, 1]))
    im = draw(st.sampled_from([4, 5]))
    victim = draw(st.sampled_from([0, 1, 2, 6, 7, 4, 5]))
    bad = draw(st.sampled_from([16, 17]))
    specs = honest([anchor, im, victim] if victim != im else [anchor, im])
    if victim == 2:
        for s in specs:
            if s["k"] == 4:
                s["k"] = s["kid"] = 16
    specs[-2]["j"] = draw(st.sampled_from([[bad], [bad, 2 * victim] if victim != 2 else [bad]]))
    if draw(st.booleans()):
        specs[-1]["k"] = specs[-1]["kid"] = bad
        specs[-1]["j"] = [bad]
    return {"specs": specs, "muts": [f"poison-{victim}"]}


@st.composite
def exploit(draw):
    """A chain that is valid only if the poisoned key had been believed"""
    victim = draw(st.sampled_from([0, 1, 2, 0, 1, 4, 5]))
    bad = draw(st.sampled_from([16, 17]))
    leaf = draw(st.sampled_from([6, 7]))
    if victim in (0, 1, 2):
        specs = honest([victim, leaf])
    else:
        specs = honest([draw(st.sampled_from([0, 1])), victim, leaf])
    for s in specs:
        if s["i"] == victim:
            s["k"] = s["kid"] = bad
    return {"specs": specs, "muts": [f"exploit-{victim}"]}


@st.composite
def rekeyed(draw):
    """The same few statements again and again, below a superior that states the keys that signed the next one, others,
    or others with the same key ID"""
    path = draw(st.sampled_from([[0, 6], [0, 5, 6], [0, 5, 6], [1, 5, 6], [0, 4, 5, 6]]))
    specs = honest(path)
    how = draw(st.sampled_from(["as it is", "others", "same kid", "as it is"]))
    if how != "as it is":
        s = specs[draw(st.integers(0, len(specs) - 2))]
        if how == "others":
            s["j"] = [2 * s["s"] + 1]
        else:
            s["extra"] = {"jwks": {"keys": [dict(pub(EC[16]), kid=key(2 * s["s"])["kid"])]}}
    return {"specs": specs, "muts": [f"rekeyed-{how}"]}


@st.composite
def announce(draw):
    """An anchor's own entity configuration that lists keys it is not configured with"""
    anchor = draw(st.sampled_from([0, 1]))
    specs = honest([anchor])
    specs[-1]["j"] = draw(st.sampled_from([[16], [16, 2 * anchor], [2 * anchor, 17]]))
    return {"specs": specs, "muts": [f"announce-{anchor}"]}


step = st.one_of(chain_case(starts=(0, 1)), poison(), exploit(), announce(), rekeyed(), rekeyed())


def anchor_state(fe):
    res = {}
    for eid in (IDS[0], IDS[1], EV):
        res[eid] = sorted(k.kid for k in fe.keyjar.get_issuer_keys(eid))
    return res


def run(ctx):
    def history(case):
        with world(handler):
            fe = evaluator()
            seen_open = False
            keys0 = anchor_state(fe)
            verdicts = []
            for n, c in enumerate(case):
                tokens = build(c["specs"])
                v, info = ref_verify(tokens, all_anchor_keys())
                out = attempt(fe.function.verifier, list(tokens))
                got = out.value if out.ok else None
                verdicts.append(v)
                if info == "tail":
                    pass
                elif v == "reject":
                    require(not got, lambda: f"step {n} ({c['muts']}): chain accepted that a fresh evaluator "
                                             f"must reject ({info})", f"accepted-{info}")
                elif v == "accept":
                    require(got, lambda: f"step {n} ({c['muts']}): valid chain rejected after "
                                         f"{[x['muts'] for x in case[:n]]}: {out}", "rejected-valid")
                    require([dict(x) for x in got.verified_chain] == info, "verified statements differ", "payload")
                now = anchor_state(fe)
                require(now == keys0, lambda: f"step {n} ({c['muts']}) changed the keys held for an anchor "
                                              f"or for the evaluator: {keys0} -> {now}", "anchor-keys")
            for c in case:
                for m in c["muts"]:
                    if m.startswith(("poison", "exploit", "announce", "rekeyed")):
                        ctx.label(m)
            if len(set(verdicts)) > 1:
                ctx.nontriv([c["specs"] for c in case])
            ctx.label(f"steps-{len(case)}")

    ctx.prop("history", st.lists(step, min_size=2, max_size=7), history, 700,
             rule="history of >=2 verifications with both accepted and rejected chains")

    def added(case):
        """one becomes a trust anchor later (the operator adds it): from then on its keys are those given then, whatever
        was heard about it before"""
        via, new, key_slot, steps = case
        with world(handler):
            fe = entity(EV, 0, trust_anchors={IDS[0]: jwks(key(0))})
            known = {IDS[0]: jwks(key(0)), EV: jwks(RSA[0])}
            verdicts = set()
            for n, c in enumerate(steps):
                if c == "add":
                    if IDS[new] not in known:
                        j = jwks(key(2 * new + key_slot))
                        (fe if via == "entity" else fe.function.trust_chain_collector).add_trust_anchor(IDS[new], copy.deepcopy(j))
                        known[IDS[new]] = j
                    kids = sorted(k.kid for k in fe.keyjar.get_issuer_keys(IDS[new]))
                    require(kids == sorted(k["kid"] for k in known[IDS[new]]["keys"]),
                            lambda: f"step {n}: {IDS[new]} became a trust anchor with the keys {[k['kid'] for k in known[IDS[new]]['keys']]}, "
                                    f"its keys are {kids} after {[x if x == 'add' else x['muts'] for x in steps[:n]]}", "added-keys")
                    continue
                tokens = build(c["specs"])
                v, info = ref_verify(tokens, known)
                out = attempt(fe.function.verifier, list(tokens))
                got = out.value if out.ok else None
                if v == "reject" and info != "tail":
                    require(not got, lambda: f"step {n} ({c['muts']}): chain accepted that must be refused ({info})", f"accepted-{info}")
                elif v == "accept":
                    require(got, lambda: f"step {n} ({c['muts']}): valid chain refused: {out}", "rejected-valid")
                    if IDS[new] in known and got.anchor == IDS[new]:
                        ctx.label("added-anchor")
                        verdicts.add("added")
                verdicts.add(v)
            if "added" in verdicts:
                ctx.nontriv([via, new, [c if c == "add" else c["specs"] for c in steps]])

    def about(new):
        """honest and hostile chains in which the one to be added takes part"""
        @st.composite
        def f(draw):
            kind = draw(st.sampled_from(["below", "top", "top", "exploit", "poison"]))
            leaf = draw(st.sampled_from([6, 7]))
            if kind == "below":
                specs = honest([0, new, leaf], second=draw(st.booleans()))
            elif kind == "poison":
                specs = honest([0, 5, new] if draw(st.booleans()) else [0, 5, new, leaf])
                bad = draw(st.sampled_from([16, 17]))
                for s in specs:
                    if s["s"] == new and s["i"] != new:
                        s["j"] = [bad]
                    if s["i"] == new:
                        s["k"] = s["kid"] = bad
                        s["j"] = [bad] if s["s"] == new else s["j"]
            else:
                specs = honest([new, leaf])
                k = 2 * new if kind == "top" else draw(st.sampled_from([16, 17, 2 * new + 1]))
                if kind == "top":
                    k += draw(st.sampled_from([0, 0, 1]))
                specs[0]["k"] = specs[0]["kid"] = k
            return {"specs": specs, "muts": [kind]}
        return f()

    ctx.prop("added", st.sampled_from([1, 4, 3]).flatmap(lambda new: st.tuples(
        st.sampled_from(["entity", "collector"]), st.just(new), st.sampled_from([0, 0, 1]),
        st.tuples(st.lists(about(new), max_size=3), st.lists(st.one_of(about(new), about(new), about(new), st.just("add")), min_size=1, max_size=4))
        .map(lambda x: x[0] + ["add"] + x[1]))), added, 300,
        rule="a chain to an anchor added later is accepted")

    def network(case):
        """the same over the network: a hostile intermediate serves keys for others while chains are
        collected; resolution of an unrelated entity gives what a fresh evaluator gets"""
        from fedservice.entity.function import get_verified_trust_chains
        ta, ta1, bad, good, leaf, victim = (IDS[0], IDS[1], IDS[4], IDS[5], IDS[6], IDS[7])
        targets = {"ta1": ta1, "ev": EV, "good": good, "leaf": leaf, "ta": ta}

        def mk(net, clock):
            nodes = {ta: {"key": 0}, ta1: {"key": 2},
                     bad: {"key": 8, "sup": [ta]}, good: {"key": 10, "sup": [ta, ta1][:1 + case["two"]]},
                     leaf: {"key": 12, "sup": [good], "meta": {"openid_provider": {"issuer": leaf}}},
                     victim: {"key": 14, "sup": [bad], "meta": {"openid_provider": {"issuer": "v"}}}}
            fed = PaperFed(nodes, clock)
            calls = []

            def h(method, url, headers, body):
                from fedlib import split_url
                base, q = split_url(url)
                calls.append(url)
                if base == f"{bad}/fetch":
                    # the hostile intermediate answers about anybody
                    sub = q.get("sub", "")
                    p = {"iss": bad, "sub": targets[case["about"]] if case["lie"] else sub,
                         "iat": NOW, "exp": NOW + DAY, "jwks": jwks(EC[16], EC[14])}
                    return 200, ES_CT, sign(p, EC[8])
                if case["hint"] and base in well_known_urls(victim):
                    p = fed.ec_payload(victim)
                    p["authority_hints"] = [bad]
                    p["iss"] = p["sub"] = targets[case["about"]]
                    p["jwks"] = jwks(EC[16])
                    return 200, ES_CT, sign(p, EC[16])
                return fed.handler(method, url, headers, body)
            net.add(h)
            return nodes

        def view(fe):
            o = attempt(get_verified_trust_chains, fe, leaf)
            if not o.ok:
                return ["exc", type(o.err).__name__]
            return [[t.anchor, t.iss_path, t.exp, t.metadata] for t in o.value]

        with world() as (clock, net):
            mk(net, clock)
            an = {ta: jwks(EC[0]), ta1: jwks(EC[2])}
            fresh = view(entity(EV, 0, trust_anchors=an))
            fe = entity(EV, 0, trust_anchors=an)
            before = anchor_keys(fe, (ta, ta1, EV))
            attempt(get_verified_trust_chains, fe, victim)
            after = anchor_keys(fe, (ta, ta1, EV))
            require(before == after, f"keys of an anchor/self changed by a hostile intermediate: {before} -> {after}",
                    "anchor-keys")
            got = view(fe)
            require(got == fresh, f"resolution of an unrelated entity changed by a hostile intermediate: "
                                  f"{got} instead of {fresh}", "poisoned")
            require(fresh and fresh[0] != "exc" and len(fresh) == 1 + case["two"],
                    f"honest entity not resolvable: {fresh}", "honest")
            ctx.nontriv(case)
            ctx.label(f"about-{case['about']}")

    def anchor_keys(fe, ids):
        return {e: sorted(k.kid for k in fe.keyjar.get_issuer_keys(e)) for e in ids}

    ctx.prop("network", st.fixed_dictionaries({
        "about": st.sampled_from(["ta1", "ev", "good", "leaf", "ta"]), "lie": st.booleans(),
        "hint": st.booleans(), "two": st.booleans()}), network, 40,
        rule="hostile intermediate's answers about one of five victims")

    def rollover(case):
        """keys are changed and old ones are abused: a long-lived evaluator says what a fresh one says"""
        from fedservice.entity.function import get_verified_trust_chains
        ta, im, leaf, im2 = IDS[0], IDS[4], IDS[6], IDS[5]
        seen = set()
        with world() as (clock, net):
            nodes = {ta: {"key": 0}, im: {"key": 2, "sup": [ta]}, im2: {"key": 4, "sup": [ta]},
                     leaf: {"key": 6, "sup": [im, im2], "meta": {"openid_provider": {"issuer": leaf}}}}
            fed = Rolling(nodes, clock)
            net.add(fed.handler)
            an = {ta: jwks(EC[0])}
            old = entity(EV, 0, trust_anchors=an)
            for n, (op, node, x) in enumerate(case):
                eid = [leaf, im, im2][node]
                now = nodes[eid]["key"]
                if op == "roll":           # new keys, known to the superiors
                    nodes[eid]["key"] = 8 + x
                    fed.clear(eid)
                elif op == "secret":       # new keys, the superiors still vouch for the present ones
                    fed.vouched[eid] = fed.vouched.get(eid, now)
                    nodes[eid]["key"] = 8 + x
                elif op == "forge":        # the configuration is signed with some other key than those it contains
                    fed.signer[eid] = x
                elif op == "heal":
                    fed.clear(eid)
                clock.now += 2 * DAY
                views = []
                for fe in (old, entity(EV, 0, trust_anchors=an)):
                    o = attempt(get_verified_trust_chains, fe, leaf)
                    views.append([[t.anchor, t.iss_path, t.exp, t.metadata] for t in o.value or []] if o.ok else [])
                require(views[0] == views[1], lambda: f"step {n} of {case}: the evaluator that has seen more finds {views[0]}, "
                                                      f"a fresh one {views[1]}", "history")
                honest = [p for i, p in ((im, [leaf, im]), (im2, [leaf, im2])) if fed.honest(leaf) and fed.honest(i)]
                got = [t[1][:-1] for t in views[0]]
                require(sorted(got) == sorted(honest), lambda: f"step {n} of {case}: chains {views[0]}, expected through {honest}", "keys")
                seen.add(len(got))
                ctx.label(f"chains-{len(got)}", op)
            if len(seen) > 1:
                ctx.nontriv()

    ctx.prop("rollover", st.lists(st.tuples(st.sampled_from(["roll", "roll", "secret", "forge", "heal"]), st.integers(0, 2), st.integers(0, 9)),
                                  min_size=2, max_size=6), rollover, 250,
             rule="key changes after which the number of valid chains differs")


class Rolling(PaperFed):
    """vouched: the key the superiors state instead of the present one; signer: what the configuration is signed with"""

    def __init__(self, *args):
        PaperFed.__init__(self, *args)
        self.vouched, self.signer = {}, {}

    def clear(self, eid):
        self.vouched.pop(eid, None)
        self.signer.pop(eid, None)

    def honest(self, eid):
        key = self.nodes[eid]["key"]
        return self.vouched.get(eid, key) == key and self.signer.get(eid, key) == key

    def ec(self, eid):
        p = self.ec_payload(eid)
        return sign(p, EC[self.signer.get(eid, self.nodes[eid]["key"])])

    def stmt_payload(self, sup, sub):
        p = PaperFed.stmt_payload(self, sup, sub)
        p["jwks"] = jwks(EC[self.vouched.get(sub, self.nodes[sub]["key"])])
        return p
