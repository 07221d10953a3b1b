"""C08: cached statements are used only while they are fresh; nothing stale, nothing invented, and what
the network offers is always found."""
import json

from hypothesis import strategies as st

from gen import weighted

from fedlib import DAY, EC, NOW, PaperFed, entity, jwks, payload_of, split_url, world
from vf import attempt, canon, require

TA, IM1, IM2, L1, L2 = ("https://ta.example.org", "https://im1.example.org", "https://im2.example.com/t",
                        "https://l1.example.org", "https://l2.example.org")
IDS = [TA, IM1, IM2, L1, L2]
EDGES = [(TA, IM1), (TA, IM2), (IM1, L1), (IM1, L2), (IM2, L2)]
PATHS = {3: [(L1, IM1, TA)], 4: [(L2, IM1, TA), (L2, IM2, TA)], 1: [(IM1, TA)], 2: [(IM2, TA)]}
TTL = [100, 310, 610, 700, 1300, 3600, DAY]

op = weighted(
    (4, st.fixed_dictionaries({"op": st.just("resolve"), "e": st.sampled_from([3, 4, 4, 3, 4, 1])})),
    (2, st.fixed_dictionaries({"op": st.just("advance"),
                           "s": st.sampled_from([1, 9, 10, 50, 90, 99, 100, 101, 250, 299, 300, 301, 310, 599, 600, 601, 610, 611,
                                                 400, 401, 700, 900, 1000, 1300, 3600, DAY - 100, DAY])})),
    (1, st.fixed_dictionaries({"op": st.just("meta"), "e": st.sampled_from([3, 4])})),
    (1, st.fixed_dictionaries({"op": st.sampled_from(["revoke", "restore"]), "edge": st.integers(0, 4)})),
    (1, st.fixed_dictionaries({"op": st.just("rotate"), "e": st.sampled_from([1, 3, 4])})),
    (1, st.fixed_dictionaries({"op": st.sampled_from(["unhint", "hint"]), "edge": st.integers(0, 4)})),
    (1, st.fixed_dictionaries({"op": st.just("move"), "e": st.integers(0, 2)})),
    (1, st.fixed_dictionaries({"op": st.just("down"), "who": st.sampled_from([None, None, 0, 1, 1, 2, 3]),
                               "how": st.sampled_from(["conn", "500", "404", "garbage"])})),
    (1, st.fixed_dictionaries({"op": st.just("up")})),
    (1, st.fixed_dictionaries({"op": st.just("restart")})),
)


@st.composite
def cases(draw):
    uniform = draw(st.booleans())
    t = draw(st.sampled_from(TTL))
    if draw(st.integers(0, 2)) == 0:    # something changes while what was seen before is still remembered, or just not any more
        change = {"op": "unhint", "edge": draw(st.integers(0, 4))}
        change = draw(st.sampled_from([change, change, {**change, "op": "revoke"}, {"op": "move", "e": draw(st.integers(0, 2))},
                                       {"op": "rotate", "e": draw(st.sampled_from([1, 3, 4]))}]))
        again = draw(st.sampled_from([3, 4]))
        ops = [{"op": "resolve", "e": again}, change] + draw(st.lists(op, max_size=1))
        for s in draw(st.lists(st.sampled_from([101, 310, 611, 700, 1301, 3601]), min_size=1, max_size=3)):
            ops += [{"op": "advance", "s": s}]
            if draw(st.integers(0, 2)) == 0:
                ops += [{"op": "down", "who": draw(st.sampled_from([None, 0, 1, 2, 3, 4])), "how": draw(st.sampled_from(["conn", "500", "404", "garbage"]))},
                        {"op": "resolve", "e": again}, {"op": "up"}]
            ops += [{"op": "resolve", "e": again}]
        return {"ttl": [draw(st.sampled_from([310, 610, 1300, DAY])) for _ in IDS],
                "sttl": [draw(st.sampled_from([700, 1300, DAY, DAY])) for _ in EDGES], "ops": ops}
    return {"ttl": [t if uniform else draw(st.sampled_from(TTL)) for _ in IDS],
            "sttl": [t if uniform else draw(st.sampled_from(TTL)) for _ in EDGES],
            "ops": [{"op": "resolve", "e": 4}] + draw(st.lists(op, min_size=2, max_size=14)) +
                   [{"op": "resolve", "e": draw(st.sampled_from([3, 4]))}]}


def run(ctx):
    ctx.assumptions += ["the clock is virtual and moves only between operations",
                        "the virtual network issues statements at the moment they are requested"]

    def history(case):
        from fedservice.entity.function import get_verified_trust_chains
        nodes = {e: {"key": i, "sup": [], "ttl": case["ttl"][i], "sttl": {},
                     "meta": {"openid_relying_party": {"version": 0}, "federation_entity": {"federation_fetch_endpoint": f"{e}/fetch"}}}
                 for i, e in enumerate(IDS)}
        for (a, b), s in zip(EDGES, case["sttl"]):
            nodes[b]["sup"].append(a)
            nodes[b]["sttl"][a] = s
            nodes[b].setdefault("stmt", {})[a] = {}
        maxttl = max(case["ttl"] + case["sttl"])
        served, fetched_at = {}, {}
        problems = []
        down = {}
        revoked, unhinted = {}, {}
        changed = {}  # key/edge history: last change time of (edge) or entity keys
        spare = [10]
        with world() as (clock, net):
            fed = PaperFed(nodes, clock)

            def h(method, url, headers, body):
                base, q = split_url(url)
                for who, how in down.items():
                    if base.startswith(who.removesuffix("/t")):
                        return fed.dead(how)
                if "/fetch" in base:
                    who = base[:base.index("/fetch")]
                    if base != nodes[who]["meta"]["federation_entity"]["federation_fetch_endpoint"]:
                        return 404, {"Content-Type": "text/plain"}, "moved"
                    if (who, q.get("sub")) in revoked:
                        return 404, {"Content-Type": "text/plain"}, "no"
                    url = url.replace(base, f"{who}/fetch")
                r = fed.handler(method, url, headers, body)
                if r and r[0] == 200:
                    p = payload_of(r[2])
                    served[canon(p)] = clock.now
                    prev = fetched_at.get((p["iss"], p["sub"]))
                    if prev is not None and clock.now < prev - 600:
                        problems.append(f"statement {p['iss']} about {p['sub']} fetched again at "
                                        f"{clock.now - NOW} although the one at hand is good until {prev - NOW}")
                    fetched_at[(p["iss"], p["sub"])] = p["exp"]
                return r
            net.add(h)
            fe = entity("https://ev.example.org", 0, trust_anchors={TA: fed.jwks(TA)})
            for n, o in enumerate(case["ops"]):
                k = o["op"]
                if k == "advance":
                    clock.advance(o["s"])
                elif k == "meta":
                    nodes[IDS[o["e"]]]["meta"]["openid_relying_party"]["version"] += 1
                elif k == "revoke":
                    e = EDGES[o["edge"]]
                    revoked.setdefault(e, clock.now)
                    changed[e] = clock.now
                elif k == "restore":
                    e = EDGES[o["edge"]]
                    revoked.pop(e, None)
                    changed[e] = clock.now
                elif k == "rotate":
                    spare[0] += 1
                    nodes[IDS[o["e"]]]["key"] = spare[0]
                    changed[IDS[o["e"]]] = clock.now
                elif k == "restart":    # what was written down by one process is read by another
                    from fedservice.entity_statement.cache import ESCache
                    old = fe.function.trust_chain_collector
                    fe = entity("https://ev.example.org", 0, trust_anchors={TA: fed.jwks(TA)})
                    for cache in ("config_cache", "entity_statement_cache"):
                        state = json.loads(json.dumps(getattr(old, cache).dump()))
                        setattr(fe.function.trust_chain_collector, cache, ESCache(allowed_delta=7).load(state))
                    ctx.label("restarted")
                elif k in ("unhint", "hint"):
                    a, b = e = EDGES[o["edge"]]
                    if k == "unhint":
                        unhinted.setdefault(e, clock.now)
                    else:
                        unhinted.pop(e, None)
                    nodes[b]["sup"] = [x for x, y in EDGES if y == b and (x, y) not in unhinted]
                    changed[e] = clock.now
                elif k == "move":
                    nodes[IDS[o["e"]]]["meta"]["federation_entity"]["federation_fetch_endpoint"] = f"{IDS[o['e']]}/fetch/{n}"
                    changed[IDS[o["e"]]] = clock.now
                elif k == "down":
                    down.update({e: o["how"] for e in (IDS if o["who"] is None else [IDS[o["who"]]])})
                elif k == "up":
                    down.clear()
                else:
                    eid = IDS[o["e"]]
                    nreq = len(net.log)
                    out = attempt(get_verified_trust_chains, fe, eid)
                    chains = out.value if out.ok else []
                    require(not problems, lambda: f"op {n}: {problems[0]}", "refetch")
                    if eid not in down:
                        require(out.ok, lambda: f"op {n}: resolution failed: {out}", "raise")
                    got = {}
                    for t in chains:
                        for s in t.verified_chain:
                            s = {k2: v for k2, v in dict(s).items() if k2 != "_jws"}
                            require(s["exp"] >= clock.now, lambda: f"op {n}: expired statement used: {s}", "expired")
                            require(canon(s) in served, lambda: f"op {n}: statement nobody issued: {s}", "invented")
                            require(s["exp"] >= clock.now + 600 or served[canon(s)] == clock.now, lambda: f"op {n}: used "
                                    f"from the cache although about to expire, in {s['exp'] - clock.now} s: {s}", "not-refreshed")
                        require(t.exp >= clock.now, "expired chain", "expired")
                        got[tuple(t.iss_path)] = t
                        v = t.metadata["openid_relying_party"]["version"]
                        ecp = dict(t.verified_chain[-1])
                        require(ecp["sub"] == eid, "wrong leaf", "leaf")
                        require(v == ecp["metadata"]["openid_relying_party"]["version"],
                                "metadata is not from the configuration used", "mixed")
                    if len(down) == len(IDS):
                        ctx.label("offline-hit" if chains else "offline-miss")
                        continue
                    quiet = len(net.log) == nreq
                    ctx.label("from-cache" if quiet else "fetched")
                    for path in PATHS[o["e"]]:
                        edges = [(b, a) for a, b in zip(path, path[1:])]
                        gone = [revoked[e] + case["sttl"][EDGES.index(e)] for e in edges if e in revoked]
                        gone += [unhinted[e] + case["ttl"][IDS.index(e[1])] for e in edges if e in unhinted]
                        recent = [x for x in edges + list(path)
                                  if x in changed and clock.now <= changed[x] + maxttl]
                        if gone:
                            if clock.now > min(gone):
                                require(path not in got, f"op {n}: path {path} still accepted after the revocation "
                                                         f"outlived every statement", "revoked")
                                ctx.label("revocation-effective")
                        elif not recent and not down.keys() & set(path):
                            require(path in got, lambda: f"op {n}: path {path} not found although the network "
                                                         f"offers fresh statements; got {list(got)}", "lost")
                    if any(x["op"] == "advance" for x in case["ops"][:n]):
                        ctx.nontriv()

    ctx.prop("history", cases(), history, 1200,
             rule="history with a resolution after the clock has moved")
