"""C28: walking down a federation finds what the members that can be trusted list, comes to an end, and teaches the
walker nothing about keys."""
import json
import urllib.parse

from hypothesis import strategies as st

from fedlib import DAY, EC, ES_CT, NOW, PaperFed, entity, jwks, payload_of, sign, split_url, well_known_urls, world
from gen import weighted
from vf import attempt, require

EV, TA = "https://ev.example.org", "https://ta.example.org"
N = ["https://a.example.org", "https://b.example.org", "https://a.example.org/t", "https://c.example.com", "https://d.example.com/x/y",
     "https://e.example.org", "https://f.example.org"]
TYPES = ["openid_provider", "openid_relying_party", "oauth_client", "federation_entity"]
ROGUE, ROGUE_TA, OTHER = 38, 39, 37
BAD_LISTS = ["404", "500", "401", "conn", "garbage", "dict", "error", "odd", "string", "null", "empty"]


class Listing(PaperFed):
    """nodes have types, and those with `im` publish a list of their subordinates"""
    lists = {}  # node -> fault
    extra = {}  # node -> ids it lists besides, though it isn't above them
    moved = ()  # nodes whose list is somewhere else now
    fake = None  # a member that issues statements about the anchor

    def below(self, e):
        return [x for x in self.nodes if e in self.nodes[x]["sup"]]

    def listed(self, e, q):
        """what e answers, by the specification of the list endpoint"""
        ids = self.below(e) + [x for x in self.extra.get(e, []) if x not in self.below(e)]
        if q.get("intermediate", "false").lower() != "false":
            ids = [x for x in ids if x in self.nodes and self.nodes[x]["im"]]
        if "entity_type" in q:
            ids = [x for x in ids if x in self.nodes and q["entity_type"] in self.meta(x)]
        return ids

    def list_endpoint(self, e):
        return e + ("/list2" if e in self.moved else "/list")

    def move(self, moved):
        self.moved = moved
        for e, n in self.nodes.items():
            if n["im"]:
                n["meta"]["federation_entity"]["federation_list_endpoint"] = self.list_endpoint(e)

    def handler(self, method, url, headers, body):
        base, q = split_url(url)
        if base.endswith(("/list", "/list2")):
            e = base.rsplit("/", 1)[0]
            if e not in self.nodes or not self.nodes[e]["im"] or base != self.list_endpoint(e):
                return 404, {}, "nothing"
            how = self.lists.get(e)
            ct = {"Content-Type": "application/json"}
            if how in ("404", "500", "401"):
                return int(how), ct, '{"error": "x"}'
            if how == "conn":
                return self.dead("conn")
            ids = self.listed(e, q)
            return 200, ct, {"garbage": "<html>", "dict": json.dumps({x: 1 for x in ids}), "error": '{"error": "server_error"}',
                             "odd": json.dumps(ids + [None, 5, {"a": ids}, [TA]]), "string": '"' + TA + '"', "null": "null",
                             "empty": ""}.get(how, json.dumps(ids))
        if self.fake and base == self.fake + "/fetch":
            sub = q.get("sub", self.fake)
            if sub == TA or sub not in self.below(self.fake):
                now = int(self.clock.now)
                return 200, ES_CT, sign({"iss": self.fake, "sub": sub, "iat": now, "exp": now + DAY, "jwks": jwks(EC[ROGUE_TA])},
                                        self.keys(self.fake)[0])
        return super().handler(method, url, headers, body)


def build(case, clock):
    nodes = {TA: {"key": 0, "sup": [], "im": True, "types": []}}
    for i, n in enumerate(case["nodes"]):
        nodes[N[i]] = {"key": i + 1, "im": n["im"], "types": n["types"], "sup": []}
    ims = [TA] + [x for x in nodes if x != TA and nodes[x]["im"]]
    for i, n in enumerate(case["nodes"]):
        for s in n["sup"]:
            up = ims[s % len(ims)]
            if up != N[i] and up not in nodes[N[i]]["sup"]:
                nodes[N[i]]["sup"].append(up)
    for e, n in nodes.items():
        n["fetch"] = n["im"]
        n["meta"] = {t: {"client_name": e} for t in n["types"] if t != "federation_entity"}
        n["meta"]["federation_entity"] = {"organization_name": e}
        if n["im"]:
            n["meta"]["federation_entity"]["federation_list_endpoint"] = e + "/list"
    return Listing(nodes, clock)


def trusted(fed, dead, cut):
    """those that have a path to the anchor"""
    def up(e, path):
        if e == TA:
            return True
        if e in dead:
            return False
        return any(s not in path and s not in dead and (s, e) not in cut and up(s, path + (s,)) for s in fed.nodes[e]["sup"])
    return {e for e in fed.nodes if up(e, (e,))}


def walk(fed, start, typ, trust, above):
    found, seen, todo = set(), set(above), [start]
    while todo:
        e = todo.pop()
        if e in seen or e not in fed.nodes:
            continue
        seen.add(e)
        if e not in trust:
            continue
        if typ in fed.meta(e):
            found.add(e)
        if not fed.nodes[e]["im"]:
            continue
        how = fed.lists.get(e)
        if how and how != "odd":
            continue
        found |= set(fed.listed(e, {"entity_type": typ}))
        todo += fed.listed(e, {"intermediate": "true"})
    return found, seen


class Faulty(object):
    def __init__(self, fed):
        self.fed, self.dead_how, self.cut_how = fed, {}, {}

    def __call__(self, method, url, headers, body):
        base, q = split_url(url)
        for e, how in self.dead_how.items():
            if base == well_known_urls(e)[1]:
                if how == "forged":
                    return 200, ES_CT, sign(self.fed.ec_payload(e), EC[ROGUE])
                if how == "other":
                    return 200, ES_CT, self.fed.ec(TA)
                if how == "garbage":
                    return 200, ES_CT, "a.b.c"
                return self.fed.dead(how)
        for (s, e), how in self.cut_how.items():
            if base == s + "/fetch" and q.get("sub") == e:
                if how == "forged":
                    return 200, ES_CT, sign(self.fed.stmt_payload(s, e), EC[ROGUE])
                if how == "otherkey":
                    p = self.fed.stmt_payload(s, e)
                    p["jwks"] = jwks(EC[OTHER])
                    return 200, ES_CT, sign(p, self.fed.keys(s)[0])
                return self.fed.dead(how)
        return None


def run(ctx):
    ctx.assumptions += ["what the list endpoint of a trusted entity says is not doubted: ids that it lists for the type are reported as they are",
                        "statements say nothing about metadata; the walker has no place in the tree itself"]

    def tree(case):
        with world() as (clock, net):
            fed = build(case, clock)
            faults = Faulty(fed)
            evil = {"on": False}

            def usurper(method, url, headers, body):
                """after the walk: someone who has the keys that were given out as the anchor's"""
                if not evil["on"]:
                    return None
                base, q = split_url(url)
                now = int(clock.now)
                pl = {"iat": now, "exp": now + DAY}
                if base == well_known_urls(TA)[1]:
                    pl.update(iss=TA, sub=TA, jwks=jwks(EC[ROGUE_TA]), metadata={"federation_entity": {"federation_fetch_endpoint": TA + "/fetch"}})
                    return 200, ES_CT, sign(pl, EC[ROGUE_TA])
                if base == TA + "/fetch":
                    pl.update(iss=TA, sub=q.get("sub"), jwks=jwks(EC[ROGUE]))
                    return 200, ES_CT, sign(pl, EC[ROGUE_TA])
                if base == "https://evil.example.net/.well-known/openid-federation":
                    pl.update(iss="https://evil.example.net", sub="https://evil.example.net", jwks=jwks(EC[ROGUE]), authority_hints=[TA],
                              metadata={"openid_provider": {"client_name": "evil"}})
                    return 200, ES_CT, sign(pl, EC[ROGUE])
                return None

            net.add(usurper)
            net.add(faults)
            net.add(fed.handler)
            from fedservice import defaults
            services = defaults.federation_services("entity_configuration", "entity_statement", "list", "resolve")
            fe = entity(EV, 0, trust_anchors={TA: fed.jwks(TA)}, services=services)
            names = N[:len(case["nodes"])]
            ims = [x for x in names if fed.nodes[x]["im"]]
            for rnd in case["rounds"]:
                fed.lists = {ims[i % len(ims)]: how for i, how in rnd["lists"]} if ims else {}
                fed.extra = {}
                fed.move([names[i % len(names)] for i in rnd["moved"]])
                for i, j in rnd["extra"]:
                    if ims:
                        fed.extra.setdefault(ims[i % len(ims)], []).append(([TA, "https://elsewhere.example.net"] + names)[j % (len(names) + 2)])
                fed.fake = ims[rnd["fake"] % len(ims)] if ims and rnd["fake"] is not None else None
                if fed.fake:
                    fed.extra.setdefault(fed.fake, []).append(TA)
                faults.dead_how = {names[i % len(names)]: how for i, how in rnd["dead"]}
                faults.cut_how = {}
                for i, j, how in rnd["cut"]:
                    e = names[i % len(names)]
                    if fed.nodes[e]["sup"]:
                        faults.cut_how[(fed.nodes[e]["sup"][j % len(fed.nodes[e]["sup"])], e)] = how
                trust = trusted(fed, set(faults.dead_how), set(faults.cut_how))
                start = names[rnd["start"] % len(names)]
                n0 = len(net.log)
                sup = fed.nodes[start]["sup"][0] if rnd["sup"] and fed.nodes[start]["sup"] else TA
                want, seen = walk(fed, start, rnd["type"], trust, {TA})
                # whether one goes back to where one comes from is left open
                also = [walk(fed, start, rnd["type"], trust, x)[0] for x in ({sup}, {sup, TA}, ())]
                out = attempt(fe.trawl, sup, start, rnd["type"])
                asked = [u for _, u in net.log[n0:] if split_url(u)[0].endswith(("/list", "/list2"))]
                require(out.ok, lambda: f"walking down from {start}: {out}", "raise")
                require(isinstance(out.value, (list, tuple, set)) and all(isinstance(x, str) for x in out.value),
                        lambda: f"found {out.value}", "type")
                got = set(out.value)
                require(got == want or got in also, lambda: f"walking down from {start} for {rnd['type']} finds {sorted(got)}; trusted are {sorted(trust)} and what they "
                        f"list makes {sorted(want)}", "found")
                require(len(asked) <= 4 * len(fed.nodes), lambda: f"{len(asked)} lists are asked for: {asked}", "again")
                for u in asked:
                    require(split_url(u)[0].rsplit("/", 1)[0] in trust, lambda: f"{u}: not a trusted entity", "asked")
                if len(want) > 1 and len(seen & set(ims)) > 1:
                    ctx.nontriv([sorted(want), case["nodes"], rnd["type"]])
                ctx.label(*(f"list-{h}" for h in fed.lists.values()))
                if fed.fake in seen:
                    ctx.label("fake-anchor-statement")
                # nothing was learned about the anchor, or anyone else
                evil["on"] = True
                if rnd["wait"]:
                    clock.advance(rnd["wait"])
                bad = attempt(fe.get_trust_chains, "https://evil.example.net")
                require(not (bad.ok and bad.value), "after the walk a trust chain signed with other keys than the anchor's is accepted", "usurped")
                evil["on"] = False
                clock.advance(2 * DAY)

    @st.composite
    def cases(draw):
        n = draw(weighted((1, st.integers(2, 4)), (2, st.integers(5, len(N)))))
        nodes = []
        for i in range(n):
            nodes.append({"im": draw(weighted((2, st.just(True)), (1, st.just(False)))) if i else True,
                          "types": draw(st.lists(st.sampled_from(TYPES[:2] * 3 + TYPES), min_size=draw(weighted((1, st.just(0)), (4, st.just(1)))), max_size=2, unique=True)),
                          "sup": [draw(st.integers(1, max(i, 1)))] + draw(weighted((3, st.just([])), (1, st.lists(st.integers(0, 7), max_size=1)))) if i else
                          [0] + draw(weighted((4, st.just([])), (1, st.just([2]))))})
        rnd = st.fixed_dictionaries({
            "start": weighted((3, st.just(0)), (1, st.integers(0, n - 1))), "type": weighted((3, st.sampled_from(TYPES[:2])), (1, st.sampled_from(TYPES))),
            "sup": st.booleans(), "lists": weighted((2, st.just([])), (1, st.lists(st.tuples(st.integers(0, n), st.sampled_from(BAD_LISTS)), max_size=1))),
            "extra": weighted((2, st.just([])), (1, st.lists(st.tuples(st.integers(0, n), st.integers(0, n + 2)), max_size=2))),
            "moved": weighted((3, st.just([])), (1, st.lists(st.integers(0, n), max_size=2))),
            "fake": weighted((2, st.none()), (1, st.integers(0, 3))),
            "dead": weighted((2, st.just([])), (1, st.lists(st.tuples(st.integers(0, n), st.sampled_from(["404", "500", "conn", "forged", "other", "garbage"])), max_size=2))),
            "cut": weighted((2, st.just([])), (1, st.lists(st.tuples(st.integers(0, n), st.integers(0, 1), st.sampled_from(["404", "conn", "forged", "otherkey"])), max_size=2))),
            "wait": st.sampled_from([0, 1, 700, 2 * DAY])})
        return {"nodes": nodes, "rounds": draw(st.lists(rnd, min_size=1, max_size=3))}

    ctx.prop("tree", cases(), tree, 400, rule="more than one is found, and more than one intermediate was asked; distinct trees and answers")
