"""C03: collection yields exactly the simple authority paths, terminates on any graph, and survives dead
authorities."""
from hypothesis import strategies as st

from fedlib import DAY, EC, NOW, PaperFed, entity, jwks, payload_of, sign, world
from vf import attempt, require

ID = ["https://leaf.example.org", "https://a.example.org", "https://b.example.org/t",
      "https://c.example.com", "https://d.example.org/t/u", "https://ta.example.org", "https://b.example.org"]  # an anchor shares its host with a tenant
HOW = ["404", "conn", "500", "garbage", "html", "empty"]


@st.composite
def graphs(draw):
    n = len(ID)
    sup = []
    for i in range(n):
        if i in (5, 6):
            sup.append(draw(st.sampled_from([[], [], [], [5], [6], [1]] if i == 5 else [[], [], [], [5], [6], [1], [2], [2, 5]])))
        else:
            sup.append(draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True,
                                     min_size=1 if i in (0, 1) else 0)))
    dead = draw(st.lists(st.sampled_from([1, 2, 3, 4, 6]), max_size=2, unique=True)) if draw(st.booleans()) else []
    nofetch = draw(st.lists(st.sampled_from([1, 2, 3, 4]), max_size=1)) if draw(st.booleans()) else []
    nostmt = draw(st.lists(st.tuples(st.integers(1, 6), st.integers(0, 4)), max_size=2)) if draw(st.booleans()) else []
    return {"sup": sup, "dead": [[d, draw(st.sampled_from(HOW))] for d in dead], "nofetch": nofetch,
            "nostmt": [list(x) for x in nostmt], "how": draw(st.sampled_from(HOW)),
            "stop": draw(st.sampled_from([-1, -1, 5, 6, 1, 2, 2, 3])),
            "empty_hints": draw(st.booleans()), "twice": draw(st.booleans()),
            "via": draw(st.sampled_from(["fetch", "given", "hints"])),
            "hints": draw(st.lists(st.integers(1, 6), max_size=2, unique=True, min_size=1))}


def model(case, leaf=0, first=None):
    """(required full paths, all allowed paths), each path a tuple of node indexes starting at the leaf"""
    dead = {d for d, _ in case["dead"]}
    nos = {tuple(x) for x in case["nostmt"]}

    def usable(sub, sup):
        return sup not in dead and sup not in case["nofetch"] and (sup, sub) not in nos

    full, allowed = set(), set()

    def walk(path):
        node = path[-1]
        hints = first if (first is not None and len(path) == 1) else case["sup"][node]
        if len(path) > 1:
            allowed.add(path)
        if node == case["stop"] or not hints:
            if len(path) > 1:
                full.add(path)
            return
        for h in hints:
            if h in path or not usable(node, h):
                continue
            walk(path + (h,))
    walk((leaf,))
    return full, allowed


def nodes_of(case):
    nodes = {}
    for i, eid in enumerate(ID):
        nodes[eid] = {"key": i, "sup": [ID[s] for s in case["sup"][i]]}
        if not nodes[eid]["sup"] and case["empty_hints"]:
            nodes[eid]["ec"] = {"authority_hints": []}
        if i in case["nofetch"]:
            nodes[eid]["fetch"] = False
        nostmt = [ID[b] for a, b in case["nostmt"] if a == i]
        if nostmt:
            nodes[eid]["nostmt"] = nostmt
            nodes[eid]["nostmt_how"] = case["how"]
    for h in case["hints"]:
        nodes[ID[0]].setdefault("stmt", {})[ID[h]] = {}
    for d, how in case["dead"]:
        nodes[ID[d]]["dead"] = how
    return nodes


def run(ctx):
    ctx.assumptions += ["the virtual network stands for HTTP", "at most 7 entities, 3 authority hints each"]

    def collect(case):
        from fedservice.entity.function import collect_trust_chains
        with world() as (clock, net):
            fed = PaperFed(nodes_of(case), clock)
            net.add(fed.handler)
            fe = entity("https://ev.example.org", 0,
                        trust_anchors={ID[5]: fed.jwks(ID[5]), ID[6]: fed.jwks(ID[6])})
            kw = {"stop_at": ID[case["stop"]] if case["stop"] >= 0 else ""}
            first = None
            if case["via"] != "fetch":
                kw["signed_entity_configuration"] = fed.ec(ID[0])
            if case["via"] == "hints":
                kw["authority_hints"] = [ID[h] for h in case["hints"]]
                first = case["hints"]
            full, allowed = model(case, first=first)
            if len(allowed) > 60:
                from vf import Skip
                raise Skip
            for rnd in range(1 + case["twice"]):
                out = attempt(collect_trust_chains, fe, ID[0], **kw)
                require(out.ok, lambda: f"collection failed: {out}", f"raise-{type(out.err).__name__}")
                chains, ec = out.value
                got = []
                for ch in chains:
                    path = [ID[0]]
                    for tok in reversed(ch):
                        p = payload_of(tok)
                        require(p["sub"] == path[-1], f"broken link: statement about {p['sub']} after {path}", "link")
                        path.append(p["iss"])
                    got.append(tuple(ID.index(x) for x in path))
                for g in got:
                    require(len(set(g)) == len(g), f"a trust chain visits an entity twice: {g}", "cycle")
                    if len(g) > 1:
                        require(g in allowed, f"collected a chain {g} that the published hints do not give", "extra")
                require(len(set(got)) == len(got), f"duplicates: {got}", "duplicates")
                missing = full - set(got)
                require(not missing, lambda: f"authority paths not collected: {sorted(missing)}; got {got}", "missing")
                if chains or case["via"] != "fetch":
                    require(ec and payload_of(ec)["sub"] == ID[0], "leaf configuration not returned", "leaf")
            cyc = any(i in case["sup"][j] and j in case["sup"][i] for i in range(7) for j in range(7))
            ctx.label("cyclic" if cyc else "acyclic", f"paths-{min(len(full), 5)}")
            if case["dead"] or case["nofetch"] or case["nostmt"]:
                ctx.label("faulty-authority")
            if len(full) >= 2 or (cyc and full):
                ctx.nontriv()

    ctx.prop("collect", graphs(), collect, 600,
             rule="graph with >=2 complete authority paths, or a cycle and a complete path")
