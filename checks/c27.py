"""C27: whatever one member of the federation publishes, only the paths through it suffer, and only as long as it
publishes that."""
import copy
import urllib.parse

from hypothesis import strategies as st

from fedlib import (DAY, EC, ES_CT, NOW, PaperFed, b64e, entity, jwks, payload_of, pub, sign, split_url,
                    verify_sig, well_known_urls, world)
from gen import weighted
from vf import attempt, require

LEAF, L2, A, B, C, TA = ("https://leaf.example.org", "https://leaf2.example.org", "https://a.example.org",
                         "https://b.example.org/t", "https://c.example.com", "https://ta.example.org")
EV = "https://ev.example.org"
RP = "openid_relying_party"
SHAPES = [  # who is above whom
    {LEAF: [A, B], A: [TA], B: [TA]},
    {LEAF: [A, B], A: [C, TA], B: [C], C: [TA]},
    {LEAF: [B, A], A: [C], B: [TA], C: [TA]},
    {LEAF: [A, TA], A: [B, C], B: [TA], C: [TA]},
    {LEAF: [A], A: [B, C], B: [TA], C: [TA]},
]
# odd values of claims: what is a JSON value of some other type, or not what it should be
JUNK = [None, 5, -1, 1.5, True, "", "x", [], [5], [None], [""], ["x"], {}, {"a": 1}, {"keys": 5}, {"keys": [5]},
        {"keys": [{"kty": "XX", "kid": "q"}]}, {"keys": [{}]}, [[]], [{}]]
CLAIMS = ["authority_hints", "metadata", "jwks", "exp", "iat", "iss", "sub", "constraints", "metadata_policy",
          "crit", "policy_language_crit", "trust_marks", "aud", "nbf"]
NESTED = [
    ("metadata", {"federation_entity": None}), ("metadata", {"federation_entity": []}), ("metadata", {}),
    ("metadata", {"federation_entity": {}}), ("metadata", {"federation_entity": {"federation_fetch_endpoint": 5}}),
    ("metadata", {"federation_entity": {"federation_fetch_endpoint": "x"}}),
    ("metadata", {"federation_entity": {"federation_fetch_endpoint": "file:///etc/hostname"}}),
    ("metadata", {"federation_entity": {"federation_fetch_endpoint": TA + "/fetch"}}),
    ("metadata", {"federation_entity": {"federation_fetch_endpoint": "https://nowhere.example.net/f"}}),
    ("metadata", {"openid_relying_party": 5}), ("metadata", {RP: [1]}), ("metadata", {RP: None}),
    ("metadata_policy", {RP: 5}), ("metadata_policy", {RP: None}), ("metadata_policy", {RP: {"scope": 5}}),
    ("metadata_policy", {RP: {"scope": {"subset_of": 5}}}), ("metadata_policy", {RP: {"scope": {"add": None}}}),
    ("metadata_policy", {RP: {"scope": {"one_of": {"a": 1}}}}), ("metadata_policy", {RP: []}),
    ("metadata_policy", {RP: {"scope": {"value": {"a": [1]}, "subset_of": [{"a": 1}]}}}),
    ("metadata_policy", {RP: {"scope": {"default": [[]], "superset_of": [[]]}}}),
    ("constraints", {"max_path_length": "x"}), ("constraints", {"max_path_length": None}),
    ("constraints", {"naming_constraints": 5}), ("constraints", {"naming_constraints": {"permitted": [5]}}),
    ("constraints", {"naming_constraints": {"excluded": "x"}}),
    ("constraints", {"naming_constraints": {"permitted": ["x"], "excluded": [None]}}),
    ("authority_hints", [5, TA]), ("authority_hints", [TA, TA]), ("authority_hints", ["x", TA]),
    ("authority_hints", ["ftp://" + "a" * 30, TA]), ("authority_hints", {TA: 1}), ("authority_hints", TA),
    ("authority_hints", [{"a": 1}]), ("authority_hints", [[TA]]),
    ("exp", 10 ** 30), ("exp", "1800000000"), ("exp", -10 ** 30), ("exp", 1.5e300), ("iss", LEAF), ("sub", TA),
    ("iss", TA), ("jwks", {"keys": [{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA", "kid": "z"}]}),
]
RAW = ["", "x", "a.b.c", "a.b", "..", "a.b.c.d.e", "{}", "null", "[]", "\x00\xff", "<html>", '{"iss": "x"}',
       "eyJhbGciOiJub25lIn0.e30.", "x" * 100000]
BODIES = [[], "s", 5, None, [1, 2], {}, {"iss": 1}]
STATUS = [201, 204, 302, 400, 401, 403, 404, 410, 418, 429, 500, 503]
CTS = [None, "text/html", "application/json", "application/jwt"]


@st.composite
def rubbish(draw):
    k = draw(weighted((6, st.just("claim")), (4, st.just("nested")), (2, st.just("del")), (2, st.just("raw")),
                      (1, st.just("body")), (1, st.just("status")), (1, st.just("ct")), (1, st.just("conn")),
                      (1, st.just("forged")), (1, st.just("none")), (1, st.just("other")), (1, st.just("redirect"))))
    r = {"k": k}
    if k in ("claim", "del"):
        r["c"] = draw(st.sampled_from(CLAIMS))
    if k == "claim":
        r["v"] = draw(st.sampled_from(JUNK))
    if k == "nested":
        r["c"], r["v"] = draw(st.sampled_from(NESTED))
    if k == "raw":
        r["v"] = draw(st.integers(0, len(RAW) - 1))
    if k == "body":
        r["v"] = draw(st.sampled_from(BODIES))
    if k == "status":
        r["v"] = draw(st.sampled_from(STATUS))
        r["text"] = draw(st.booleans())
    if k == "ct":
        r["v"] = draw(st.sampled_from(CTS))
    return r


class Hostile(PaperFed):
    """{("ec", H): rubbish, ("stmt", H, SUB): rubbish}"""
    faults = {}

    def endless(self, base, q):
        """every entity h<n> has h<n+1> as its authority"""
        p = urllib.parse.urlparse(base)
        n = int(p.netloc.split(".")[0][1:])
        me, up = f"https://h{n}.endless.example.net", f"https://h{n + 1}.endless.example.net"
        now = int(self.clock.now)
        pl = {"iss": me, "sub": q.get("sub", me), "iat": now, "exp": now + DAY, "jwks": jwks(EC[31])}
        if p.path != "/fetch":
            pl.update(metadata={"federation_entity": {"federation_fetch_endpoint": me + "/fetch"}},
                      authority_hints=[up])
        elif not q.get("sub", "").endswith(".endless.example.net"):
            pl["jwks"] = self.jwks(q["sub"])
        return 200, ES_CT, sign(pl, EC[31])

    def handler(self, method, url, headers, body):
        base, q = split_url(url)
        if ".endless.example.net/" in base:
            return self.endless(base, q)
        r = super().handler(method, url, headers, body)
        if r is None or r[0] != 200:
            return r
        site = None
        if base.endswith("/fetch"):
            site = ("stmt", base[:-6], q.get("sub"))
        else:
            for e in self.nodes:
                if base in well_known_urls(e)[1:]:
                    site = ("ec", e)
        f = self.faults.get(site)
        if not f:
            return r
        tok = r[2]
        k = f["k"]
        signer = self.keys(site[1])[0]
        p = payload_of(tok)
        if k in ("claim", "nested"):
            p[f["c"]] = copy.deepcopy(f["v"])
            return 200, ES_CT, sign(p, signer)
        if k == "endless":
            p["authority_hints"] = ["https://h0.endless.example.net", TA]
            return 200, ES_CT, sign(p, signer)
        if k == "del":
            p.pop(f["c"], None)
            return 200, ES_CT, sign(p, signer)
        if k == "raw":
            return 200, ES_CT, RAW[f["v"]]
        if k == "body":
            return 200, ES_CT, sign(f["v"], signer)
        if k == "status":
            return f["v"], ES_CT, tok if f["text"] else ""
        if k == "ct":
            return 200, {"Content-Type": f["v"]} if f["v"] else {}, tok
        if k == "conn":
            return self.dead("conn")
        if k == "forged":
            return 200, ES_CT, sign(p, EC[30])
        if k == "none":
            return 200, ES_CT, b64e(b'{"alg": "none"}') + "." + tok.split(".")[1] + "."
        if k == "other":
            return 200, ES_CT, self.ec(LEAF)
        if k == "redirect":
            return 302, {"Location": url}, ""
        raise RuntimeError(k)


def federation(shape, clock):
    nodes = {}
    for i, e in enumerate([LEAF, L2, A, B, C, TA]):
        nodes[e] = {"key": i, "sup": shape.get(e, []), "stmt": {},
                    "meta": {RP: {"scope": ["a", "b", "c"], "name": e}} if e in (LEAF, L2) else {}}
    nodes[L2]["sup"] = [x for x in (B, C, A) if shape.get(x)][:2]
    fed = Hostile(nodes, clock)
    fed.faults = {}
    return fed


def paths_of(fed, leaf):
    done, todo = [], [(leaf,)]
    while todo:
        p = todo.pop()
        if p[-1] == TA:
            done.append(p)
        todo += [p + (u,) for u in fed.nodes[p[-1]]["sup"] if u not in p]
    return set(done)


def run(ctx):
    ctx.assumptions += ["the paths through the member that publishes rubbish may be found or not",
                        "what claims to be the statement asked for, with a lifetime, may be kept until that has passed"]

    def members(case):
        from fedservice.entity import function as F
        with world() as (clock, net):
            fed = federation(SHAPES[case["shape"]], clock)
            for sub, sup, pol in case["policies"]:
                if sup in fed.nodes[sub]["sup"]:
                    fed.nodes[sub]["stmt"][sup] = {"metadata_policy": {RP: {"scope": {"subset_of": pol}}}}
            net.add(fed.handler)
            fe = entity(EV, 0, trust_anchors={TA: fed.jwks(TA)})
            endless = any(f["r"]["k"] == "endless" for f in case["faults"])
            inter = [x for x in (A, B, C) if fed.nodes[x]["sup"]]

            def look(leaf, bad, when):
                """bad: None or function path -> suffers"""
                n0 = len(net.log)
                out = attempt(F.get_verified_trust_chains, fe, leaf)
                if not out.ok and bad((leaf,)):
                    return set(), set()
                require(out.ok, lambda: f"{when}: looking up {leaf} fails as a whole: {out}", "raise")
                require(len(net.log) - n0 < 200 or endless, f"{when}: {len(net.log) - n0} requests", "requests")
                got = {}
                for tc in out.value:
                    ids = [s["sub"] for s in tc.verified_chain[:-1]][::-1] + [tc.verified_chain[0]["iss"]]
                    got[tuple(ids)] = tc
                want = paths_of(fed, leaf)
                require(set(got) <= want, lambda: f"{when}: {set(got) - want} is not a path of {leaf}", "unpublished")
                need = {p for p in want if not bad(p)}
                require(need <= set(got), lambda: f"{when}: {leaf} has the path {sorted(need - set(got))} that is "
                        f"not touched by {case['faults']}", "lost" if bad is not clean else "not-recovered")
                for p in need:
                    scope = {"a", "b", "c"}
                    for sub, sup in zip(p, p[1:]):
                        for pol in [fed.nodes[sub]["stmt"].get(sup)]:
                            if pol:
                                scope &= set(pol["metadata_policy"][RP]["scope"]["subset_of"])
                    md = got[p].metadata[RP]
                    require(set(md["scope"]) == scope and md["name"] == leaf,
                            lambda: f"{when}: {p} resolves to {md}, scope should be {scope}", "metadata")
                return need, want

            def clean(p):
                return False

            if case["warm"]:
                look(LEAF, clean, "before")
                clock.advance(case["warm"])
            faults, hit = {}, []
            for f in case["faults"]:
                h = inter[f["h"] % len(inter)]
                if f["site"] == "leaf":
                    faults[("ec", LEAF)] = f["r"]
                    hit.append(lambda p: p[0] == LEAF)
                elif f["site"] == "ec":
                    faults[("ec", h)] = f["r"]
                    hit.append(lambda p, h=h: h in p)
                else:
                    below = [x for x in fed.nodes if h in fed.nodes[x]["sup"]]
                    sub = below[f["s"] % len(below)]
                    faults[("stmt", h, sub)] = f["r"]
                    hit.append(lambda p, h=h, sub=sub: (sub, h) in zip(p, p[1:]))
            fed.faults = faults

            def bad(p):
                return any(x(p) for x in hit)
            need, want = look(LEAF, bad, "meanwhile")
            if case["other"]:
                look(L2, bad, "meanwhile")
            if case["twice"]:
                clock.advance(case["twice"])
                look(LEAF, bad, "again")
            if need and need != want:
                ctx.nontriv([case["shape"], case["faults"], bool(case["warm"])])
            for f in case["faults"]:
                ctx.label(f"{f['site']}-{f['r']['k']}")
            fed.faults = {}
            # what says to be the member's statement may be kept until it expires
            own = any(f["r"]["k"] in ("claim", "nested", "del", "ct", "other", "forged", "none", "endless") for f in case["faults"])
            long = any(f["r"].get("c") == "exp" and isinstance(f["r"].get("v"), (int, float))
                       and f["r"]["v"] > 10 ** 6 for f in case["faults"])
            if long:
                return
            clock.advance(2 * DAY if own else case["then"])
            look(LEAF, clean, "afterwards")
            look(L2, clean, "afterwards")

    @st.composite
    def cases(draw):
        fault = st.fixed_dictionaries({"site": weighted((3, st.just("ec")), (3, st.just("stmt")), (1, st.just("leaf"))), "h": st.integers(0, 2),
                                       "s": st.integers(0, 2), "r": rubbish()})
        if draw(st.integers(0, 24)) == 0:
            return {"shape": draw(st.integers(0, len(SHAPES) - 1)), "warm": 0, "other": False, "twice": 0, "then": 0,
                    "policies": [],
                    "faults": [{"site": "ec", "h": draw(st.integers(0, 2)), "s": 0, "r": {"k": "endless"}}]}
        return {"shape": draw(st.integers(0, len(SHAPES) - 1)),
                "faults": draw(st.lists(fault, min_size=1, max_size=2)),
                "warm": draw(st.sampled_from([0, 0, 0, 10, DAY - 300, 2 * DAY])), "other": draw(st.booleans()),
                "twice": draw(st.sampled_from([0, 1, 1000])), "then": draw(st.sampled_from([0, 1, 700])),
                "policies": draw(st.lists(st.tuples(st.sampled_from([LEAF, A, B]), st.sampled_from([A, B, C, TA]),
                                                    st.sampled_from([["a", "b"], ["a", "c"], ["a"]])), max_size=3))}

    ctx.prop("members", cases(), members, 600,
             rule="some but not all paths go through the member that publishes rubbish; distinct rubbish and shape")
