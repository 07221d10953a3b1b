"""Federations in which clients register: paper superiors and clients, a real server. Shared by the checks of
explicit and automatic registration."""
import copy

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
from fedlib import DAY, EC, ES_CT, NOW, RSA, PaperFed, jwks, payload_of, sign, split_url, verify_sig, well_known_urls
from vf import require

OP = "https://op.example.org"
LEAF, LEAF2, IM1, IM2, TA, TA2, ROGUE = (
    "https://rp.example.org", "https://rp.example.org/app", "https://im1.example.org", "https://im1.example.org/t",
    "https://ta.example.org", "https://ta.example.org/2", "https://rogue.example.net")
IDS = [LEAF, LEAF2, IM1, IM2, TA, TA2, ROGUE]
LEAVES = [LEAF, LEAF2]
EDGES = [(LEAF, IM1), (LEAF, IM2), (LEAF, TA), (LEAF, TA2), (IM1, TA), (IM1, TA2), (IM2, TA), (IM2, TA2), (IM1, IM2),
         (LEAF, ROGUE), (IM1, ROGUE), (LEAF2, IM1), (LEAF2, TA), (LEAF2, ROGUE)]
GRANTS = ["authorization_code", "implicit", "refresh_token"]
BAD_KEY = 39          # EC slot of the attacker
SUP_KEY = 34          # a client key that is set by a superior
APP_KEYS = [30, 31, 32, 33]   # EC slots of client (application) keys


def policies(et):
    """what a superior may say about a client of entity type et"""
    def mp(**kw):
        return {"metadata_policy": {et: kw}}
    return st.sampled_from([{}] * 5 + [
        mp(contacts={"value": ["x"]}), mp(contacts={"value": ["y"]}), mp(contacts={"add": ["x"]}),
        mp(contacts={"subset_of": ["leaf", "x"]}), mp(contacts={"subset_of": ["leaf", "y"]}), mp(client_name={"essential": True}),
        mp(client_name={"default": "given"}), mp(client_name={"one_of": ["c", "given"]}),
        mp(grant_types={"subset_of": ["authorization_code", "refresh_token"]}), mp(grant_types={"subset_of": ["implicit", "authorization_code"]}),
        mp(grant_types={"value": ["authorization_code"]}), mp(software_version={"essential": True}),
        mp(redirect_uris={"subset_of": ["https://rp.example.org/cb", "https://other.example.org/cb"]}),
        {"metadata": {et: {"jwks": jwks(EC[SUP_KEY])}}}, {"metadata": {et: {"client_name": "by superior"}}}, {"metadata": {et: {"contacts": ["by", "superior"]}}},
        {"constraints": {"max_path_length": 0}}])


def client_meta(et):
    return st.fixed_dictionaries({
        "redirect_uris": st.sampled_from([["https://rp.example.org/cb"]] * 3 + [["https://rp.example.org/cb", "https://rp.example.org/cb2"],
                                                                            ["https://evil.example.net/cb"], ["https://rp.example.org/back?next=a"],
                                                                            ["https://rp.example.org/cb", "https://rp.example.org/back?next=a&via=b"], ["http://rp.example.org/cb"]]),
        "keys": st.sampled_from(APP_KEYS)},
        optional={"broken": st.sampled_from([None, None, "fragment", "fragment", "logo", "response_types", "logo-ok", "custom", "native", "native-loopback", "native-web"]), "contacts": st.sampled_from([["leaf"], ["x"], ["leaf", "y"], ["z"]]), "client_name": st.sampled_from(["c", "mega"]),
                  "odd": st.sampled_from([{"client_id": LEAF2}, {"client_id": LEAF}, {"client_id": OP}, {"client_id": "x"}, {"client_secret": "known-secret-0123456789"},
                                          {"automatic_registered_until": NOW * 2}, {"automatic_registered": False}, {"iss": LEAF2}]),
                  "grant_types": st.sampled_from([["authorization_code"], ["authorization_code", "refresh_token"], GRANTS, ["implicit"]])})


NATIVE = {"native": ["org.example.app:/cb", "http://localhost:4711/cb", "com.example.app:/back"], "native-loopback": ["http://localhost/cb"], "native-web": ["http://rp.example.org/cb"]}


def metadata(et, m, extra=()):
    m = copy.deepcopy(m)
    slot = m.pop("keys")
    m.update(m.pop("odd", {}))
    broken = m.pop("broken", None)
    m["jwks"] = jwks(EC[slot])
    m.setdefault("grant_types", ["authorization_code"])
    m["response_types"] = ["code"]
    if broken == "fragment":
        m["redirect_uris"] = m["redirect_uris"] + ["https://rp.example.org/cb#fragment"]
    elif broken == "logo":
        m["logo_uri"] = "https://logos.example.net/logo.png"
    elif broken == "logo-ok":
        m["logo_uri"] = m["redirect_uris"][0].replace("/cb", "/logo.png")
    elif broken == "custom":    # only native applications have schemes of their own
        m["redirect_uris"] = m["redirect_uris"] + ["org.example.app:/cb"]
    elif broken in NATIVE:
        m["application_type"] = "native"
        m["redirect_uris"] = NATIVE[broken]
    elif broken == "response_types":
        m["response_types"] = ["x y"]
    m["token_endpoint_auth_method"] = "private_key_jwt"
    return {et: m, **{e: {"organization_name": "o"} for e in extra}}


def unusable(m):
    """metadata of a client that no server can register"""
    if m == pm.OPEN:
        return False
    origin = lambda u: u.split("/")[:3]
    uris = m.get("redirect_uris", [])
    native = m.get("application_type") == "native"
    return (any("#" in u for u in uris) or any((u in NATIVE["native-web"]) if native else not u.startswith("http") for u in uris) or m.get("response_types") == ["x y"]
            or ("logo_uri" in m and origin(m["logo_uri"]) not in [origin(u) for u in m.get("redirect_uris", [])]))


TYPES = ["trust_mark_issuer", "oauth_resource", "openid_provider", "oauth_authorization_server", "openid_relying_party", "oauth_client",
         "vendor_a", "vendor_b", "http_server", "x", "federated_wallet"]
n_edges = len(EDGES)
TTL = [200, 3600, DAY, 3 * DAY]
SHAPES = [[0, 4, 11], [2, 12], [0, 1, 4, 6, 11], [0, 4, 5, 12], [2, 3, 12], [1, 7, 12], [0, 8, 6, 11], [0, 9, 10, 4, 12], [9, 13], [0, 10, 11]]


def federation(et):
    return st.fixed_dictionaries({
        "anchors": st.sampled_from([2, 2, 2, 1]),
        "edges": weighted((3, st.sampled_from(SHAPES)), (1, st.lists(st.integers(0, n_edges - 1), min_size=2, unique=True))),
        "stmts": st.lists(policies(et), min_size=n_edges, max_size=n_edges),
        "ttl": st.sampled_from([DAY] * 3 + TTL),
        "sttl": st.lists(st.sampled_from([DAY, DAY, DAY, DAY] + TTL), min_size=n_edges, max_size=n_edges),
        "meta": st.lists(client_meta(et), min_size=2, max_size=2),
        "extra": weighted((1, st.just([])), (2, st.lists(st.sampled_from(TYPES), max_size=6, unique=True))).map(lambda x: [t for t in x if t != et])})


class Fed(PaperFed):
    def __init__(self, case, clock, et):
        self.case, self.et = case, et
        nodes = {e: {"key": i, "sup": [], "ttl": case["ttl"], "sttl": {}, "stmt": {}} for i, e in enumerate(IDS)}
        for n, i in enumerate(case["edges"]):
            a, b = EDGES[i]
            nodes[a]["sup"].append(b)
            nodes[a]["sttl"][b] = case["sttl"][n]
            nodes[a]["stmt"][b] = copy.deepcopy(case["stmts"][n])
        for n, leaf in enumerate(LEAVES):
            nodes[leaf]["meta"] = metadata(et, case["meta"][n], case["extra"])
            nodes[leaf]["fetch"] = False
        self.known = [TA, TA2][:case["anchors"]]
        PaperFed.__init__(self, nodes, clock)

    def anchors(self):
        return {t: self.jwks(t) for t in self.known}

    def paths(self, sub, first=None):
        """first: the superiors to start with"""
        res, todo = [], [(sub,)]
        while todo:
            p = todo.pop()
            if p[-1] in self.known and len(p) > 1:
                res.append(p)
            for u in self.nodes[p[-1]]["sup"] if first is None or len(p) > 1 else first:
                if u not in p:
                    todo.append(p + (u,))
        return res

    def statements(self, p):
        return [self.stmt_payload(b, a) for a, b in zip(p, p[1:])][::-1]

    def allowed(self, p):
        """may a path be this long?"""
        stmts = self.statements(p)
        return all(s.get("constraints", {}).get("max_path_length", 9) >= len(stmts) - n - 1 for n, s in enumerate(stmts))

    def good(self, p, leafmeta):
        """model of the metadata for a path, None if the chain is to be refused"""
        return pm.resolve_model(self.statements(p), leafmeta) if self.allowed(p) else None

    def candidates(self, sub, leafmeta, first=None):
        res = {x: self.good(x, leafmeta) for x in self.paths(sub, first)}
        return {x: m for x, m in res.items() if m is not None and self.et in m}

    def alive(self, path):
        return not any(self.nodes[e].get("dead") for e in path)


def server(et, fed, key=0, **kw):
    guise = "openid_provider" if et == "openid_relying_party" else "oauth_authorization_server"
    args = {"anchors": fed.anchors(), "guise": guise, "authority_hints": [fed.known[0]]}
    args.update(kw)
    return R.op(OP, key, **args), guise


def judge_client(cinfo, exp, cid):
    """what the server remembers of the client is the metadata it verified"""
    require(cinfo.get("client_id") == cid, lambda: f"client_id {cinfo.get('client_id')} of {cid}", "registered")
    if exp == pm.OPEN:
        return
    for c in ("contacts", "client_name", "grant_types", "response_types"):
        if c in exp:
            require(c in cinfo and pm.same(cinfo[c], exp[c]), lambda: f"{c} registered {cinfo.get(c)}, verified {exp[c]}", "registered")
        elif c == "contacts":
            require(not cinfo.get(c), lambda: f"{c} registered {cinfo.get(c)} out of nothing", "registered")
    ru = sorted(u if isinstance(u, str) else u[0] + ("?" if u[1] else "") + "&".join(f"{k}={x}" for k, v in (u[1] or {}).items() for x in v)
                for u in cinfo.get("redirect_uris", []))
    require(ru == sorted(exp["redirect_uris"]), lambda: f"redirect_uris registered {ru}, verified {exp['redirect_uris']}", "redirect_uris")


def client_keys(keyjar, cid):
    """public asymmetric keys known for the client: set of (x or n)"""
    try:
        keys = keyjar.get_issuer_keys(cid)
    except KeyError:
        return set()
    return {k.serialize().get("x") or k.serialize().get("n") for k in keys if k.kty in ("EC", "RSA")}


def app_key(slot):
    return EC[slot]["x"]


def judge_keys(keyjar, cid, before, exp):
    """the keys of the client are those in the metadata the chain resulted in (and maybe earlier ones)"""
    have, right = client_keys(keyjar, cid), {k["x"] for k in exp["jwks"]["keys"]}
    require(right <= have, lambda: f"keys of the client {have}, it has {right}", "client-keys")
    require(have <= right | before, lambda: f"keys of the client {have}, it only has {right}", "client-keys")
