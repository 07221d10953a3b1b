"""C19: automatic registration - an authorization request from an unknown client gets through only on the word of a
verified trust chain about that client, which is then known with the metadata and keys that chain results in."""
import copy

from hypothesis import strategies as st

from gen import weighted

import policymodel as pm
import realfed as R
import regfed as G
from fedlib import DAY, EC, jwks, payload_of, sign, world
from vf import Outcome, require

CHAINS = ["own"] * 4 + ["other", "other", "noleaf", "nota", "rogue", "expired", "tail", "tail-superior", "stranger", "badsig", "partial"]
ask = st.fixed_dictionaries({
    "who": st.sampled_from([0, 0, 0, 1]), "uri": st.sampled_from([0] * 8 + [1, 1, 2, 3, 4]), "v": st.integers(0, 3),
    "trust_chain": st.sampled_from([None, None] + CHAINS), "object": st.sampled_from([None, None, None, "own", "own", "rogue", "other", "none", "iss", "iss-client", "client"])})
move = st.tuples(st.just("move"), st.sampled_from([0, 0, 1]), st.sampled_from([G.TA, G.TA, G.TA2, G.TA2, G.IM1]))
op = weighted((6, st.tuples(st.just("ask"), ask)),
               (2, st.tuples(st.just("wait"), st.sampled_from([1, 150, 250, 700, 3000, DAY - 700, DAY + 100, 4 * DAY]))),
              (1, st.tuples(st.just("meta"), st.integers(0, 1), st.booleans())),
              (1, st.tuples(st.just("leave"), st.integers(0, 1))), (1, move), (1, st.tuples(st.just("drop"), st.integers(0, 1), st.integers(0, 1))),
               (1, st.tuples(st.just("dead"), st.sampled_from([G.LEAF, G.IM1, G.IM2, G.TA]), st.sampled_from(["404", "conn", "500", "garbage", None]))))
first = ask.map(lambda a: dict(a, who=0, uri=0, trust_chain=None, object=a["object"] if a["object"] == "own" else None))
again = st.tuples(st.tuples(st.just("ask"), first), weighted((1, st.just(("leave", 0))), (3, move), (2, st.tuples(st.just("drop"), st.just(0), st.integers(0, 1))), (1, st.tuples(st.just("meta"), st.just(0), st.booleans()))),
                  st.tuples(st.just("wait"), st.sampled_from([1, 250, 3700, DAY + 100, DAY + 100, 4 * DAY, 4 * DAY])),
                  st.tuples(st.just("ask"), ask.map(lambda a: dict(a, who=0, trust_chain=None)))).map(list)


def run(ctx):
    ctx.assumptions += ["with several valid chains any of them may be used",
                        "statements may be cached as long as they are valid"]
    for name, et in (("oidc", "openid_relying_party"), ("oauth2", "oauth_client"), ("par", "oauth_client")):
        prop(ctx, name, et)


class History(object):
    """what the federation says, and has said, about the clients"""

    def __init__(self, fed):
        self.fed = fed
        # configurations: [metadata, superiors, replaced at], statements: {superior: [[statement, replaced at]]}
        self.versions = {x: [[copy.deepcopy(fed.nodes[x]["meta"]), list(fed.nodes[x]["sup"]), None]] for x in G.LEAVES}
        self.stmts = {x: {u: [[copy.deepcopy(fed.nodes[x]["stmt"].get(u, {})), None]] for u in fed.nodes[x]["sup"]} for x in G.LEAVES}

    def now(self):
        return self.fed.clock.now

    def _version(self, leaf):
        n = self.fed.nodes[leaf]
        self.versions[leaf][-1][2] = self.now()
        self.versions[leaf].append([copy.deepcopy(n["meta"]), list(n["sup"]), None])

    def set_meta(self, leaf, meta):
        self.fed.nodes[leaf]["meta"] = copy.deepcopy(meta)
        self._version(leaf)

    def leave(self, leaf):
        if self.fed.nodes[leaf]["sup"]:
            for u in self.fed.nodes[leaf]["sup"]:
                self.stmts[leaf][u][-1][1] = self.now()
            self.fed.nodes[leaf].update(sup=[], stmt={})
            self._version(leaf)

    def move(self, leaf, to):
        self.leave(leaf)
        self.fed.nodes[leaf].update(sup=[to], stmt={to: {}})
        self.stmts[leaf].setdefault(to, []).append([{}, None])
        self._version(leaf)

    def drop(self, leaf, n):
        """one of several superiors no longer vouches for it"""
        sup = self.fed.nodes[leaf]["sup"]
        if len(sup) > 1:
            u = sup[n % len(sup)]
            self.stmts[leaf][u][-1][1] = self.now()
            keep = {x: v for x, v in self.fed.nodes[leaf]["stmt"].items() if x != u}
            self.fed.nodes[leaf].update(sup=[x for x in sup if x != u], stmt=keep)
            self._version(leaf)

    def usable(self, leaf):
        return [v for v in self.versions[leaf] if v[2] is None or v[2] + self.fed.nodes[leaf]["ttl"] >= self.now()]

    def reach(self, leaf, meta, sup):
        """-> [(path, model, by current statements?)]"""
        n = self.fed.nodes[leaf]
        keep = n["sup"], n["stmt"]
        res = []
        for u in sup:
            for stmt, t in self.stmts[leaf].get(u, []):
                if t is None or t + n["sttl"].get(u, DAY) >= self.now():
                    n.update(sup=[u], stmt={u: copy.deepcopy(stmt)})
                    res += [(p, mod, t is None) for p, mod in self.fed.candidates(leaf, copy.deepcopy(meta)).items()]
        n["sup"], n["stmt"] = keep
        return res

    def remembered_unusable(self, leaf):
        """is there an earlier configuration that may still be in the cache and that leads nowhere?"""
        return not all(self.reach(leaf, dict(m, federation_entity={}), sup) for m, sup, t in self.usable(leaf) if t is not None)

    def candidates(self, leaf):
        """-> [(path, model, current?)]: what the server may go by"""
        res = []
        for m, sup, t in self.usable(leaf):
            meta = self.fed.meta(leaf) if t is None else dict(m, federation_entity=m.get("federation_entity", {}))
            res += [(p, mod, cur and t is None) for p, mod, cur in self.reach(leaf, meta, sup)]
        return res


def provided(fed, leaf, kind, v):
    """-> (chain in the order of the trust_chain claim: leaf first, path or None when it must not be believed)"""
    paths = [p for p in fed.paths(leaf)]
    if not paths:
        return None, None
    path = paths[v % len(paths)]
    chain = fed.chain(*path)[::-1]
    if kind == "own":
        return chain, path
    if kind == "other":
        other = [x for x in G.LEAVES if x != leaf][0]
        op = fed.paths(other)
        return (fed.chain(*op[v % len(op)])[::-1], None) if op else (None, None)
    if kind == "noleaf":
        return chain[1:], None
    if kind == "nota":
        return (chain[:-1], None) if len(path) > 2 else (None, None)
    if kind == "partial":
        return (chain[:1] + chain[2:], None) if len(path) > 2 else (None, None)
    p = fed.ec_payload(leaf)
    if kind in ("rogue", "stranger"):
        p["jwks"] = jwks(EC[G.BAD_KEY])
        p["metadata"][fed.et]["redirect_uris"] = ["https://evil.example.net/cb"]
        return [sign(p, EC[G.BAD_KEY])] + chain[1:], None
    if kind == "expired":
        p["exp"] = int(fed.clock.now) - 60
        return [sign(p, fed.keys(leaf)[0])] + chain[1:], None
    if kind == "badsig":
        h, b, s = chain[0].split(".")
        return [".".join([h, b, s[:9] + ("A" if s[9] != "A" else "B") + s[10:]])] + chain[1:], None
    # a statement about the client by someone whose keys the server has seen
    by = path[1] if kind == "tail-superior" else [x for x in G.LEAVES if x != leaf][0]
    q = {"iss": by, "sub": leaf, "iat": int(fed.clock.now), "exp": int(fed.clock.now) + DAY, "jwks": jwks(EC[G.BAD_KEY]),
         "metadata": {fed.et: dict(G.metadata(fed.et, {"redirect_uris": ["https://evil.example.net/cb"], "keys": 33})[fed.et])}}
    tok = sign(q, fed.keys(by)[0])
    return ([tok] + chain if v % 2 else [tok] + chain[1:]), None


def prop(ctx, name, et):
    def history(case):
        with world() as (clock, net):
            fed = G.Fed(case["fed"], clock, et)
            kw = {"new_client_id": True} if case["new_id"] and name != "par" else {}
            if case["types"]:
                kw["registration_types"] = case["types"]
            srv, guise = G.server(et, fed, case["key"], **kw)
            ent = srv[guise]
            ep = ent.get_endpoint("pushed_authorization" if name == "par" else "authorization")
            cdb = ent.context.cdb
            kj = ent.get_attribute("keyjar")
            net.add(R.Wire(srv))
            net.add(fed.handler)
            hist = History(fed)
            for n, o in enumerate(case["ops"]):
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "dead":
                    fed.nodes[o[1]]["dead"] = o[2]
                elif o[0] == "meta":
                    m = copy.deepcopy(case["alt"] if o[2] else case["fed"]["meta"][o[1]])
                    hist.set_meta(G.LEAVES[o[1]], G.metadata(et, m, ()))
                elif o[0] == "leave":
                    hist.leave(G.LEAVES[o[1]])
                elif o[0] == "drop":
                    hist.drop(G.LEAVES[o[1]], o[2])
                elif o[0] == "move":
                    hist.move(G.LEAVES[o[1]], o[2])
                else:
                    step(n, o[1], fed, hist, ep, cdb, kj, ent, srv, case)

    def step(n, a, fed, hist, ep, cdb, kj, ent, srv, case):
        leaf = G.LEAVES[a["who"]]
        other = [x for x in G.LEAVES if x != leaf][0]
        req = {"client_id": leaf, "response_type": "code", "state": "s", "scope": ["openid"], "nonce": "n"}
        md = fed.meta(leaf)
        uris = md[et]["redirect_uris"]
        req["redirect_uri"] = {0: uris[0], 1: "https://elsewhere.example.net/cb", 2: uris[0] + ("&" if "?" in uris[0] else "?") + "more=x",
                               3: uris[0].split("?")[0], 4: uris[-1]}[a["uri"]]
        chain = path = None
        if a["trust_chain"]:
            chain, path = provided(fed, leaf, a["trust_chain"], a["v"])
            if chain is not None:
                req["trust_chain"] = list(chain)
        slot = [k for k in G.APP_KEYS if EC[k]["x"] == md[et]["jwks"]["keys"][0]["x"]][0]
        if name == "par":   # the client authenticates itself with a signed assertion
            claims = {"iss": leaf, "sub": leaf, "aud": [ep.full_path], "iat": int(fed.clock.now), "exp": int(fed.clock.now) + 300, "jti": f"j{n}"}
            if a["object"] in ("iss", "iss-client"):
                claims.update(iss=other, sub=other)
                oslot = [k for k in G.APP_KEYS if EC[k]["x"] == fed.meta(other)[et]["jwks"]["keys"][0]["x"]][0]
                req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                req["client_assertion"] = sign(claims, EC[oslot])
            elif a["object"] != "none":
                if a["object"] == "client":
                    claims.update(iss=other)
                req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                req["client_assertion"] = sign(claims, EC[slot] if a["object"] in (None, "own", "client") else
                                               EC[G.BAD_KEY if a["object"] == "rogue" else (33 if slot != 33 else 32)])
        elif a["object"]:
            claims = {k: (v if k != "scope" else " ".join(v)) for k, v in req.items() if k != "trust_chain"}
            claims.update({"iss": leaf, "aud": G.OP, "iat": int(fed.clock.now), "exp": int(fed.clock.now) + 300, "jti": f"j{n}"})
            key = EC[slot] if a["object"] in ("own", "client") else EC[G.BAD_KEY if a["object"] == "rogue" else (33 if slot != 33 else 32)]
            if a["object"] == "client":   # in the name of another client
                claims["client_id"] = other
            if a["object"] == "none":
                from fedlib import b64e
                import json
                req["request"] = b64e(b'{"alg":"none"}') + "." + b64e(json.dumps(claims).encode()) + "."
            elif a["object"] in ("iss", "iss-client"):   # made by another client
                claims["iss"] = other
                if a["object"] == "iss-client":
                    claims["client_id"] = other
                req["request"] = sign(claims, EC[[k for k in G.APP_KEYS if EC[k]["x"] == fed.meta(other)[et]["jwks"]["keys"][0]["x"]][0]])
            else:
                req["request"] = sign(claims, key)
        before = {k: copy.deepcopy(dict(c)) for k, c in cdb.items()}
        keys_before = G.client_keys(kj, leaf) | G.client_keys(kj, dict(cdb.get(leaf, {})).get("client_id", ""))
        sent = copy.deepcopy(req)
        try:
            r = Outcome(ep.parse_request(req))
        except Exception as err:   # from idpyoidc or fedservice: a refusal
            r = Outcome(err=err)
        ctxt = f"step {n}: {name} {leaf} {a}: {r}" + (f" {r.value.to_dict()}" if r.ok and hasattr(r.value, "to_dict") else "")
        require(req == sent, lambda: f"the request was changed: {req}; {ctxt}", "request-changed")
        accepted = r.ok and r.value is not None and "error" not in r.value and "response_type" in r.value
        cand = hist.candidates(leaf)
        pcand = []
        if chain is not None:
            cand_used = "both"
            if path is not None:
                m = fed.good(path, payload_of(chain[0])["metadata"])
                if m is not None and et in m:
                    pcand = [(path, m, True)]
        allcand = cand + pcand
        unusable = [c for c in allcand if G.unusable(c[1][et])]
        allcand = [c for c in allcand if c not in unusable]
        after = {k: dict(c) for k, c in cdb.items()}
        require(not accepted or a["object"] != "client" or name == "par", lambda: f"request object in another client's name accepted; {ctxt}", "request-object")
        if a["object"] in ("iss", "iss-client") or (a["object"] == "client" and name != "par"):
            return foreign_object(fed, hist, leaf, other, req, r, before, after, case, ctxt)
        mine = {k for k, c in after.items() if k == leaf or c.get("entity_id") == leaf}
        require({k: v for k, v in before.items() if k not in mine and v.get("entity_id") != leaf and k != leaf} ==
                {k: v for k, v in after.items() if k not in mine and (k in before and v.get("entity_id") != leaf)},
                lambda: f"another client changed; {ctxt}", "other-client")
        if case["types"] and "automatic" not in case["types"]:
            allcand = []
        if not allcand:
            require(not accepted, lambda: f"accepted without any chain; {ctxt}", "accepted-no-chain" if chain is None else "accepted-" + a["trust_chain"])
            new = {k for k in mine if after.get(k) != before.get(k)}
            require(not new, lambda: f"refused, but registered {new}; {ctxt}", "registered-no-chain" if chain is None else "registered-" + a["trust_chain"])
            require(set(after) <= set(before), lambda: f"refused, but registered {set(after) - set(before)}; {ctxt}", "registered-no-chain")
            require(unusable or G.client_keys(kj, leaf) <= keys_before, lambda: f"refused, but keys changed; {ctxt}", "keys-no-chain")
            if a["object"] in (None, "own") and (not case["types"] or "automatic" in case["types"]):
                require(leaf not in after, lambda: f"refused, but still registered; {ctxt}", "outlived")
            ctx.label("no-chain", "unbelievable" if chain is not None else "collected")
            return
        if leaf in after:
            problems = []
            for x, m, cur in allcand:
                try:
                    cid = after[leaf].get("client_id")
                    G.judge_client(after[leaf], m[et], cid)
                    if m[et] != pm.OPEN:
                        have = G.client_keys(kj, cid) | G.client_keys(kj, leaf)
                        right = {k["x"] for k in m[et]["jwks"]["keys"]}
                        require(right <= have, lambda: f"keys {have}", "keys")
                        require(have <= right | keys_before or after[leaf] == before.get(leaf), lambda: f"keys {have}, only {right}", "keys")
                    problems = []
                    break
                except Exception as err:
                    problems.append(err)
            if problems:
                if accepted or after[leaf] != before.get(leaf):
                    problems[0].msg += "; " + ctxt
                    raise problems[0]
        if not accepted:
            sure = [x for x, m, cur in allcand if cur and m[et] != pm.OPEN and fed.alive(x)]
            every = not unusable and all(m[et] != pm.OPEN and req["redirect_uri"] in m[et]["redirect_uris"] and slot_in(slot, m[et]) and x[1:] for x, m, cur in allcand)
            if hist.remembered_unusable(leaf):
                sure = []
            if chain is not None and path is None:
                sure = []   # a bad chain may be a reason to refuse
            if chain is not None and path is not None:
                sure = [x for x in sure if x == path and pcand]
            require(not (sure and every and a["uri"] == 0 and a["object"] in (None, "own")), lambda: f"refused although there is {sure}; {ctxt}", "refused")
            ctx.label("refused")
            return
        require(leaf in after, lambda: f"accepted but not registered; {ctxt}", "not-registered")
        uri = [m for x, m, cur in allcand if m[et] == pm.OPEN or req["redirect_uri"] in m[et]["redirect_uris"]]
        require(uri, lambda: f"redirect_uri {req['redirect_uri']}; {ctxt}", "redirect-uri")
        require(a["object"] != "rogue" and (a["object"] not in ("none", "client") or name != "par"), lambda: f"request object with the wrong signature accepted; {ctxt}", "request-object")
        if a["object"] == "other":
            require(any(m[et] == pm.OPEN or not slot_in(slot, m[et]) or True for x, m, c in allcand), "", "request-object")
        extra = ep.extra_response_args({}, client_id=leaf)
        require(extra.get("trust_anchor_id") in {x[-1] for x, m, cur in allcand}, lambda: f"{extra}; {ctxt}", "anchor")
        cid = after[leaf].get("client_id")
        require(cid == leaf if not case["new_id"] and name != "par" else cid, lambda: f"client id {cid}; {ctxt}", "client-id")
        require(r.value["client_id"] in (cid, leaf), lambda: f"client id {cid}; {ctxt}", "client-id")
        ctx.nontriv([case, n])
        ctx.label("accepted", f"chain-{a['trust_chain']}", f"object-{a['object']}", "again" if leaf in before else "first")

    def foreign_object(fed, hist, leaf, other, req, r, before, after, case, ctxt):
        """another client made the request object: it is either refused or a request of that other client"""
        auto = not case["types"] or "automatic" in case["types"]
        cand = {e: ([c for c in hist.candidates(e) if not G.unusable(c[1][et])] if auto else []) for e in (leaf, other)}
        # the chain that may have been provided is about the client, whoever made the request object
        accepted = r.ok and r.value is not None and "error" not in r.value and "response_type" in r.value
        ids = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        owner = {k: after.get(k, before.get(k)).get("entity_id", k) for k in ids}
        for k, e in owner.items():
            if k in after and k not in before and e == other:
                require(cand[other], lambda: f"registered {k} without any chain; {ctxt}", "registered-no-chain")
        if not accepted:
            return
        cid = r.value["client_id"]
        require(cid == other or after.get(cid, {}).get("entity_id") == other or (case["new_id"] and cid in after and cid not in (leaf, after.get(leaf, {}).get("client_id"))),
                lambda: f"request object of another client accepted; {ctxt}", "request-object")
        require(cand[other], lambda: f"accepted without any chain; {ctxt}", "accepted-no-chain")
        require(any(m[et] == pm.OPEN or req["redirect_uri"] in m[et]["redirect_uris"] for x, m, c in cand[other]),
                lambda: f"redirect_uri {req['redirect_uri']}; {ctxt}", "redirect-uri")
        ctx.label("request-of-another")

    def two_ways(case, which, short):
        """one of two ways to the client is shorter lived, leads to other metadata and is then closed"""
        case = copy.deepcopy(case)
        fed = case["fed"]
        fed.update(edges=[0, 1, 4, 6], ttl=3 * DAY, sttl=[3 * DAY] * G.n_edges, stmts=[{} for _ in range(G.n_edges)])
        for n in (0, 1):
            fed["stmts"][n] = {"metadata_policy": {et: {"contacts": {"value": ["xy"[n]]}}}}
        fed["sttl"][which] = short
        a = {"who": 0, "uri": 0, "v": 0, "trust_chain": None, "object": None}
        case.update(types=None, ops=[("ask", a), ("drop", 0, which), ("wait", short + 50), ("ask", dict(a)), ("wait", 3 * DAY), ("ask", dict(a))])
        fed["meta"][0].pop("broken", None)
        return case

    case = st.fixed_dictionaries({
        "key": st.integers(0, 4), "fed": G.federation(et), "alt": G.client_meta(et), "new_id": st.booleans(),
        "types": st.sampled_from([None] * 8 + [["automatic"], ["explicit"]]),
        "ops": weighted((3, st.lists(op, min_size=1, max_size=7)), (2, again))})
    ctx.prop(name, weighted((12, case), (1, st.builds(two_ways, case, st.integers(0, 1), st.sampled_from([200, 3600, DAY])))), history, 1000, rule="distinct request accepted after automatic registration")


def slot_in(slot, m):
    return EC[slot]["x"] in {k["x"] for k in m["jwks"]["keys"]}
