"""C25: a federation put together from files the documented way (key files, trust anchor and subordinate folders, authority hint and
trust mark files, written by other processes while entities run, and restarts) is the federation the files describe."""
import copy
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

from gen import weighted

import realfed as R
from fedlib import DAY, jwks, payload_of, rsa_file, verify_sig, world
from vf import attempt, require

TA, TA2, IM, IM2, TMI, LEAF, RP = ("https://ta.example.org:7003", "https://ta2.example.org", "https://im.example.org", "https://im.example.org/t",
                                   "https://tmi.example.org:6000", "https://leaf.example.com/a/b", "https://rp.example.com:8443/app")
ALL = [TA, TA2, IM, IM2, TMI, LEAF, RP]
SUPS = [TA, TA2, IM, IM2]
EVAL = [IM, TMI, LEAF, RP]
SUBS = [IM, IM2, TMI, LEAF, RP]
MARKS = ["https://refeds.org/sirtfi", "http://dc4eu.example.com/PersonIdentificationData/se"]
LIFE = 30 * DAY
SERVICES = ["entity_configuration", "entity_statement", "trust_mark_status"]
pair = st.tuples(st.sampled_from(SUBS), st.sampled_from(SUPS)).filter(lambda p: p[0] != p[1])
op = weighted((5, st.tuples(st.just("join"), pair)), (1, st.tuples(st.just("hint"), pair)), (1, st.tuples(st.just("enrol"), pair)),
              (3, st.tuples(st.just("anchor"), st.sampled_from(EVAL), st.sampled_from([TA, TA, TA2]))),
              (1, st.tuples(st.just("unhint"), pair)),
              (2, st.tuples(st.just("restart"), st.sampled_from(ALL))),
              (1, st.tuples(st.just("newkeys"), st.sampled_from(ALL))),
              (2, st.tuples(st.just("mark"), st.sampled_from(MARKS), st.sampled_from(ALL))),
              (1, st.tuples(st.just("wait"), st.sampled_from([100, DAY + 1, LIFE - DAY, LIFE + 1]))),
              (4, st.tuples(st.just("look"), st.sampled_from(EVAL))))


class Site(object):
    """one entity: its folder and the process that runs in it"""

    def __init__(self, root, n, eid, generate, policy, json_hints=False):
        self.json_hints = json_hints
        self.eid, self.dir, self.key, self.keys, self.policy = eid, os.path.join(root, f"e{n}"), n, None, policy
        os.makedirs(os.path.join(self.dir, "private"))
        if not generate or eid == RP:
            self.give_key()
        self.ent = None
        if json_hints:
            self.write_hints([])

    def write_hints(self, hints):
        """a list file, or a JSON document"""
        if self.json_hints:
            with open(self.path("authority_hints.json"), "w") as f:
                json.dump(hints, f)
        elif hints or os.path.exists(self.path("authority_hints")):
            with open(self.path("authority_hints"), "w") as f:
                f.write("".join(h + "\n" for h in hints))

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def give_key(self):
        shutil.copy(rsa_file(self.key), self.path("private", "fed_keys.json"))

    def folder(self, name):
        return {"class": "idpyoidc.storage.abfile.AbstractFileSystem",
                "kwargs": {"fdir": self.path(name), "key_conv": "idpyoidc.util.Base64", "value_conv": "idpyoidc.util.JSON"}}

    def config(self):
        hints = {"class": "idpyoidc.storage.listfile.ReadOnlyListFile", "kwargs": {"file_name": self.path("authority_hints")}}
        if self.json_hints:
            hints = self.path("authority_hints.json")
        c = {"entity_id": self.eid, "httpc_params": {"verify": False},
             "key_config": {"private_path": self.path("private", "fed_keys.json"), "key_defs": [{"type": "RSA", "use": ["sig"]}],
                            "public_path": self.path("static", "fed_keys.json"), "read_only": False},
             "preference": {"organization_name": f"org {self.eid}"}, "services": SERVICES,
             "endpoints": ["entity_configuration"] + (["fetch", "list", "resolve"] if self.eid in SUPS else [])}
        if self.eid in SUPS:
            c["subordinate"] = self.folder("subordinates")
            if self.policy:
                c["metadata_policy"] = {s: {"metadata_policy": {"federation_entity": {"contacts": {"add": [f"by {self.eid}"]}}}} for s in SUBS}
        if self.eid not in (TA, TA2):
            c["authority_hints"] = hints
            c["trust_anchors"] = self.folder("trust_anchors")
        if self.eid == TMI:
            tm = {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{k}", "kwargs": {"client_authn_method": ["none"]} if n == "trust_mark" else {}}
                  for n, k in (("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"), ("trust_mark_status", "TrustMarkStatus"))}
            c["trust_mark_entity"] = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
                "trust_mark_specification": {m: {"lifetime": LIFE} for m in MARKS},
                "trust_mark_db": {"class": "fedservice.trust_mark_entity.FileDB", "kwargs": {m: self.path(f"marks{n}") for n, m in enumerate(MARKS)}},
                "endpoint": tm}}
        return json.loads(json.dumps(c))

    def make(self):
        from fedservice.utils import make_federation_combo
        if self.eid == RP:
            c = self.config()
            return R.rp(self.eid, self.key, fed_services=SERVICES, anchors=c["trust_anchors"], authority_hints=c["authority_hints"])
        return make_federation_combo(**self.config())

    def start(self):
        self.ent = self.make()
        self.fe = R.fed_entity(self.ent)


def run(ctx):
    ctx.assumptions += ["trust anchors are read when an entity starts", "every program sees the files others have completely written"]

    def history(case):
        root = tempfile.mkdtemp(prefix="vf-c25-")
        try:
            with world() as (clock, net):
                judge(ctx, case, root, clock, net)
        finally:
            shutil.rmtree(root)

    every = st.tuples(*[st.tuples(st.just("anchor"), st.just(e), st.just(TA)) for e in EVAL[1:]]).map(list)
    tree = st.tuples(*[st.tuples(st.just("join"), st.tuples(st.just(e), st.sampled_from([u for u in (TA, TA, IM, IM2, TA2) if u != e])))
                       for e in SUBS]).map(list).flatmap(st.permutations).flatmap(lambda t: st.integers(0, 2).map(lambda n: t[n:]))
    ctx.prop("deploy", st.fixed_dictionaries({
        "generate": weighted((5, st.just([])), (1, st.lists(st.sampled_from(ALL), max_size=2, unique=True))), "policy": st.booleans(),
        "json": st.lists(st.sampled_from(SUBS), max_size=3, unique=True), "ops": st.tuples(weighted((3, every), (1, st.just([]))), tree, st.lists(op, min_size=3, max_size=12)).map(lambda t: t[0] + t[1] + t[2] + [("look", LEAF)])}),
        history, 160, rule="a chain of at least two statements above a configuration is found, or a trust mark verified")
    word = st.text("abz_:/.", min_size=1, max_size=6)
    scalar = st.one_of(word, st.integers(-2, 9), st.booleans(), st.sampled_from(["file", "File:x.json", "afile:x.json", "https://file:1/x.json"]))
    doc = st.recursive(scalar, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(word, c, max_size=3)), max_leaves=6)
    ref = st.tuples(st.integers(0, 3), st.booleans()).map(lambda t: {"ref": list(t)})
    leaf = weighted((2, scalar), (2, ref))
    node = st.recursive(leaf, lambda c: weighted((2, st.dictionaries(word, c, max_size=4)),
                                                 (1, st.lists(c.filter(lambda x: not isinstance(x, list)), max_size=4))), max_leaves=12)
    ctx.prop("files", st.fixed_dictionaries({"files": st.lists(doc, max_size=3), "conf": st.dictionaries(word, node, min_size=1, max_size=5)}),
             lambda case: config_files(ctx, case), 600, rule="at least one existing file is referred to")


def config_files(ctx, case):
    from fedservice.utils import load_values_from_file
    root = tempfile.mkdtemp(prefix="vf-c25-")
    old = os.getcwd()
    try:
        os.chdir(root)
        for n, v in enumerate(case["files"]):
            os.makedirs(f"d{n}")
            with open(f"d{n}/v.json", "w") as f:
                json.dump(v, f)
        used = set()

        def build(v, want):
            if isinstance(v, dict) and set(v) == {"ref"}:
                n, absolute = v["ref"]
                if n >= len(case["files"]):
                    return None if want else f"file:nosuch/v{n}.json"
                used.add(n)
                return copy.deepcopy(case["files"][n]) if want else "file:" + (f"{root}/" if absolute else "") + f"d{n}/v.json"
            if isinstance(v, dict):
                return {k: build(x, want) for k, x in v.items()}
            return [build(x, want) for x in v] if isinstance(v, list) else v
        want, got = build(case["conf"], True), load_values_from_file(build(case["conf"], False))
        require(got == want and list(got) == list(want), lambda: f"loaded {got}, should be {want}", "files")
        if used:
            ctx.nontriv()
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def judge(ctx, case, root, clock, net):
    from idpyoidc.storage.abfile import AbstractFileSystem
    import requests
    sites = {e: Site(root, n, e, e in case["generate"], case["policy"], e in case.get("json", [])) for n, e in enumerate(ALL)}
    hints, enrolled, anchors, marks = {e: [] for e in ALL}, {}, {e: {} for e in ALL}, []
    tick = [0]
    spare = [7]

    class Live(list):
        def __iter__(self):
            return iter([s.ent for s in sites.values() if s.ent is not None])
    wire = R.Wire()
    wire.entities = Live()
    net.add(wire)

    def published(eid):
        r = requests.get(sites[eid].fe.server.get_endpoint("entity_configuration").full_path)
        require(r.status_code == 200, lambda: f"configuration of {eid}: {r.status_code} {r.text[:200]} {wire.errors}", "configuration")
        return r.text

    def start(eid, fresh=False):
        s = sites[eid]
        s.start()
        s.trusts = copy.deepcopy(anchors[eid])
        p = payload_of(published(eid))
        if s.keys is not None and not fresh:
            require(R.norm(p["jwks"]) == R.norm(s.keys), lambda: f"after a restart {eid} has other keys: {p['jwks']} not {s.keys}", "restart-keys")
        s.keys = p["jwks"]

    def put(eid, folder, key, val):
        spec = sites[eid].folder(folder)["kwargs"]
        AbstractFileSystem(**spec)[key] = val
        tick[0] += 1
        for f in os.listdir(spec["fdir"]):     # files have times that tell the order they were written in
            if not f.endswith(".lock") and json.load(open(os.path.join(spec["fdir"], f))) == val:
                os.utime(os.path.join(spec["fdir"], f), ns=(tick[0] * 10 ** 9 + 1_900_000_000 * 10 ** 9,) * 2)

    def info(eid):
        from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
        from fedservice.utils import make_federation_entity
        fe = make_federation_entity(entity_id="https://localhost", key_config={"private_path": rsa_file(15), "key_defs": "", "read_only": True})
        jws = fe.get_function("trust_chain_collector").get_entity_configuration(eid)
        ec = verify_self_signed_signature(jws)
        require(ec["sub"] == eid and R.norm(ec["jwks"]) == R.norm(sites[eid].keys), lambda: f"{eid} publishes {dict(ec)}", "configuration")
        res = {"entity_types": list(ec["metadata"].keys()), "jwks": ec["jwks"]}
        if "federation_list_endpoint" in ec["metadata"]["federation_entity"]:
            res["intermediate"] = True
        return json.loads(json.dumps(res))

    def edge_ok(sub, sup):
        e = enrolled.get((sub, sup))
        return e is not None and sup in hints[sub] and R.norm(e["jwks"]) == R.norm(sites[sub].keys)

    def look(who, where):
        for e in ALL:
            tok = published(e)
            p = verify_sig(tok, sites[e].keys)
            require(p is not None and p["iss"] == p["sub"] == e, lambda: f"{where}: {e} publishes {payload_of(tok)}", "configuration")
            require(p.get("authority_hints", []) == hints[e], lambda: f"{where}: authority hints of {e} {p.get('authority_hints')}, in the file {hints[e]}", "hints")
        for u in SUPS:
            r = requests.get(sites[u].fe.server.get_endpoint("list").full_path)
            mine = {a for a, b in enrolled if b == u}
            got = json.loads(r.text)
            require(r.status_code == 200 and len(got) == len(set(got)) and set(got) == mine, lambda: f"{where}: {u} lists {got}, should be {mine}", "list")
            for s in SUBS:
                r = requests.get(sites[u].fe.server.get_endpoint("fetch").full_path, params={"iss": u, "sub": s})
                if s in mine:
                    p = verify_sig(r.text, sites[u].keys) if r.status_code == 200 else None
                    require(p is not None and p["iss"] == u and p["sub"] == s and R.norm(p["jwks"]) == R.norm(enrolled[(s, u)]["jwks"]),
                            lambda: f"{where}: {u} says of {s}: {r.text[:300]} {wire.errors}", "statement")
                    want = {"federation_entity": {"contacts": {"add": [f"by {u}"]}}} if case["policy"] else None
                    require(p.get("metadata_policy") == want, lambda: f"{where}: {u} says of {s}: {p}", "policy")
                elif s != u:
                    require(r.status_code >= 400, lambda: f"{where}: {u} says of {s}, which it does not know, {r.text[:300]}", "unknown")
        start(who)
        fe = sites[who].fe
        good = {t for t, j in anchors[who].items() if R.norm(j) == R.norm(sites[t].keys)}
        for s in ALL:
            want = paths(s, good) if s not in (TA, TA2) else None
            if want is None or s == who:
                continue
            # whether an entity without superiors is an anchor in its own eyes is left open
            found = {c for c in chains_of(fe, s, where) if c[-1] != who}
            require(found == want, lambda: f"{where}: {who} finds {sorted(found)} for {s}, should be {sorted(want)}; {wire.errors}", "chains")
            if any(len(w) > 2 for w in want):
                ctx.nontriv()
                ctx.label("chains")
            elif not want:
                ctx.label("no-chain")
        live = {}
        for i, m in enumerate(marks):
            live[(m[0], m[1])] = i
        ep = sites[TMI].fe.server.get_endpoint
        for m in MARKS:
            r = requests.get(ep("trust_mark_list").full_path, params={"trust_mark_id": m})
            want = {k[1] for k, i in live.items() if k[0] == m and clock.now < marks[i][2]}
            sure = (not want) if r.status_code >= 400 and "not_found" in r.text else r.status_code == 200 and set(json.loads(r.text)) == want
            edge = any(marks[i][2] == int(clock.now) for i in live.values())
            require(sure or edge, lambda: f"{where}: list of {m}: {r.text}, should be {want}", "mark-list")
        for (m, sub), i in live.items():
            _, _, exp, token, keys, iat = marks[i]
            if exp == int(clock.now):
                continue
            r = requests.post(ep("trust_mark_status").full_path, data={"sub": sub, "id": m, "trust_mark_id": m})
            active = r.status_code == 200 and json.loads(r.text).get("active") is True
            require(active == (clock.now < exp), lambda: f"{where}: status of {m} for {sub} until {exp}: {r.text} {wire.errors}", "mark-status")
            if who == TMI:
                continue
            v = attempt(fe.verify_trust_mark, token)
            ok = v.ok and v.value
            if paths(TMI, good) != paths(TMI, good | {who}) and not hints[who]:
                continue
            want = clock.now < exp and bool(paths(TMI, good)) and keys == R.norm(sites[TMI].keys)
            require(bool(ok) == want, lambda: f"{where}: {who} on trust mark {m} for {sub}: {v}, should be {want}; {wire.errors}", "mark-verified")
            if want:
                ctx.nontriv()
                ctx.label("mark-verified")

    def chains_of(fe, s, where):
        from fedservice.entity.function import get_verified_trust_chains
        r = attempt(get_verified_trust_chains, fe, s)
        return {tuple(c.iss_path) for c in r.value or []} if r.ok else set()

    def paths(sub, tas):
        res, todo = set(), [(sub,)]
        while todo:
            p = todo.pop()
            if p[-1] in tas:
                res.add(p)
                continue
            todo += [p + (u,) for u in SUPS if u not in p and edge_ok(p[-1], u)]
        return res

    for e in ALL:
        start(e)
    for n, o in enumerate(case["ops"]):
        where = f"step {n}: {o}"
        if o[0] == "restart":
            start(o[1])
        elif o[0] == "newkeys":
            s = sites[o[1]]
            if o[1] == RP or spare[0] > 14:
                continue
            s.key, spare[0] = spare[0], spare[0] + 1
            s.give_key()
            start(o[1], fresh=True)
        elif o[0] in ("join", "hint", "enrol"):
            sub, sup = o[1]
            if o[0] != "enrol" and sup not in hints[sub]:
                hints[sub].append(sup)
                sites[sub].write_hints(hints[sub])
            if o[0] != "hint":
                val = info(sub)
                put(sup, "subordinates", sub, val)
                enrolled[(sub, sup)] = val
        elif o[0] == "unhint":
            sub, sup = o[1]
            if sup in hints[sub]:
                hints[sub].remove(sup)
                sites[sub].write_hints(hints[sub])
        elif o[0] == "anchor":
            val = info(o[2])["jwks"]
            put(o[1], "trust_anchors", o[2], val)
            anchors[o[1]][o[2]] = val
        elif o[0] == "wait":
            clock.advance(o[1])
        elif o[0] == "mark":
            other = R.fed_entity(sites[TMI].make())      # the documented program, beside the running server
            r = attempt(other.server.trust_mark_entity.create_trust_mark, o[1], o[2])
            require(r.ok, lambda: f"{where}: {r}", "mark")
            p = verify_sig(r.value, sites[TMI].keys)
            require(p is not None and p["iss"] == TMI and p["sub"] == o[2] and p["id"] == o[1] and p["iat"] == int(clock.now) and p["exp"] == int(clock.now) + LIFE,
                    lambda: f"{where}: {p}", "mark")
            marks.append((o[1], o[2], p["exp"], r.value, R.norm(sites[TMI].keys), p["iat"]))
        else:
            look(o[1], where)
