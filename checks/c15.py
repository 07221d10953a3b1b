"""C15: a trust mark issuer issues exactly the specified marks and its status and list endpoints tell the truth
about them."""
import copy
import json
import os
import tempfile

from hypothesis import strategies as st

from gen import weighted

import realfed as R
from fedlib import RSA, entity, jwks, payload_of, sign, verify_sig, world, b64e
from vf import attempt, require

TMI, OTHER, SELF = "https://tmi.example.org", "https://other.example.org/tmi", "https://selfish.example.org"
IDS = ["https://refeds.org/sirtfi", "https://example.com/tm?x=1&y=é", "tm3"]
UNKNOWN = "https://unknown.example.com/tm"
SUBS = ["https://a.example.org", "https://b.example.org/t?x=1&y=2", "https://b.example.org/t"]
spec = st.fixed_dictionaries({}, optional={
    "lifetime": st.sampled_from([10, 100, 3600, 2592000]), "ref": st.just("https://example.com/ref"),
    "logo_uri": st.just("https://example.com/logo é.png"), "delegation": st.just("eyJ.e30.sig"),
    "organization": st.sampled_from([{"n": ["a"]}])})
extra = st.fixed_dictionaries({}, optional={"ref": st.just("https://example.com/other"), "for": st.just(["x"]), "life": st.sampled_from([5, 200])})
ids, subs = st.sampled_from([IDS[0]] * 8 + IDS * 2 + [UNKNOWN]), st.sampled_from(SUBS[:1] * 3 + SUBS[:2] * 2 + SUBS)
op = weighted(
    (3, st.tuples(st.just("issue"), ids, subs, st.sampled_from(["call", "wire", "other"]), st.one_of(st.just({}), extra))),
    (1, st.tuples(st.just("wait"), st.sampled_from([1, 6, 9, 20, 100, 3600]))),
    (3, st.tuples(st.just("token"), st.integers(0, 9), st.sampled_from(
        ["real", "real", "resigned", "sig", "payload", "none", "foreign", "unrecorded", "garbage"]))),
    (3, st.tuples(st.just("status"), ids, subs, st.sampled_from(["", "", "iat", "old", "bad", "id"]))),
    (2, st.tuples(st.just("list"), ids, st.sampled_from(["", "", *SUBS]))),
    (1, st.tuples(st.just("restart"))))


def tm_conf(specification, db):
    path = "fedservice.trust_mark_entity.server."
    return {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
        "trust_mark_specification": specification, "trust_mark_db": db,
        "endpoint": {"trust_mark": {"path": "trust_mark", "class": path + "trust_mark.TrustMark",
                                    "kwargs": {"client_authn_method": ["none"]}},
                     "trust_mark_list": {"path": "trust_mark_list", "class": path + "trust_mark_list.TrustMarkList", "kwargs": {}},
                     "trust_mark_status": {"path": "trust_mark_status", "class": path + "trust_mark_status.TrustMarkStatus",
                                           "kwargs": {}}}}}


def run(ctx):
    ctx.assumptions += ["status in the second a mark expires, and by issue time when several marks were issued within "
                        "that second, is left open", "the trust mark endpoint is run without client authentication"]

    def history(case):
        import requests
        tmp = tempfile.mkdtemp(dir=".")
        specification = {i: copy.deepcopy(s) for i, s in zip(IDS, case["specs"]) if s is not None}
        plain = {i: {k: v for k, v in s.items() if k != "lifetime"} for i, s in specification.items()}
        life = {i: s.get("lifetime") for i, s in specification.items()}
        given = copy.deepcopy(specification)
        key, okey = case["key"], (case["key"] + 1) % 5

        def db(name):
            if case["db"] is None:
                return None
            if case["db"] == "simple":
                return {"class": "fedservice.trust_mark_entity.SimpleDB", "kwargs": {}}
            return {"class": "fedservice.trust_mark_entity.FileDB",
                    "kwargs": {i: os.path.join(tmp, f"{name}{n}") for n, i in enumerate(IDS)}}

        def make(eid, k):
            return entity(eid, k, endpoints=["entity_configuration"],
                          trust_mark_entity=tm_conf(specification, db(str(k))))

        with world() as (clock, net):
            other = make(OTHER, okey)
            me = make(TMI, key)
            from idpyoidc.key_import import import_jwks
            me.keyjar = import_jwks(me.keyjar, jwks(RSA[okey]), OTHER)
            require(specification == given, f"the specification given was changed to {specification}", "spec")
            wire = R.Wire(me)
            net.add(lambda *a: wire(*a))
            issued, foreign = [], []  # (payload, token) in order

            def get(path, q):
                r = requests.request("GET", f"{TMI}/{path}", params=q)
                try:
                    body = json.loads(r.text)
                except ValueError:
                    body = r.text
                return r.status_code, body

            def alive(p):
                now = int(clock.now)
                return True if p.get("exp", now + 1) > now else None if p["exp"] == now else False

            def expect(tid, sub, iat=0):
                recs = [p for p, _ in issued if p["id"] == tid and p["sub"] == sub and (not iat or p["iat"] == iat)]
                if not recs:
                    return False
                if iat and len({alive(p) for p in recs}) > 1:
                    return None
                return alive(recs[-1])

            def judge(answer, exp, where):
                status, body = answer
                active = isinstance(body, dict) and body.get("active") is True
                require(active or (status >= 400 and isinstance(body, dict) and "error" in body and "active" not in body),
                        lambda: f"{where}: neither active nor an error: {answer}", "answer")
                require(not active or status == 200, f"{where}: {answer}", "answer")
                require(exp is None or exp == active, lambda: f"{where}: {answer}, active expected: {exp}; issued "
                        f"{[p for p, _ in issued]} now {clock.now}", "status")

            for step, o in enumerate(case["ops"]):
                where = f"step {step} {o}"
                now = int(clock.now)
                if o[0] == "wait":
                    clock.advance(o[1])
                elif o[0] == "issue":
                    _, tid, sub, via, ex = o
                    ent, eid, k = (other, OTHER, okey) if via == "other" else (me, TMI, key)
                    ex = {} if via == "wire" else {("exp" if n == "life" else n): (now + v if n == "life" else v) for n, v in ex.items()}
                    if via == "wire":
                        status, tok = get("trust_mark", {"trust_mark_id": tid, "sub": sub})
                        if status != 200:
                            tok = None
                    else:
                        r = attempt(ent.server.trust_mark_entity.create_trust_mark, tid, sub, **copy.deepcopy(ex))
                        tok = r.value if r.ok else None
                    if tid not in plain:
                        require(tok is None, f"{where}: issued an unknown trust mark {tok}", "unknown")
                        continue
                    require(isinstance(tok, str) and tok.count(".") == 2, f"{where}: no trust mark: {tok!r}", "issue")
                    p = payload_of(tok)
                    exp = {**plain[tid], "iat": now, "id": tid, "sub": sub, "iss": eid}
                    if life[tid]:
                        exp["exp"] = now + life[tid]
                    exp.update(ex)
                    require(p == exp, lambda: f"{where}: issued {p} expected {exp}", "content")
                    require(verify_sig(tok, jwks(RSA[k])) == p, f"{where}: not signed by the issuer", "signature")
                    (foreign if via == "other" else issued).append((p, tok))
                    ctx.label(f"issue-{via}")
                elif o[0] == "token":
                    if o[2] == "foreign":
                        if not foreign:
                            continue
                        p, tok = foreign[o[1] % len(foreign)]
                        judge(get("trust_mark_status", {"trust_mark": tok}), False, where)
                        ctx.nontriv([case, step])
                        ctx.label("token-foreign")
                        continue
                    if not issued:
                        continue
                    p, tok = issued[o[1] % len(issued)]
                    exp = False
                    h, b, s = tok.split(".")
                    if o[2] == "real":
                        exp = expect(p["id"], p["sub"], p["iat"])
                    elif o[2] == "resigned":
                        tok = sign(p, RSA[okey])
                    elif o[2] == "sig":
                        tok = ".".join([h, b, b64e(b"\1" * 256)])
                    elif o[2] == "payload":
                        q = dict(p, exp=now + 10**6, sub=SUBS[0])
                        if q == p:
                            continue
                        tok = ".".join([h, b64e(json.dumps(q).encode()), s])
                    elif o[2] == "none":
                        tok = ".".join([b64e(b'{"alg":"none"}'), b, ""])
                    elif o[2] == "garbage":
                        tok = "no.trust.mark"
                    else:
                        tok = me.server.trust_mark_entity.self_signed_trust_mark(id=p["id"], sub=p["sub"])
                        exp = expect(p["id"], p["sub"], now) and None
                    judge(get("trust_mark_status", {"trust_mark": tok}), exp, where)
                    ctx.nontriv([case, step])
                    ctx.label(f"token-{o[2]}-{exp}")
                elif o[0] == "status":
                    _, tid, sub, how = o
                    q = {"sub": sub, "id" if how == "id" else "trust_mark_id": tid}
                    recs = [p for p, _ in issued if p["id"] == tid and p["sub"] == sub]
                    iat = {"iat": recs[-1]["iat"] if recs else 5, "old": recs[0]["iat"] if recs else 5, "bad": now + 7}.get(how, 0)
                    if iat:
                        q["iat"] = iat
                    exp = expect(tid, sub, iat)
                    judge(get("trust_mark_status", q), exp, where)
                    if recs:
                        ctx.nontriv([case, step])
                    ctx.label(f"status-{how}-{exp}")
                elif o[0] == "list":
                    q = {"trust_mark_id": o[1]}
                    if o[2]:
                        q["sub"] = o[2]
                    status, body = get("trust_mark_list", q)
                    want = [o[2]] if o[2] else SUBS
                    must = {s for s in want if expect(o[1], s)}
                    may = {s for s in want if expect(o[1], s) is None}
                    got = body if status == 200 else [] if isinstance(body, dict) and "error" in body else None
                    require(isinstance(got, list) and len(set(got)) == len(got) and must <= set(got) <= must | may,
                            lambda: f"{where}: listed {status} {body} expected {must}; issued {[p for p, _ in issued]}, now {clock.now}", "list")
                    if issued:
                        ctx.nontriv([case, step])
                    ctx.label(f"list-{len(got)}")
                elif o[0] == "restart":
                    d = me.server.trust_mark_entity.dump_trust_marks()
                    me = make(TMI, key)
                    me.keyjar = import_jwks(me.keyjar, jwks(RSA[okey]), OTHER)
                    wire = R.Wire(me)
                    if case["db"] != "file":
                        me.server.trust_mark_entity.load_trust_marks(d)
            # what was active is so until it expires, and not a second longer, whoever asks how often
            for d in (0, -1, 1):
                marks = issued[-3:]
                if not marks:
                    break
                if d:
                    clock.advance(max(0, min(p.get("exp", 0) for p, _ in marks) + d - clock.now))
                for p, tok in marks:
                    where = f"at last, {d} from expiry, {p['id']} {p['sub']} {p['iat']}"
                    exp = expect(p["id"], p["sub"], p["iat"])
                    for q in ({"trust_mark": tok}, {"trust_mark_id": p["id"], "sub": p["sub"], "iat": p["iat"]}):
                        judge(get("trust_mark_status", q), exp, where)
                    judge(get("trust_mark_status", {"trust_mark_id": p["id"], "sub": p["sub"]}), expect(p["id"], p["sub"]), where)
                    ctx.label(f"last-{d}-{exp}")
            require(specification == given, f"the specification given was changed to {specification}", "spec")

    ctx.prop("history", st.fixed_dictionaries({
        "key": st.integers(0, 4), "db": st.sampled_from(["file", "simple", None]),
        "specs": st.lists(spec, min_size=3, max_size=3),
        "ops": st.lists(op, min_size=5, max_size=20)}), history, 1500,
        rule="distinct status or list request after marks were issued")

    def self_signed(case):
        with world() as (clock, net):
            given = {i: copy.deepcopy(s) for i, s in zip(IDS, case["specs"])}
            specification = copy.deepcopy(given)
            conf = {"class": "fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity",
                    "kwargs": {"trust_mark_specification": specification}}
            ents = [entity(eid, k, endpoints=["entity_configuration"], self_signed_trust_mark_entity=conf,
                           **({"trust_marks": list(case["assigned"])} if case["assigned"] else {}))
                    for k, eid in enumerate((SELF, OTHER))]
            have = [list(case["assigned"]) for _ in ents]
            for who, tid, wait in case["ops"]:
                clock.advance(wait)
                e, eid = ents[who], (SELF, OTHER)[who]
                r = attempt(e.server.self_signed_trust_mark_entity, tid)
                if tid == UNKNOWN:
                    require(not r.ok, f"issued an unknown trust mark {r}", "unknown")
                else:
                    require(r.ok and isinstance(r.value, str), lambda: f"no mark: {r}", "issue")
                    p = payload_of(r.value)
                    exp = {**given[tid], "iat": int(clock.now), "id": tid, "sub": eid, "iss": eid}
                    require({k: v for k, v in p.items() if k != "exp"} == exp and p.get("exp", 0) > clock.now,
                            lambda: f"issued {p} expected {exp}", "content")
                    require(verify_sig(r.value, jwks(RSA[who])) == p, "not signed by the entity", "signature")
                    have[who].append(r.value)
                for n, x in enumerate(ents):
                    ec = payload_of(x.get_endpoint("entity_configuration").process_request({})["response"])
                    require(ec.get("trust_marks", []) == have[n],
                            lambda: f"trust marks of {n}: {ec.get('trust_marks')} expected {have[n]}", "published")
                ctx.nontriv()
            require(specification == given, "the specification given was changed", "spec")

    ctx.prop("self_signed", st.fixed_dictionaries({
        "specs": st.lists(spec.map(lambda s: {k: v for k, v in s.items() if k != "lifetime"}), min_size=3, max_size=3),
        "assigned": st.sampled_from([[], ["eyJ.e30.x"]]),
        "ops": st.lists(st.tuples(st.integers(0, 1), ids, st.sampled_from([0, 0, 5])), min_size=1, max_size=5)}),
        self_signed, 300, rule="distinct history of self-signed marks")
