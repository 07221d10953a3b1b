"""C16: a trust mark is accepted only if its issuer, a member of the federation asked about, demonstrably issued
it, within its lifetime and as delegated; and every such mark is accepted."""
import json

from hypothesis import strategies as st

from gen import weighted

from fedlib import EC, ES_CT, PaperFed, b64e, entity, jwks, payload_of, sign, split_url, well_known_urls, world
from vf import attempt, require

ME, TMI, IM, SIB, TA, TA2, OWNER = ("https://me.example.org", "https://im.example.org/t/t", "https://im.example.org", "https://im.example.org/t",
                                    "https://ta.example.org", "https://ta.example.org/2", "https://owner.example.org")
TTL = 4000
ID1, ID2 = "https://refeds.org/sirtfi", "https://example.com/tm"
EXTRA, LINKONLY, EVIL, OWNERKEY = 5, 6, 9, 10  # key of the EC only / of TA2's statement only / of nobody / of the owner
OWNER2, OWNER2KEY = "https://owner.example.org/2", 11
DELEG = ["good"] * 7 + ["owner2", "owner2", "signer", "sub", "iss", "id", "expired", "garbage", "self", "none"]
MARK = ["good"] * 9 + ["subsib", "subsib", "fresh", "noexp", "expired", "expired", "im", "evil", "sib", "sibkid", "ta", "old", "extra", "linkonly", "payload", "alg", "jku",
                      "nosub", "noiat", "noid", "sibiss", "unknown"]
ISSUERS = st.sampled_from([None, "str", "str", "list", "list", "other", "near", "nearstr", "any"])
op = weighted((8, st.tuples(st.just("verify"), st.sampled_from(MARK), st.sampled_from([TA, TA, TA2]),
                           st.sampled_from(["direct", "direct", "entity", "ask"]), st.sampled_from([ID1, ID1, ID2]),
                           st.one_of(st.none(), st.none(), st.sampled_from(DELEG)), st.sampled_from(["active", "active", "active", "false", "400", "conn", "empty", "no"]))),
              (3, st.tuples(st.just("again"), st.integers(0, 7), st.sampled_from([TA, TA2]), st.sampled_from(["direct", "direct", "entity", "ask"]),
                            st.sampled_from(["active", "active", "false", "400"]))),
              (1, st.tuples(st.just("wait"), st.sampled_from([1, 50, 99, 102, 500, TTL - 700, TTL // 2, TTL + 20]))),
              (1, st.tuples(st.just("rotate"))), (1, st.tuples(st.just("drop"), st.sampled_from([TA, TA2, IM]))),
              (2, st.just(("verify", "good", TA, "direct", ID1, "good", "active"))),
              (2, st.tuples(st.just("lists"), ISSUERS, st.sampled_from([0, TTL + 20]))),
              (1, st.tuples(st.just("resolve"), st.sampled_from([TMI, SIB]))),
              (1, st.tuples(st.just("usurped"), st.booleans(), st.booleans(), st.sampled_from([0, TTL + 20]))),
              (1, st.just(("verify", "good", TA, "direct", ID1, "signer", "active"))))


def run(ctx):
    ctx.assumptions += ["marks issued by a trust anchor itself, keys found in only one of the issuer's configuration and its "
                        "superior's statement, and delegations of marks the anchor lists no owner or issuers for are left open",
                        "statements already fetched may be used until they expire"]

    def history(case):
        with world() as (clock, net):
            status = {"tmi": "active"}
            sup = case["sup"]
            meta = {"federation_entity": {"federation_trust_mark_status_endpoint": f"{TMI}/status"}}
            tameta = {"federation_entity": {}}

            def tell(issuers):
                """what the trust anchor says about issuers and owners"""
                tameta["federation_entity"].clear()
                if not issuers:
                    return
                tameta["federation_entity"]["trust_mark_issuers"] = {ID1: {
                    "str": TMI, "list": [SIB, TMI], "other": [SIB], "near": [SIB, TMI + "/x"], "nearstr": TMI + "x", "any": []}[issuers]}
                tameta["federation_entity"]["trust_mark_owners"] = {ID1: {"sub": OWNER, "jwks": jwks(EC[OWNERKEY])}}
                if case["two"]:     # another mark has another owner
                    for c, v in (("issuers", [TMI]), ("owners", {"sub": OWNER2, "jwks": jwks(EC[OWNER2KEY])})):
                        c = tameta["federation_entity"]["trust_mark_" + c]
                        was = dict(c)
                        c.clear()
                        c.update({ID2: v, **was} if case["two"] == "first" else {**was, ID2: v})

            tell(case["issuers"])
            told = [[None, case["issuers"]]]     # [until, lists]
            nodes = {TMI: {"key": 0, "sup": list(sup), "meta": meta, "stmt": {}, "ec": {}},
                     IM: {"key": 4, "sup": [TA, TA2] if case["im2"] else [TA]}, SIB: {"key": 3, "sup": [TA], "meta": {
                         "federation_entity": {"federation_trust_mark_status_endpoint": f"{SIB}/status"}}},
                     TA: {"key": 7, "meta": tameta}, TA2: {"key": 8}}
            for n in nodes.values():
                n["ttl"] = TTL
                n["sttl"] = {s: TTL for s in nodes}
            fed = PaperFed(nodes, clock)

            def keys():
                """what is published right now"""
                cur = nodes[TMI]["key"]
                nodes[TMI]["ec"] = {"jwks": jwks(EC[cur], EC[EXTRA])} if case["extra"] else {}
                nodes[TMI]["stmt"] = {TA2: {"jwks": jwks(EC[cur], EC[LINKONLY])}} if TA2 in nodes[TMI]["sup"] and case["linkonly"] else {}

            keys()
            served = []

            def handler(method, url, headers, body):
                base, q = split_url(url)
                if base.endswith("/status"):
                    asked.append(q)
                    mode = status["tmi"]
                    if mode == "conn":
                        return fed.dead("conn")
                    js = {"Content-Type": "application/json"}
                    if mode == "400":
                        return 400, js, json.dumps({"error": "not_found"})
                    return 200, js, json.dumps({"active": {"active": True, "false": False, "no": "no"}.get(mode)} if mode != "empty" else {})
                if usurped and base == well_known_urls(TA)[1]:
                    now = int(clock.now)
                    key = EC[EVIL] if usurped[0] else dict(EC[EVIL], kid=EC[7]["kid"])
                    return 200, ES_CT, sign({"iss": TA, "sub": TA, "iat": now, "exp": now + TTL, "jwks": jwks(key), "metadata": {"federation_entity": {
                        "federation_fetch_endpoint": TA + "/fetch", "trust_mark_issuers": {i: [TMI, SIB] for i in (ID1, ID2)},
                        "trust_mark_owners": {ID1: {"sub": OWNER, "jwks": jwks(EC[EVIL], dict(EC[EVIL], kid=EC[OWNERKEY]["kid"]))},
                                              ID2: {"sub": OWNER2, "jwks": jwks(EC[EVIL], dict(EC[EVIL], kid=EC[OWNER2KEY]["kid"]))}}}}}, key)
                r = fed.handler(method, url, headers, body)
                if r and r[0] == 200:
                    served.append(payload_of(r[2]))
                return r

            asked, usurped = [], []
            net.add(handler)
            me = entity(ME, case["key"], {TA: fed.jwks(TA), TA2: fed.jwks(TA2)},
                        services=["entity_configuration", "entity_statement", "trust_mark_status"])
            changed = None
            former = set()

            def paths(anchor, links):
                res, todo = [], [(TMI,)]
                while todo:
                    p = todo.pop()
                    if p[-1] == anchor:
                        res.append(p)
                        continue
                    todo += [p + (b,) for a, b in links if a == p[-1] and b not in p]
                return res

            def judge(where, now, kind, anchor, api, tid, deleg, p, key, tok, good):
                lists = {x for until, x in told if until is None or now <= until + TTL}
                second = bool(lists - {None} and case["two"] and tid == ID2)
                asked.clear()
                if api == "direct":
                    r = attempt(me.function.trust_mark_verifier, tok, anchor)
                else:
                    r = attempt(me.verify_trust_mark, tok, check_with_issuer=api == "ask")
                accepted = r.ok and bool(r.value)
                where = f"{where}: {r}, mark {p} signed by key {key}; TMI has {nodes[TMI]['key']} under {nodes[TMI]['sup']}"
                anchors = [anchor] if api == "direct" else [TA, TA2]

                # soundness
                live = [s for s in served if s["exp"] >= now]
                links = {(s["sub"], s["iss"]) for s in live if s["iss"] != s["sub"]}
                may = []
                for a in anchors:
                    for path in paths(a, links):
                        vouched = [s["jwks"] for s in live if s["sub"] == TMI and s["iss"] in (path[1], TMI)]
                        if any(k["kid"] == EC[key]["kid"] for j in vouched for k in j["keys"]):
                            may.append(a)
                if deleg is not None:
                    fine = deleg == "good" and not (lists <= {"other", "near", "nearstr"} and tid == ID1)
                    listed = None not in lists and (tid == ID1 or second)
                    if not fine and (listed or deleg == "garbage"):
                        may = [a for a in may if a != TA]
                    dmust = fine and listed and (lists <= {"str", "list"} or second)
                    dexp = payload_of(p["delegation"])["exp"] if deleg == "good" else now + 1
                    if dexp < now:
                        may = [a for a in may if a != TA]
                    dmust = dmust and dexp > now
                if kind in ("sib", "sibkid", "evil", "jku", "ta", "im", "payload", "alg", "nosub", "noiat", "noid", "sibiss", "unknown", "expired"):
                    may = []
                if api == "ask" and status["tmi"] != "active":
                    may = []
                require(not accepted or may, lambda: "accepted; " + where, "accepted")
                if api == "ask" and accepted:
                    require(asked and asked[-1].get("sub") == p["sub"] and asked[-1].get("trust_mark_id", asked[-1].get("trust_mark")) in (tid, tok),
                            lambda: f"asked the issuer about {asked}; " + where, "asked")
                if accepted:
                    require({k: v for k, v in dict(r.value).items()} == p, lambda: f"returned {r.value}; " + where, "value")
                # completeness
                stable = changed is None or now > changed + TTL
                curlinks = {(e, s) for e in nodes for s in nodes[e].get("sup", [])}
                have = [a for a in anchors if paths(a, curlinks)]
                must = good and stable and not usurped and have and (api != "ask" or status["tmi"] == "active")
                if deleg is not None:
                    must = must and dmust and have == [TA]
                require(not must or accepted, lambda: "refused; " + where, "refused")
                return accepted

            marks = []
            for step, o in enumerate(case["ops"]):
                where = f"step {step} {o}"
                now = int(clock.now)
                if o[0] == "wait":
                    clock.advance(o[1])
                    continue
                if o[0] == "rotate":
                    former.add(nodes[TMI]["key"])
                    nodes[TMI]["key"] = {0: 1, 1: 2, 2: 0}[nodes[TMI]["key"]]
                    former.discard(nodes[TMI]["key"])
                    keys()
                    changed = now
                    continue
                if o[0] == "drop":
                    if o[1] in nodes[TMI]["sup"]:
                        nodes[TMI]["sup"].remove(o[1])
                        keys()
                        changed = now
                    continue
                if o[0] == "lists":
                    tell(o[1])
                    told[-1][0] = now
                    told.append([None, o[1]])
                    clock.advance(o[2])
                    continue
                if o[0] == "usurped":   # someone else answers at the anchor's address
                    usurped[:] = [o[2]] if o[1] else []
                    changed = now
                    clock.advance(o[3])
                    continue
                if o[0] == "resolve":
                    attempt(me.get_verified_metadata, o[1])
                    continue
                cur = nodes[TMI]["key"]
                if o[0] == "again":     # a mark that was presented earlier
                    if not marks:
                        continue
                    _, i, anchor, api, status["tmi"] = o
                    kind, tid, deleg, p, key, tok = marks[i % len(marks)]
                    good = kind in ("good", "fresh", "noexp", "subsib") and key == cur and p.get("exp", now + 1) > now
                    if p.get("exp", now) < now:
                        kind = "expired"
                    judge(where, now, kind, anchor, api, tid, deleg, p, key, tok, good)
                    ctx.nontriv([case, step])
                    continue
                _, kind, anchor, api, tid, deleg, status["tmi"] = o
                p = {"iss": TMI, "sub": "https://holder.example.org", "id": tid, "iat": now - 10, "exp": now + 100}
                key, headers = cur, {"kid": EC[cur]["kid"]}
                ok = {cur}  # keys that sign for TMI in this mark
                good = kind in ("good", "fresh", "noexp", "subsib")
                if kind == "fresh":
                    p["iat"] = now
                elif kind == "noexp":
                    del p["exp"]
                elif kind == "expired":
                    p["exp"] = now - 1
                elif kind in ("evil", "jku"):
                    key, headers = EVIL, {"kid": EC[cur]["kid"]}
                    if kind == "jku":
                        headers = {"kid": EC[EVIL]["kid"], "jku": "https://evil.example.org/jwks.json", "jwk": jwks(EC[EVIL])["keys"][0]}
                elif kind in ("sib", "sibkid"):
                    key, headers = 3, {"kid": EC[3 if kind == "sib" else cur]["kid"]}
                elif kind == "im":
                    key, headers = 4, {"kid": EC[4]["kid"]}
                elif kind == "subsib":   # about an entity that is trusted with issuing
                    p["sub"] = SIB
                elif kind == "ta":
                    key, headers = 7, {"kid": EC[7]["kid"]}
                elif kind == "old":
                    if not former:
                        continue
                    key = sorted(former)[0]
                    headers = {"kid": EC[key]["kid"]}
                elif kind in ("extra", "linkonly"):
                    key = EXTRA if kind == "extra" else LINKONLY
                    headers = {"kid": EC[key]["kid"]}
                elif kind in ("nosub", "noiat", "noid"):
                    del p[kind[2:]]
                elif kind == "sibiss":
                    p["iss"] = SIB
                elif kind == "unknown":
                    p["iss"] = "https://unknown.example.org"
                d = None
                lists = {x for until, x in told if until is None or now <= until + TTL}
                second = bool(lists - {None} and case["two"] and tid == ID2)
                if deleg is not None:
                    owner, okey = (OWNER2, OWNER2KEY) if second != (deleg == "owner2") else (OWNER, OWNERKEY)
                    dp = {"iss": owner, "sub": TMI, "id": tid, "iat": now - 100, "exp": now + 100}
                    if deleg in ("sub", "iss", "id"):
                        dp[deleg] = {"sub": SIB, "iss": TMI, "id": ID2 if tid == ID1 else ID1}[deleg]
                    if deleg == "expired":
                        dp["exp"] = now - 1
                    d = sign(dp, EC[{"signer": EVIL, "self": cur}.get(deleg, okey)], {"typ": "trust-mark-delegation+jwt", "kid": EC[okey]["kid"]})
                    if deleg == "garbage":
                        d = "garbage"
                    if deleg == "none":
                        h, b, s = d.split(".")
                        d = ".".join([b64e(b'{"alg":"none"}'), b, ""])
                    p["delegation"] = d
                tok = sign(p, EC[key], headers)
                if kind in ("payload", "alg"):
                    h, b, s = tok.split(".")
                    if kind == "payload":
                        b = b64e(json.dumps(dict(p, sub=SIB)).encode())
                    else:
                        h, s = b64e(b'{"alg":"none"}'), ""
                    tok = ".".join([h, b, s])

                if len(marks) < 8 and not (deleg and tid == ID2 and case["two"]):   # (whose it is depends on the lists of the time)
                    marks.append((kind, tid, deleg, p, key, tok))
                accepted = judge(where, now, kind, anchor, api, tid, deleg, p, key, tok, good)
                ctx.nontriv([case, step])
                ctx.label(f"{kind}-{'accepted' if accepted else 'refused'}", f"deleg-{deleg}-{'accepted' if accepted else 'refused'}", f"api-{api}")

    ctx.prop("history", st.fixed_dictionaries({
        "key": st.integers(0, 4), "sup": st.sampled_from([[TA], [TA], [IM], [IM], [TA, TA2], [TA2, TA], [TA2, IM], [TA2], [IM, TA]]),
        "im2": st.booleans(), "issuers": ISSUERS,
        "two": st.sampled_from([None, "first", "last"]),
        "extra": st.booleans(), "linkonly": st.booleans(),
        "ops": st.lists(op, min_size=3, max_size=14)}), history, 1500,
        rule="distinct verification of a mark")
