"""C12: the list endpoint names exactly the subordinates that match every given filter."""
import copy
import json

from hypothesis import strategies as st

import realfed as R
from fedlib import DAY, EC, ES_CT, NOW, PaperFed, entity, jwks, sign, split_url, well_known_urls, world
from vf import attempt, require

ME = "https://im.example.org"
SUBS = ["https://a.example.org", "https://a.example.org/tenant", "https://b.example.com:8443", "https://c.example.org"]
TYPES = ["openid_relying_party", "openid_provider", "federation_entity", "oauth_client", "openid"]
MARKS = ["https://m.example.org/1", "https://m.example.org/2", "https://m.example.org/1/x"]
HOW = ["ok"] * 14 + [ "404", "500", "conn", "garbage", "html", "empty", "expired", "wrong-key", "replay", "other-name", "colleague", "colleague-sig", "former-key"]

sub = st.fixed_dictionaries({
    "id": st.sampled_from(SUBS), "key": st.integers(0, 9),
    "types": st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True), "types_form": st.sampled_from(["list", "list", "single", "absent"]),
    "intermediate": st.sampled_from([None, None, True, False]),
    "marks": st.lists(st.integers(0, 2), max_size=2, unique=True), "mark_form": st.sampled_from(["dict", "jwt", "both"]),
    "how": st.sampled_from(HOW)})
query = st.fixed_dictionaries({}, optional={
    "entity_type": st.sampled_from(TYPES), "intermediate": st.sampled_from(["true", "True", "false"]),
    "trust_marked": st.sampled_from(["true", "True", "false"]), "trust_mark_id": st.sampled_from(MARKS)})
change = st.fixed_dictionaries({"i": st.integers(0, 3)}, optional={
    "marks": st.lists(st.integers(0, 2), max_size=2, unique=True), "how": st.sampled_from(HOW), "gone": st.booleans()})


def run(ctx):
    ctx.assumptions += ["the order of the answer is left open", "subordinates whose configuration can not be retrieved or verified "
                        "match no trust mark filter", "trust marks in the subordinate's configuration are not verified by the list endpoint"]

    def listing(case):
        import requests
        subs = {s["id"]: s for s in case["subs"]}
        problems = []
        with world() as (clock, net):
            fe = entity(ME, 0, endpoints=["entity_configuration", "fetch", "list"])

            def ec(eid):
                s = subs[eid]
                p = {"iss": eid, "sub": eid, "iat": int(clock.now), "exp": int(clock.now) + DAY, "jwks": jwks(EC[s["key"]]),
                     "metadata": {"federation_entity": {}}, "authority_hints": [ME]}
                marks = []
                for m in s["marks"]:
                    tm = sign({"iss": "https://tmi.example.org", "sub": eid, "id": MARKS[m], "iat": int(clock.now)}, EC[20])
                    marks.append({"dict": {"id": MARKS[m], "trust_mark": tm}, "jwt": tm,
                                  "both": {"id": MARKS[m], "trust_mark": tm} if m % 2 else tm}[s["mark_form"]])
                if marks or s["key"] % 3 == 0:
                    p["trust_marks"] = marks
                key = EC[s["key"]]
                if s["how"] == "expired":
                    p["iat"], p["exp"] = p["iat"] - DAY, p["iat"] - 3600
                if s["how"] == "wrong-key":
                    key = EC[15]
                    p["jwks"] = jwks(key)
                if s["how"] == "former-key":
                    key = EC[(s["key"] + 1) % 10]
                if s["how"].startswith("colleague"):     # with the help of another subordinate
                    for e in subs:
                        if e != eid:
                            key = EC[subs[e]["key"]] if subs[e]["key"] != s["key"] else EC[15]
                            if s["how"] == "colleague":
                                p["iss"] = e
                            break
                    else:
                        key = EC[15]
                if s["how"] == "other-name":
                    p["iss"] = p["sub"] = "https://other.example.org"
                return sign(p, key)

            def handler(method, url, headers, body):
                base, _ = split_url(url)
                for eid in sorted(subs, key=len, reverse=True):
                    if base == well_known_urls(eid)[1]:
                        how = subs[eid]["how"]
                        if how in ("404", "500", "conn", "garbage", "html", "empty"):
                            return PaperFed.dead(how)
                        if how == "replay":
                            others = [e for e in subs if e != eid and subs[e]["how"] == "ok" and subs[e]["marks"]]
                            if others:
                                return 200, ES_CT, ec(others[0])
                        return 200, ES_CT, ec(eid)
                if any(base.startswith("/".join(e.split("/")[:3]) + "/") for e in SUBS):
                    return 404, {"Content-Type": "text/plain"}, "not found"
                return None

            from fedservice import defaults
            asker = entity("https://asker.example.org", 1, trust_anchors={}, services=defaults.federation_services("entity_configuration", "entity_statement", "list"))
            if case["extended"]:    # what is known about those that match is answered too, when their configurations were asked for
                fe.get_endpoint("list").extended = True
            wire = R.Wire(fe)
            net.add(wire)
            net.add(handler)

            def record(s):
                rec = {"jwks": jwks(EC[s["key"]])}
                if s["types_form"] == "list":
                    rec["entity_types"] = list(s["types"])
                elif s["types_form"] == "single" and s["types"]:
                    rec["entity_type"] = s["types"][0]
                if s["intermediate"] is not None:
                    rec["intermediate"] = s["intermediate"]
                return rec

            for s in subs.values():
                fe.server.subordinate[s["id"]] = record(s)
            steps = [("query", q) for q in case["queries"]]
            by = iter(case["by"])
            for n, c in enumerate(case["changes"]):
                steps.insert(min(len(steps), 2 * n + 1), ("change", c))
            for kind, q in steps:
                if kind == "change":
                    eid = SUBS[q["i"]]
                    if eid in subs:
                        subs[eid].update({k: v for k, v in q.items() if k in ("marks", "how")})
                        if q.get("gone"):
                            del subs[eid]
                            del fe.server.subordinate[eid]
                    continue
                before = copy.deepcopy(fe.server.subordinate)
                if next(by) and not case["extended"]:   # another entity, with its own list service
                    out = attempt(asker.client.do_request, "list", entity_id=ME, endpoint=f"{ME}/list", **q)
                    require(out.ok and not wire.errors, lambda: f"list {q} asked by a client: {out} {wire.errors}", "refused")
                    got = out.value
                    ctx.label("by-client")
                else:
                    r = requests.request("GET", f"{ME}/list", params=q)
                    require(r.status_code == 200 and not wire.errors, lambda: f"list {q}: {r.status_code} {r.text} {wire.errors}", "refused")
                    require("json" in r.headers.get("content-type", ""), lambda: f"content type {r.headers.get('content-type')}", "content-type")
                    got = json.loads(r.text)
                if case["extended"] and isinstance(got, dict):
                    require(all(c.get("sub") == e for e, c in got.items()), lambda: f"list {q}: {got}", "form")
                    got = list(got)
                    ctx.label("extended")
                require(isinstance(got, list), lambda: f"list {q}: {got!r}", "form")
                want = []
                for eid, s in subs.items():
                    types = s["types"] if s["types_form"] == "list" else s["types"][:1] if s["types_form"] == "single" else []
                    if "entity_type" in q and q["entity_type"] not in types:
                        continue
                    if q.get("intermediate", "false").lower() == "true" and not s["intermediate"]:
                        continue
                    marks = [MARKS[m] for m in s["marks"]]
                    if s["how"] == "replay" and not [e for e in subs if e != eid and subs[e]["how"] == "ok" and subs[e]["marks"]]:
                        pass
                    elif s["how"] != "ok":
                        marks = []
                    if q.get("trust_marked", "false").lower() == "true" and not marks:
                        continue
                    if "trust_mark_id" in q and q["trust_mark_id"] not in marks:
                        continue
                    want.append(eid)
                if SUBS[1] in subs and subs.get(SUBS[0], {"how": "ok"})["how"] in ("500", "conn", "garbage", "html", "empty") and \
                        (q.get("trust_marked", "false").lower() == "true" or "trust_mark_id" in q):
                    # the host of the tenant fails: what the tenant publishes may not be found
                    got = [e for e in got if e != SUBS[1]]
                    want = [e for e in want if e != SUBS[1]]
                require(sorted(got) == sorted(want), lambda: f"list {q}: {got}, expected {want} of {json.dumps(list(subs.values()))}", "members")
                require(fe.server.subordinate == before, "listing changed the registered information", "mutated")
                if 0 < len(want) < len(subs):
                    ctx.nontriv([case, q])
                ctx.label(f"filters-{len(q)}")

    ctx.prop("list", st.fixed_dictionaries({
        "subs": st.lists(sub, min_size=2, max_size=4, unique_by=lambda s: s["id"]), "queries": st.lists(query, min_size=1, max_size=4),
        "extended": st.sampled_from([False] * 5 + [True]), "by": st.lists(st.booleans(), min_size=4, max_size=4), "changes": st.lists(change, max_size=2)}), listing, 1500,
        rule="a query that some but not all subordinates match")
