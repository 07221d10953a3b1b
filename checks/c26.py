"""C26: what a federation client asks for reaches the right endpoint as it was asked, the client gets what was
answered there, and signed answers are believed only if they are signed by who issued them."""
import copy
import json
from urllib.parse import parse_qsl, urlencode, urlsplit

from hypothesis import strategies as st

from gen import weighted

import realfed as R
from fedlib import DAY, EC, RSA, PaperFed, b64e, entity, jwks, payload_of, sign, world
from vf import Outcome, require

EV, TA, IM, TMI, LEAF, TENANT = ("https://ev.example.org", "https://ta.example.org", "https://im.example.org/t/u", "https://tmi.example.com",
                                 "https://leaf.example.org", "https://tmi.example.com/tenant")
IDS = [TA, IM, TMI, LEAF, TENANT]
OPS = ["https://op.example.org", "https://as.example.org", "https://rp.example.org"]
SERVICES = ["entity_configuration", "entity_statement", "resolve", "list", "trust_mark", "trust_mark_list", "trust_mark_status"]
MARKS = ["https://refeds.org/sirtfi", "https://example.com/tm?x=1&y=é", "tm3"]
ENDPOINTS = ["list", "resolve", "trust_mark", "trust_mark_list", "trust_mark_status"]
CT = {"entity_configuration": "application/entity-statement+jwt", "entity_statement": "application/entity-statement+jwt",
      "resolve": "application/resolve-response+jwt", "trust_mark": "application/trust_mark+jwt; charset=utf-8"}
VALUES = ["https://refeds.org/sirtfi", "https://x.example.org/a?b=c&d=e#f", "a+b c%20d", "å/é", "x=y;z", "\"'<>", "https://leaf.example.org", "trust_mark_id"]
value = st.sampled_from(VALUES)
ANSWERS = ["right"] * 6 + ["rogue", "rogue-iss", "other-key", "unsigned", "json", "json", "other", "other", "other", "expired", "tampered", "404", "500", "conn", "garbage", "html", "empty", "error", "urlencoded", "urlencoded"]
ask = st.one_of(
    st.fixed_dictionaries({"what": st.just("entity_configuration"), "who": st.sampled_from([0, 0, 1, 2, 3, 4]), "form": st.sampled_from(["id", "args"])}),
    st.fixed_dictionaries({"what": st.just("entity_statement"), "who": st.sampled_from([0, 0, 1, 2]), "sub": st.sampled_from([1, 2, 3]), "given": st.booleans()}),
    st.fixed_dictionaries({"what": st.just("resolve"), "who": st.sampled_from([0, 0, 1]), "q": st.fixed_dictionaries(
        {"sub": st.sampled_from([LEAF] + VALUES), "anchor": st.sampled_from([TA, TA, "https://other.example.org/x?y=z&å"])}, optional={"type": value})}),
    st.fixed_dictionaries({"what": st.just("list"), "who": st.sampled_from([0, 0, 1, 2]), "given": st.booleans(), "q": st.fixed_dictionaries({}, optional={
        "entity_type": value, "trust_mark_id": value, "trust_marked": st.booleans(), "intermediate": st.booleans()})}),
    st.fixed_dictionaries({"what": st.just("trust_mark"), "who": st.sampled_from([2, 2, 1]), "given": st.booleans(), "q": st.fixed_dictionaries(
        {"trust_mark_id": value, "sub": value})}),
    st.fixed_dictionaries({"what": st.just("trust_mark_list"), "who": st.sampled_from([2, 2, 1]), "given": st.just(True), "q": st.fixed_dictionaries({"trust_mark_id": value})}),
    st.fixed_dictionaries({"what": st.just("trust_mark_status"), "who": st.sampled_from([2, 2, 1, 0]), "given": st.booleans(), "mark": st.booleans(),
                           "q": st.fixed_dictionaries({"trust_mark_id": value, "sub": value}, optional={"iat": st.integers(1, 2 ** 31)})}))
body = st.fixed_dictionaries({"ids": st.lists(value, max_size=3), "active": st.booleans(), "extra": value, "ct": st.sampled_from(["proper"] * 4 + ["json", "html", "jose"]),
                              "victim": st.sampled_from([0, 0, 1, 2, 3])})
op = weighted((8, st.tuples(st.just("ask"), ask, st.sampled_from(ANSWERS), body)),
              (2, st.tuples(st.just("know"), st.sampled_from([1, 2, 3, 4]))),
              (1, st.tuples(st.just("wait"), st.sampled_from([1, 700, DAY + 100]))))


def ask_later(case):
    """what was known of someone is too old when it is asked without being told where"""
    n, wait, what, how, b, n2 = case
    a = {"what": what, "who": n, "given": False}
    if what == "entity_statement":
        a["sub"] = n2
    elif what == "list":
        a["q"] = {"entity_type": VALUES[n2]}
    else:
        a["q"] = {"trust_mark_id": VALUES[n2], "sub": LEAF}
    return [["know", 3], ["know", 2], ["wait", wait], ["ask", a, how, b], ["ask", a, "right", b]]


later = st.tuples(st.sampled_from([0, 1, 2]), st.sampled_from([1, DAY - 400, DAY - 200, DAY + 100]), st.sampled_from(["entity_statement", "entity_statement", "list", "trust_mark"]),
                  st.sampled_from(ANSWERS), body, st.sampled_from([1, 2, 3])).map(ask_later)

# the configuration of the host of a tenant, whose keys are known
host = st.tuples(st.sampled_from(["id", "args"]), st.sampled_from(ANSWERS), body.map(lambda b: {**b, "active": True})).map(lambda t: [
    ["know", 2], ["ask", {"what": "entity_configuration", "who": 4, "form": t[0]}, "other", t[2]], ["ask", {"what": "entity_configuration", "who": 4, "form": t[0]}, t[1], t[2]]])


def tm_conf(specification):
    path = "fedservice.trust_mark_entity.server."
    return {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
        "trust_mark_specification": specification,
        "endpoint": {"trust_mark": {"path": "trust_mark", "class": path + "trust_mark.TrustMark", "kwargs": {"client_authn_method": ["none"]}},
                     "trust_mark_list": {"path": "trust_mark_list", "class": path + "trust_mark_list.TrustMarkList", "kwargs": {}},
                     "trust_mark_status": {"path": "trust_mark_status", "class": path + "trust_mark_status.TrustMarkStatus", "kwargs": {}}}}}


def federation(clock, key=0):
    def meta(e):
        return {"federation_entity": {f"federation_{x}_endpoint": f"{e}/{x}" for x in ENDPOINTS}}
    return PaperFed({TA: {"key": 0, "sup": [], "meta": meta(TA)}, IM: {"key": 1, "sup": [TA], "meta": meta(IM)},
                     TMI: {"key": 2, "sup": [IM], "meta": meta(TMI)},
                     LEAF: {"key": 3, "sup": [IM], "meta": {"openid_relying_party": {"client_name": "é"}}},
                     TENANT: {"key": 4, "sup": [TA], "fetch": False}}, clock)


def ask_for(fn, *args, **kwargs):
    try:
        return Outcome(fn(*args, **kwargs))
    except Exception as err:
        # most of the client is inherited: whatever is raised is an answer, apart from the harness' own mistakes
        return Outcome(err=err)


def content(v):
    return v.to_dict() if hasattr(v, "to_dict") else v


def is_error(out):
    return not out.ok or out.value is None or (hasattr(out.value, "to_dict") and "error" in out.value) or \
        (isinstance(out.value, dict) and "error" in out.value)


def contains(got, said):
    """everything said is there (message classes add default values)"""
    if isinstance(said, dict):
        got = content(got)
        return isinstance(got, dict) and all(k in got and contains(got[k], v) for k, v in said.items() if v not in ([], "", [""]))   # empty is the same as nothing
    return content(got) == said


def run(ctx):
    ctx.assumptions += ["endpoints have no query part of their own",
                        "which signed answers of entities other than an anchor are accepted before their trust chain has been looked "
                        "at is left open; with a false filter the parameter may be left out"]

    def paper(case):
        with world() as (clock, net):
            fed = federation(clock)
            state = {"path": None, "log": [], "answer": None}

            def handler(method, url, headers, body):
                base = url.split("?")[0]
                if state["path"] == base:
                    state["log"].append((method, url, body))
                    how = state["answer"]
                    if isinstance(how, str):
                        return fed.dead(how)
                    return how
                return None

            net.add(handler)
            net.add(fed.handler)
            from fedservice import defaults
            fe = entity(EV, 0, trust_anchors={TA: fed.jwks(TA)}, services=defaults.federation_services(*SERVICES), authority_hints=[TA])
            vouched = set()  # those whose trust chain the client has looked at
            forged = False
            for o in case:
                if o[0] == "wait":
                    clock.advance(o[1])
                    continue
                if o[0] == "know":
                    if ask_for(fe.get_trust_chains, IDS[o[1]]).value:
                        vouched.add(IDS[o[1]])
                    continue
                _, a, how, b = o
                who, what = IDS[a["who"]], a["what"]
                now = int(clock.now)
                kw, exp_q = {}, None
                # the request, where it should go and what it should contain
                if what == "entity_configuration":
                    url = f"https://{urlsplit(who).netloc}/.well-known/openid-federation"
                    if urlsplit(who).path:
                        kw["tenant"] = True
                        url = f"{who}/.well-known/openid-federation"
                    kw.update({"entity_id": who} if a["form"] == "id" else {"request_args": {"entity_id": who}})
                    said = fed.ec_payload(who)
                    exp_q = {}
                elif what == "entity_statement":
                    url = f"{who}/fetch"
                    sub = IDS[a["sub"]]
                    kw.update({"issuer": who, "subject": sub})
                    exp_q = {"iss": who, "sub": sub}
                    if a["given"]:
                        kw["fetch_endpoint"] = url
                    said = fed.stmt_payload(who, sub)
                else:
                    url = f"{who}/{what}"
                    exp_q = dict(a["q"])
                    if what == "list":
                        kw = dict(a["q"], entity_id=who)
                        if a["given"]:
                            kw["endpoint"] = url
                        said = list(b["ids"])
                    elif what == "resolve":
                        kw = {"request_args": dict(a["q"]), "endpoint": url, "entity_id": who}
                        said = {"iss": who, "sub": a["q"]["sub"], "iat": now, "exp": now + 3600, "trust_chain": list(b["ids"]) or ["x.y.z"],
                                "metadata": {"openid_relying_party": {"client_name": b["extra"]}}}
                    elif what == "trust_mark":
                        kw = {"request_args": dict(a["q"]), "entity_id": who}
                        if a["given"]:
                            kw["endpoint"] = url
                        said = {"iss": who, "sub": a["q"]["sub"], "id": a["q"]["trust_mark_id"], "iat": now, "ref": b["extra"]}
                    elif what == "trust_mark_list":
                        kw = {"request_args": dict(a["q"]), "fetch_endpoint": url}
                        said = list(b["ids"])
                    else:
                        mark = {"iss": who, "sub": a["q"]["sub"], "id": a["q"]["trust_mark_id"], "iat": now}
                        if a["mark"]:
                            exp_q = {"trust_mark": sign(mark, fed.keys(who)[0])}
                        elif not a["given"]:
                            continue  # needs an endpoint
                        kw = {"request_args": dict(exp_q)}
                        exp_q = {k: str(v) for k, v in exp_q.items()}
                        if a["given"]:
                            kw["fetch_endpoint"] = url
                        said = {"active": b["active"]}
                # the answer
                signed = what in CT
                good = how == "right"
                ct = {"Content-Type": "application/json" if not signed else {
                    "proper": CT[what], "json": "application/json", "html": "text/html", "jose": "application/jose"}[b["ct"]]}
                victim = IDS[b["victim"]]
                key = fed.keys(who)[0]
                if how in ("404", "500", "conn", "garbage", "html", "empty"):
                    state["answer"] = how
                elif how == "error":
                    state["answer"] = (400, {"Content-Type": "application/json"}, json.dumps({"error": "invalid_request", "error_description": "é"}))
                elif not signed:
                    good = True
                    state["answer"] = (200, ct, json.dumps(said))
                else:
                    p = copy.deepcopy(said)
                    tok = None
                    if how == "rogue":
                        if "jwks" in p:
                            p["jwks"] = jwks(EC[39])
                        key = EC[39]
                    elif how == "rogue-iss":   # claims to be by someone else, signed with own key
                        p["iss"] = victim
                        if what == "entity_configuration":
                            p["sub"] = victim
                        if victim == who:
                            key = EC[39]
                    elif how == "other-key":
                        if victim == who:
                            continue
                        key = fed.keys(victim)[0]
                    elif how == "other":    # the genuine configuration of someone else
                        if who == TENANT and b["active"]:
                            victim = TMI    # on the same host
                        if what != "entity_configuration" or victim == who:
                            continue
                        p, key = fed.ec_payload(victim), fed.keys(victim)[0]
                    elif how == "expired":
                        if "exp" not in p:
                            continue
                        p["iat"], p["exp"] = now - 1000, now - 100
                    if how == "urlencoded":
                        ct = {"Content-Type": "application/x-www-form-urlencoded"}
                        tok = urlencode({k: json.dumps(v) if isinstance(v, (dict, list)) else v for k, v in p.items()})
                    elif how == "unsigned":
                        tok = b64e(b'{"alg":"none"}') + "." + b64e(json.dumps(p).encode()) + "."
                    elif how == "json":
                        p["iss"] = victim if b["active"] else p["iss"]
                        if what == "entity_configuration" and b["active"]:
                            p["sub"] = victim
                        tok = json.dumps(p)
                    else:
                        tok = sign(p, key)
                    if how == "tampered":
                        h, _, s = tok.split(".")
                        p["sub"] = p["sub"] + "/x"
                        tok = ".".join([h, b64e(json.dumps(p).encode()), s])
                    state["answer"] = (200, ct, tok)
                state["path"], state["log"] = url, []
                out = ask_for(fe.do_request, what, **kw)
                state["path"] = None
                ctx.label(f"{what}-{how}-{'error' if is_error(out) else 'content'}")
                if how != "right":
                    forged = True
                where = f"{what} {kw} answered {how}"
                # the client's own trust chain lookup of a tenant etc. has happened when the endpoint was not given
                discovered = what in ("list", "trust_mark", "trust_mark_status") and not a.get("given")
                if not state["log"]:
                    # could not find the endpoint
                    require(not good or not (what == "entity_configuration" or a.get("given") or who == TA or discovered or who in vouched),
                            lambda: f"{where}: nothing was asked at {url}: {out}; {net.log[-6:]}", "not-asked")
                else:
                    require(len(state["log"]) == 1 or what == "entity_configuration", lambda: f"{where}: asked {state['log']}", "twice")
                    method, got_url, got_body = state["log"][0]
                    got_q = parse_qsl(urlsplit(got_url).query, keep_blank_values=True, strict_parsing=bool(urlsplit(got_url).query))
                    for k in ("trust_marked", "intermediate"):
                        if k in exp_q:
                            flag = exp_q.pop(k)
                            sent = [v for x, v in got_q if x == k]
                            require((sent == [] and not flag) or (len(sent) == 1 and sent[0].lower() == str(flag).lower()),
                                    lambda: f"{where}: {k} {sent}", "flag")
                            got_q = [(x, v) for x, v in got_q if x != k]
                    require(sorted(got_q) == sorted(exp_q.items()), lambda: f"{where}: query {got_q}, expected {exp_q}", "query")
                    require(method == "GET" and not got_body, lambda: f"{where}: {state['log']}", "method")
                    ctx.nontriv()
                if discovered and state["log"]:
                    vouched.add(who)
                if not good:
                    require(is_error(out), lambda: f"{where}: believed: {content(out.value)}", f"believed-{how}")
                    continue
                if not signed:
                    if state["log"] and (said or what == "list" or not is_error(out)):
                        require(out.ok and content(out.value) == said, lambda: f"{where}: {out}, but {said} was answered", "answer")
                    continue
                if is_error(out):
                    require(b["ct"] != "proper" or not (who == TA or who in vouched), lambda: f"{where}: the answer was refused: {out}", "refused")
                    continue
                require(contains(out.value, said), lambda: f"{where}: {content(out.value)}, but {said} was answered", "answer")
            if not forged:
                return
            # nothing of this changes whom the client believes
            state["path"] = None
            fresh = entity(EV, 0, trust_anchors={TA: fed.jwks(TA)}, authority_hints=[TA])
            for e in (LEAF, TMI, TENANT, IM):
                got = [sorted([payload_of(x) for x in tc.chain][-1]["metadata"]) + tc.iss_path for tc in chains_of(fe, e)]
                exp = [sorted([payload_of(x) for x in tc.chain][-1]["metadata"]) + tc.iss_path for tc in chains_of(fresh, e)]
                require(got == exp, lambda: f"afterwards the trust chains of {e} are {got} instead of {exp}", "afterwards")
            require(sorted(k.kid for k in fe.keyjar.get_issuer_keys(TA)) == sorted(k["kid"] for k in fed.jwks(TA)["keys"]),
                    "the keys of the trust anchor have changed", "anchor-keys")

    def chains_of(fe, e):
        from fedservice.entity import function as F
        chains, ec = F.collect_trust_chains(fe, e)
        return F.apply_policies(fe, F.verify_trust_chains(fe, chains, ec))

    def wire(case):
        from fedservice import defaults
        with world() as (clock, net):
            ta = entity(TA, 5, trust_anchors={TA: jwks(RSA[5])}, endpoints=["entity_configuration", "fetch", "list", "resolve"])
            anchors = {TA: R.own_jwks(ta)}
            im = entity(IM, 6, trust_anchors=anchors, endpoints=["entity_configuration", "fetch", "list", "resolve"], authority_hints=[TA])
            tmi = entity(TMI, 7, trust_anchors=anchors, endpoints=["entity_configuration"], authority_hints=[IM], trust_mark_entity=tm_conf(
                {i: copy.deepcopy(s) for i, s in zip(MARKS, case["specs"])}))
            leaf = entity(LEAF, 8, trust_anchors=anchors, endpoints=["entity_configuration"], authority_hints=[IM])
            fe = entity(EV, 0, trust_anchors=anchors, services=defaults.federation_services(*SERVICES), authority_hints=[TA])
            R.register(ta, im, intermediate=True)
            R.register(im, tmi, **case["tmi"])
            R.register(im, leaf, **case["leaf"])
            im.server.policy.update(copy.deepcopy(case["policy"]))
            members = {OPS[0]: R.op(OPS[0], 9, anchors=anchors, authority_hints=[IM]),
                       OPS[1]: R.op(OPS[1], 10, guise="oauth_authorization_server", anchors=anchors, authority_hints=[IM]),
                       OPS[2]: R.rp(OPS[2], 11, anchors=anchors, authority_hints=[IM], config={"redirect_uris": ["https://rp.example.org/cb"]})} if case["members"] else {}
            for m in members.values():
                R.register(im, m)
            net.add(R.Wire(ta, im, tmi, leaf, *members.values()))
            servers = dict({TA: ta, IM: im, TMI: tmi}, **{i: R.fed_entity(m) for i, m in members.items()})
            marks = []
            for o in case["ops"]:
                what, who, q = o[0], o[1], dict(o[2])
                if what == "wait":
                    clock.advance(who)
                    continue
                if what == "trust_mark_status" and marks and o[3]:
                    m = marks[q.pop("n") % len(marks)]
                    q = {"trust_mark": m} if o[3] == 1 else {"sub": payload_of(m)["sub"], "trust_mark_id": payload_of(m)["id"]}
                    if o[3] == 3:
                        q["iat"] = payload_of(m)["iat"]
                q.pop("n", None)
                ep = {"entity_configuration": "entity_configuration", "entity_statement": "fetch"}.get(what, what)
                server = tmi if what.startswith("trust_mark") else servers.get(who)
                if server is None:
                    continue
                endpoint = server.get_endpoint(ep)
                if what == "entity_configuration":
                    kw = {"entity_id": who, "tenant": bool(urlsplit(who).path)}
                elif what == "entity_statement":
                    kw = {"issuer": who, "subject": q["sub"], "fetch_endpoint": endpoint.full_path}
                    q = {"iss": who, "sub": q["sub"]}
                elif what == "list":
                    kw = dict(q, entity_id=who)
                    q = {k: str(v) for k, v in q.items()}
                elif what == "resolve":
                    kw = {"request_args": dict(q), "endpoint": endpoint.full_path, "entity_id": who}
                elif what == "trust_mark":
                    kw = {"request_args": dict(q), "entity_id": TMI}
                else:
                    kw = {"request_args": dict(q), "fetch_endpoint": endpoint.full_path}
                    q = {k: str(v) for k, v in q.items()}
                if who != TA:
                    fe.get_trust_chains(who)    # its keys are known
                out = ask_for(fe.do_request, what, **kw)
                status, headers, text = R.serve(endpoint, "GET", q)
                where = f"{what} of {who} {kw}"
                ctx.label(f"{what}-{status}")
                if status != 200:
                    require(is_error(out), lambda: f"{where}: {content(out.value)}, but the endpoint says {text}", "wire-error")
                    continue
                ctx.nontriv()
                said = payload_of(text) if what in CT else json.loads(text)
                require(not is_error(out), lambda: f"{where}: {out}, but the endpoint says {said}", "wire-refused")
                if isinstance(said, dict):
                    said.pop("jti", None)
                if what in CT and said.get("trust_chain"):  # these may have been made anew
                    said["trust_chain"] = content(out.value).get("trust_chain")
                require(contains(out.value, said), lambda: f"{where}: {content(out.value)}, but the endpoint says {said}", "wire-answer")
                if what == "trust_mark":
                    marks.append(text)
                    res = ask_for(fe.verify_trust_mark, text)
                    require(res.ok and res.value and content(res.value)["sub"] == q["sub"] and content(res.value)["id"] == q["trust_mark_id"],
                            lambda: f"{where}: the mark is not accepted: {res}", "wire-mark")

    tree = st.sampled_from([LEAF, TMI, IM, "https://nobody.example.org"] + OPS)
    flags = st.fixed_dictionaries({}, optional={"intermediate": st.booleans(), "entity_types": st.lists(st.sampled_from(["federation_entity", "openid_relying_party", "x y&z"]), unique=True),
                                                "authority_hints": st.just([IM])})
    mark = st.sampled_from(MARKS + ["https://unknown.example.com/tm"])
    wire_op = weighted((1, st.tuples(st.just("entity_configuration"), st.sampled_from([TA, IM, TMI] + OPS), st.just({}))),
                       (2, st.tuples(st.just("entity_statement"), st.sampled_from([TA, IM]), st.fixed_dictionaries({"sub": tree}))),
                       (3, st.tuples(st.just("list"), st.sampled_from([TA, IM]), st.fixed_dictionaries({}, optional={
                           "entity_type": st.sampled_from(["federation_entity", "openid_relying_party", "x y&z"]), "trust_mark_id": mark,
                           "trust_marked": st.booleans(), "intermediate": st.booleans()}))),
                       (2, st.tuples(st.just("resolve"), st.sampled_from([TA, IM]), st.fixed_dictionaries({"sub": tree, "anchor": st.sampled_from([TA, TA, IM])}, optional={
                           "type": st.sampled_from(["federation_entity", "openid_provider", "oauth_authorization_server", "openid_relying_party"])}))),
                       (3, st.tuples(st.just("trust_mark"), st.just(TMI), st.fixed_dictionaries({"trust_mark_id": mark, "sub": st.one_of(tree, value)}))),
                       (1, st.tuples(st.just("trust_mark_list"), st.just(TMI), st.fixed_dictionaries({"trust_mark_id": mark}))),
                       (3, st.tuples(st.just("trust_mark_status"), st.just(TMI), st.fixed_dictionaries({"trust_mark_id": mark, "sub": tree, "n": st.integers(0, 5)}),
                                     st.integers(0, 3))),
                       (1, st.tuples(st.just("wait"), st.sampled_from([1, 50, 700, DAY + 100]), st.just({}))))
    ctx.prop("wire", st.fixed_dictionaries({
        "specs": st.tuples(*[st.fixed_dictionaries({}, optional={"lifetime": st.sampled_from([20, 3600]), "ref": value})] * 3),
        "tmi": flags, "leaf": flags, "members": st.booleans(), "policy": st.fixed_dictionaries({}, optional={
            LEAF: st.just({"metadata_policy": {"federation_entity": {"organization_name": {"value": "å"}}}}),
            "federation_entity": st.just({"metadata_policy": {"federation_entity": {"contacts": {"default": ["x"]}}}})}),
        "ops": st.lists(wire_op, min_size=1, max_size=6)}), wire, 250, rule="a request was answered by a real endpoint")
    ctx.prop("paper", st.one_of(*[st.lists(op, min_size=1, max_size=5)] * 4, st.lists(op, min_size=1, max_size=5), st.lists(op, min_size=1, max_size=5), st.lists(op, min_size=1, max_size=5), later, later, host), paper, 900,
             rule="a request reached the endpoint, distinct histories")
