"""C11: the fetch endpoint issues statements about exactly the registered subordinates, in the entity's own
name, carrying what is registered and configured for them at that moment."""
import copy
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

from gen import weighted

import realfed as R
from realfed import judge_ec
from fedlib import DAY, EC, NOW, RSA, entity, jwks, payload_of, rotate, verify_sig, world
from vf import attempt, require

ME = "https://im.example.org"
SUBS = ["https://a.example.org", "https://a.example.org/tenant", "https://b.example.com:8443/x?y=1"]
ODD = ["https://nobody.example.org", "", ME, "a.example.org", "https://a.example.org/", "openid_relying_party"]
TYPES = ["openid_relying_party", "openid_provider", "federation_entity"]

claims = st.dictionaries(st.sampled_from(["organization_name", "contacts"]), st.sampled_from(["v", "w"]), min_size=1)
pol = st.dictionaries(st.sampled_from(["scope", "contacts"]), st.sampled_from([{"subset_of": ["a", "b"]}, {"value": ["c"]}, {"essential": True}]),
                      min_size=1)
typed_md = st.dictionaries(st.sampled_from(TYPES), claims, min_size=1, max_size=2)
typed_pol = st.dictionaries(st.sampled_from(TYPES), pol, min_size=1, max_size=2)
record = st.fixed_dictionaries({"jwks": st.lists(st.integers(0, 9), min_size=1, max_size=2, unique=True)}, optional={
    "entity_types": st.lists(st.sampled_from(TYPES), min_size=1, max_size=3, unique=True),
    "authority_hints": st.lists(st.sampled_from([ME, "https://ta.example.org"]), unique=True),
    "metadata": typed_md, "metadata_policy": typed_pol,
    "constraints": st.fixed_dictionaries({"max_path_length": st.integers(0, 2)}),
    "intermediate": st.booleans()})
sub_policy = st.fixed_dictionaries({}, optional={"metadata": typed_md, "metadata_policy": typed_pol}).filter(bool)
type_policy = st.fixed_dictionaries({}, optional={"metadata": claims, "metadata_policy": pol}).filter(bool)
op = weighted(
    (6, st.tuples(st.just("fetch"), st.sampled_from([None, ME, ME, ME]), st.sampled_from(SUBS))),
    (2, st.tuples(st.just("fetch"), st.sampled_from([None, ME, "https://other.example.org", SUBS[0], ME + "/", ME[:-1], ME + ".uk", "https://", ""]),
              st.sampled_from(SUBS + ODD + [None]))),
    (2, st.tuples(st.just("register"), st.sampled_from(SUBS), record)),
    (1, st.tuples(st.just("unregister"), st.sampled_from(SUBS))),
    (2, st.tuples(st.just("policy"), st.sampled_from(SUBS), sub_policy)),
    (2, st.tuples(st.just("policy"), st.sampled_from(TYPES), type_policy)),
    (1, st.tuples(st.just("policy"), st.sampled_from(SUBS + TYPES), st.none())),
    (1, st.tuples(st.just("rotate"), st.integers(1, 5), st.sampled_from([0, 0, 1]))),
    (1, st.tuples(st.just("wait"), st.sampled_from([1, 90000]))))


def run(ctx):
    ctx.assumptions += ["registration details (entity types, intermediate) may or may not show up as claims of the statement",
                        "metadata or policies both registered and configured for the same entity type: what is configured replaces what is registered, or is added to it"]

    def history(case):
        import requests
        tmp = tempfile.mkdtemp(prefix="vf-c11-")
        try:
            with world() as (clock, net):
                fe = entity(ME, case["key"], endpoints=["entity_configuration", "fetch", "list"], authority_hints=case["hints"])
                if case["store"] == "files":
                    from idpyoidc.storage.abfile import AbstractFileSystem
                    fe.server.subordinate = AbstractFileSystem(
                        fdir=os.path.join(tmp, "sub"), key_conv="idpyoidc.util.Base64", value_conv="idpyoidc.util.JSON")
                wire = R.Wire(fe)
                net.add(wire)
                subs, policy = {}, {}
                keys = [RSA[case["key"]]]
                issued = 0
                for n, o in enumerate(case["ops"]):
                    if o[0] == "register":
                        rec = copy.deepcopy(o[2])
                        rec["jwks"] = jwks(*[EC[i] for i in rec["jwks"]])
                        subs[o[1]] = rec
                        fe.server.subordinate[o[1]] = copy.deepcopy(rec)
                    elif o[0] == "unregister":
                        if o[1] in subs and case["store"] == "dict":  # the storage library can not delete
                            del subs[o[1]]
                            del fe.server.subordinate[o[1]]
                    elif o[0] == "policy":
                        if o[2] is None:
                            policy.pop(o[1], None)
                            fe.server.policy.pop(o[1], None)
                        else:
                            policy[o[1]] = o[2]
                            fe.server.policy[o[1]] = copy.deepcopy(o[2])
                    elif o[0] == "wait":
                        clock.advance(o[1])
                    elif o[0] == "rotate":
                        keys = [RSA[(case["key"] + o[1]) % 6]] + keys[:o[2]]
                        rotate(fe, *keys)
                    else:
                        iss, sub = o[1], o[2]
                        q = {k: v for k, v in (("iss", iss), ("sub", sub)) if v is not None}
                        r = requests.request("GET", f"{ME}/fetch", params=q)
                        ctxt = f"step {n}: fetch {q}: {r.status_code} {r.text[:300]}"
                        if iss and iss != ME:
                            require(r.status_code >= 400 and not is_statement(r.text), lambda: "statement in a foreign name; " + ctxt, "foreign")
                            ctx.label("foreign-issuer")
                        elif not sub or sub == ME:
                            require(r.status_code == 200, ctxt, "self")
                            p = judge_ec(r.text, ME, keys, (clock.now,))
                            require(p.get("authority_hints", []) == case["hints"], ctxt, "self")
                            ctx.label("self")
                        elif sub not in subs:
                            require(r.status_code >= 400 and not is_statement(r.text), lambda: "statement about an unknown entity; " + ctxt,
                                    "unknown")
                            ctx.label("unknown-subordinate")
                        else:
                            require(r.status_code == 200, ctxt, "refused")
                            require("application/entity-statement+jwt" in r.headers.get("content-type", ""),
                                    lambda: f"content type {r.headers.get('content-type')}", "content-type")
                            judge(ctx, r.text, sub, subs[sub], policy, keys, clock.now)
                            issued += 1
                    now_db = {k: fe.server.subordinate.get(k) for k in list(fe.server.subordinate.keys())}
                    require({k: dict(v) for k, v in now_db.items()} == subs, lambda: f"step {n}: registered information changed: {now_db}", "mutated")
                    require(getattr(fe.server, "policy", {}) == policy, lambda: f"step {n}: policies changed, configured {policy}", "mutated")
                if issued > 1:
                    ctx.nontriv()
                ctx.label(f"store-{case['store']}")
        finally:
            shutil.rmtree(tmp)

    ctx.prop("history", st.fixed_dictionaries({
        "key": st.integers(0, 5), "hints": st.lists(st.sampled_from(["https://ta.example.org", "https://ta2.example.org"]), unique=True),
        "store": st.sampled_from(["dict", "dict", "files"]),
        "ops": st.tuples(st.tuples(st.just("register"), st.just(SUBS[0]), record), st.tuples(st.just("register"), st.sampled_from(SUBS), record),
                         st.lists(op, min_size=3, max_size=14), st.booleans(),
                         st.dictionaries(st.sampled_from(TYPES), type_policy, max_size=3)).map(
            # policies for the entity types are often there from the start
            lambda t: [t[0], t[1]] + [("policy", k, v) for k, v in t[4].items() if t[3]] + t[2])}), history, 800,
        rule="a history in which at least two statements about subordinates are issued")


def is_statement(text):
    try:
        return isinstance(payload_of(text), dict)
    except Exception:
        return False


def judge(ctx, token, sub, rec, policy, keys, now):
    require(is_statement(token), lambda: f"not a statement: {token[:200]}", "token")
    p = payload_of(token)
    require(p == verify_sig(token, jwks(*keys)), "not signed with a key of the issuer", "signature")
    require(p.get("iss") == ME and p.get("sub") == sub, lambda: f"iss {p.get('iss')} sub {p.get('sub')}, asked for {sub}", "names")
    require(p.get("iat") == int(now) and p["iat"] < p.get("exp", 0) <= p["iat"] + 366 * DAY, lambda: f"iat {p.get('iat')} exp {p.get('exp')}", "lifetime")
    require(p.get("jwks") == rec["jwks"], lambda: f"jwks {p.get('jwks')}, registered {rec['jwks']}", "jwks")
    require(p.get("authority_hints", []) == rec.get("authority_hints", [ME]), lambda: f"hints {p.get('authority_hints')}", "hints")
    require(p.get("constraints") == rec.get("constraints"), lambda: f"constraints {p.get('constraints')}", "constraints")
    for member in ("metadata", "metadata_policy"):
        got = {k: v for k, v in (p.get(member) or {}).items() if v}
        want = {}  # entity type -> allowed values
        for t, v in rec.get(member, {}).items():
            want.setdefault(t, []).append(v)
        if policy.get(sub):
            ctx.label("subordinate-policy")
            for t, v in policy[sub].get(member, {}).items():
                want.setdefault(t, []).append(v)
        else:
            for t in rec.get("entity_types", []):
                if policy.get(t, {}).get(member):
                    ctx.label("type-policy")
                    want.setdefault(t, []).append(policy[t][member])
        require(set(got) == set(want), lambda: f"{member} {got}, expected {want}", member)
        for t in got:
            both = {k: v for w in want[t] for k, v in w.items()}
            require(got[t] in (want[t][-1], both), lambda: f"{member} for {t}: {got[t]}, expected {want[t]}", member)
    extra = set(p) - {"iss", "sub", "iat", "exp", "jti", "jwks", "authority_hints", "constraints", "metadata", "metadata_policy",
                      "entity_types", "intermediate", "source_endpoint"}
    require(not extra, lambda: f"unexpected members {extra}", "content")
