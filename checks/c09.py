"""C09: a created entity statement says exactly what it was asked to say, in the issuer's name and for
the stated lifetime, and gives away no private key material."""
import copy
import json

from hypothesis import strategies as st

from fedlib import DAY, EC, NOW, RSA, entity, header_of, jwks, keyobj, payload_of, pub, rsa_file, verify_sig, world
from vf import attempt, require

ISS = "https://iss.example.org"
SUBS = [ISS, "https://sub.example.org", "https://sub.example.com/tenant"]
TYPES = ["openid_relying_party", "openid_provider", "oauth_client", "federation_entity"]
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
words = st.text(alphabet="abcåß 0/:\"", max_size=6)
value = st.one_of(words, st.integers(-3, 10 ** 6), st.booleans(), st.lists(words, max_size=3))
md = st.dictionaries(st.sampled_from(TYPES), st.dictionaries(
    st.sampled_from(["client_name", "scope", "redirect_uris", "organization_name", "x"]), value, min_size=1, max_size=3), max_size=2)
policy = st.dictionaries(st.sampled_from(TYPES), st.dictionaries(
    st.sampled_from(["scope", "contacts"]), st.fixed_dictionaries({"subset_of": st.lists(words, max_size=3)}), min_size=1, max_size=2),
    max_size=2)
hints = st.lists(st.sampled_from(["https://ta.example.org", "https://im.example.org"]), max_size=2, unique=True)
constraints = st.fixed_dictionaries({}, optional={
    "max_path_length": st.integers(0, 3),
    "naming_constraints": st.just({"permitted": ["https://.example.com"], "excluded": ["https://e.example.com"]})})
extra = st.fixed_dictionaries({}, optional={
    "crit": st.just(["zz"]), "zz": value, "policy_language_crit": st.just(["regexp"]),
    "source_endpoint": st.just("https://iss.example.org/fetch"), "trust_anchor_id": st.just("https://ta.example.org"),
    "trust_chain": st.lists(words, max_size=2), "custom": st.recursive(value, lambda s: st.dictionaries(words, s, max_size=2), max_leaves=4)})
own_keys = st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True)


def keylist(ids):
    """0-2: RSA (always at least one), 3-5: EC"""
    res = [RSA[i] if i < 3 else EC[i] for i in ids]
    return res if any(k["kty"] == "RSA" for k in res) else [RSA[0]] + res


OCT = {"kty": "oct", "k": "c2VjcmV0LXNlY3JldC1zZWNyZXQtc2VjcmV0LXNlY3JldC1zZWNyZXQ", "kid": "oct"}


def mk_keyjar(keys, own_name, oct=False):
    from cryptojwt import KeyJar
    from idpyoidc.key_import import import_jwks
    kj = KeyJar()
    for owner in (["", ISS] if own_name else [""]):
        kj.import_jwks({"keys": [dict(k) for k in keys]}, owner)
    if oct:
        for owner in (["", ISS] if own_name else [""]):
            kj.add_symmetric(owner, "a-client-secret-that-is-long-enough")
    kj.import_jwks(jwks(EC[20]), "https://sub.example.org")
    kj.import_jwks(jwks(EC[21]), "https://ta.example.org")
    return kj


def judge(ctx, token, sub, keys, want, life, open_members=()):
    require(isinstance(token, str), lambda: f"no signed statement: {token!r}", "token")
    p = payload_of(token)
    require(p == verify_sig(token, jwks(*keys)), "not signed with a key of the issuer", "signature")
    require(header_of(token).get("kid") in [k["kid"] for k in keys], "kid", "signature")
    require(p.get("iss") == ISS and p.get("sub") == sub, lambda: f"iss {p.get('iss')} sub {p.get('sub')}", "names")
    require(p.get("iat") == NOW and p.get("exp") == NOW + life, lambda: f"iat {p.get('iat')} exp {p.get('exp')}, lifetime {life}",
            "lifetime")
    for k in PRIVATE:
        for key in p.get("jwks", {}).get("keys", []):
            require(k not in key, f"private member {k} in the statement", "private")
    got = {k: v for k, v in p.items() if k not in ("iss", "sub", "iat", "exp")}
    for k in open_members:
        if k not in got:
            want.pop(k, None)
        elif k not in want:
            del got[k]
    wj, gj = want.pop("jwks", None), got.pop("jwks", None)
    if wj is None:
        require(gj is None, "jwks although not asked for", "jwks")
    else:
        def norm(j):
            return sorted(json.dumps(k, sort_keys=True) for k in j["keys"])
        require(gj is not None and norm(gj) == norm(wj), lambda: f"jwks {gj}, expected {wj}", "jwks")
    require(got == want, lambda: f"content {got}, expected {want}", "content")
    return p


def run(ctx):
    ctx.assumptions += ["the issuer has an RSA key (statements are signed with RS256)",
                        "empty members may be left out or included"]

    def function(case):
        from fedservice.entity_statement.create import create_entity_statement
        keys = keylist(case["keys"])
        with world():
            kj = mk_keyjar(keys, case["named"], case["oct"] in (1, 3))
            args = copy.deepcopy(case["args"])
            if "jwks" in args:
                args["jwks"] = jwks(*[EC[i] for i in args["jwks"]])
            want = copy.deepcopy({**args, **args.pop("extra", {})})
            want.pop("extra", None)
            if case["oct"] in (2, 3) and args.get("metadata"):
                et = sorted(args["metadata"])[0]
                args["metadata"][et]["jwks"] = {"keys": jwks(EC[13])["keys"] + [dict(OCT)]}
                want["metadata"][et]["jwks"] = jwks(EC[13])
                if case["oct"] == 3:
                    from idpyoidc.message import Message
                    m = Message(**copy.deepcopy(args["metadata"][et]))
                    if m.to_dict() == args["metadata"][et]:   # a Message may leave out what is empty
                        args["metadata"][et] = m
            args.update(copy.deepcopy(case["args"].get("extra", {})))
            for m in ("lifetime", "include_jwks"):
                want.pop(m, None)
            life = args.get("lifetime", DAY)
            if case["hints_fn"] and "authority_hints" in args:
                h = args["authority_hints"]
                args["authority_hints"] = lambda: h
            if not args.get("include_jwks", True):
                # only explicitly given keys
                if "jwks" not in want:
                    want.pop("jwks", None)
            elif "jwks" not in want:
                want["jwks"] = jwks(*keys)
            before = copy.deepcopy({k: v for k, v in args.items() if not callable(v)})
            sumb = [k.serialize(private=True) for o in kj.owners() for k in kj.get_issuer_keys(o)]
            out = attempt(create_entity_statement, ISS, case["sub"], kj, **args)
            require(out.ok, lambda: f"no statement: {out}", "raise")
            require({k: v for k, v in args.items() if not callable(v)} == before, "the given values were modified", "mutated")
            require([k.serialize(private=True) for o in kj.owners() for k in kj.get_issuer_keys(o)] == sumb,
                    "the key jar was modified", "mutated")
            empty = [k for k, v in want.items() if v in ("", [], {}) and k != "jwks"]
            judge(ctx, out.value, case["sub"], keys, want, life, empty)
            if len(case["args"]) > 1:
                ctx.nontriv()
            ctx.label("about-self" if case["sub"] == ISS else "about-other")

    ctx.prop("function", st.fixed_dictionaries({
        "sub": st.sampled_from(SUBS), "keys": own_keys, "named": st.booleans(), "oct": st.integers(0, 3), "hints_fn": st.booleans(),
        "args": st.fixed_dictionaries({}, optional={
            "metadata": md, "metadata_policy": policy, "authority_hints": hints, "constraints": constraints,
            "aud": st.just("https://rp.example.org"), "lifetime": st.sampled_from([1, 60, DAY, 10 ** 7, 10 ** 9]),
            "include_jwks": st.booleans(), "jwks": st.lists(st.integers(8, 12), min_size=1, max_size=2, unique=True),
            "extra": extra})}), function, 600,
        rule="distinct arguments with at least two members given")

    def context(case):
        """through the entity: its own hints, trust marks and default lifetime are filled in"""
        import os
        import tempfile
        with world():
            tmp = tempfile.mkdtemp(prefix="vf-c09-")
            try:
                def form(how, val, name):
                    if how == "file":
                        fn = os.path.join(tmp, name)
                        with open(fn, "w") as fp:
                            json.dump(val, fp)
                        return fn
                    if how == "callable":
                        return lambda: list(val)
                    return list(val)

                fe = entity(ISS, case["key"], authority_hints=form(case["hform"], case["hints"], "hints"))
                cx = fe.context
                if case["marks"]:
                    cx.trust_marks = form(case["mform"], case["marks"], "marks")
                if case["life"]:
                    cx.default_lifetime = case["life"]
                if case["restart"] and case["hform"] == "list" and (case["mform"] == "list" or not case["marks"]):
                    # what a process writes down another one continues with
                    state = json.loads(json.dumps(cx.dump()))
                    fe = entity(ISS, case["key"])
                    cx = fe.context
                    cx.load(state)
                    ctx.label("restarted")
                keys = [RSA[case["key"]]]
                for n, req in enumerate(case["reqs"]):
                    args = copy.deepcopy(req["args"])
                    want = copy.deepcopy({**args, **args.pop("extra", {})})
                    want.pop("extra", None)
                    args.update(copy.deepcopy(req["args"].get("extra", {})))
                    life = args.get("lifetime") or case["life"] or DAY
                    want.pop("lifetime", None)
                    if "jwks" in args:
                        args["jwks"] = want["jwks"] = jwks(*[EC[i] for i in args["jwks"]])
                    elif "keys" in args:
                        want.pop("keys")
                        args["keys"] = jwks(*[EC[i] for i in args["keys"]])["keys"]
                        want["jwks"] = {"keys": args["keys"]}
                    else:
                        want["jwks"] = jwks(*keys)
                    want["jwks"] = copy.deepcopy(want["jwks"])
                    opened = [k for k, v in want.items() if not v]
                    if not args.get("authority_hints"):
                        if case["hints"]:
                            want["authority_hints"] = case["hints"]
                        if req["sub"] != ISS:
                            opened.append("authority_hints")
                    if not args.get("trust_marks"):
                        if case["marks"]:
                            want["trust_marks"] = case["marks"]
                        if req["sub"] != ISS:
                            opened.append("trust_marks")
                    out = attempt(cx.create_entity_statement, ISS, req["sub"], **args)
                    require(out.ok, lambda: f"request {n}: no statement: {out}", "raise")
                    judge(ctx, out.value, req["sub"], keys, want, life, opened)
                    ctx.label(f"hints-{case['hform']}", f"marks-{case['mform']}" if case["marks"] else "no-marks")
                if len(case["reqs"]) > 1:
                    ctx.nontriv()
            finally:
                import shutil
                shutil.rmtree(tmp)

    req = st.fixed_dictionaries({"sub": st.sampled_from(SUBS), "args": st.fixed_dictionaries({}, optional={
        "metadata": md, "metadata_policy": policy, "authority_hints": hints, "constraints": constraints,
        "aud": st.just("https://rp.example.org"), "lifetime": st.sampled_from([0, 1, 60, 10 ** 6, 10 ** 9]),
        "trust_marks": st.lists(st.just({"id": "a", "trust_mark": "x.y.z"}), max_size=1),
        "jwks": st.lists(st.integers(8, 12), min_size=1, max_size=2, unique=True),
        "keys": st.lists(st.integers(8, 12), min_size=1, max_size=2, unique=True), "extra": extra})})
    forms = st.sampled_from(["list", "file", "callable"])
    ctx.prop("context", st.fixed_dictionaries({
        "restart": st.booleans(), "key": st.integers(0, 3), "hints": hints, "hform": forms, "mform": forms, "life": st.sampled_from([0, 60, 3600, 10 ** 6]),
        "marks": st.lists(st.fixed_dictionaries({"id": st.sampled_from(["https://m.example.org/1", "https://m.example.org/2"]),
                                                  "trust_mark": st.sampled_from(["a.b.c", "d.e.f"])}), max_size=2),
        "reqs": st.lists(req, min_size=1, max_size=3)}), context, 150,
        rule="an entity with configured hints, trust marks and lifetime asked for two or more statements")
