"""Chains of statements described as plain JSON specs, their signing, and an independent reference
verifier (the oracle of C01/C02)."""
import copy
import json

from hypothesis import strategies as st

from fedlib import EC, NOW, RSA, DAY, b64d, b64e, entity, jwks, pub, sign, verify_sig

# entity index -> id.  0,1: trust anchors of the evaluator; 2: the evaluator itself; 3: an anchor
# nobody told the evaluator about; 4..: others
IDS = ["https://ta0.example.org", "https://ta0.example.org/1", "https://ev.example.org",
       "https://rogue.example.net", "https://e4.example.org", "https://e5.example.org",
       "https://e4.example.org/tenant", "https://e7.example.org"]
N = len(IDS)


def key(i):
    """key slot -> private JWK. slots 2e, 2e+1 belong to entity e (4,5: evaluator: RSA); 16.. attacker"""
    if i == 4:
        return RSA[0]
    return EC[i]


def anchors():
    return {IDS[0]: jwks(key(0)), IDS[1]: jwks(key(2), key(3))}


def honest(path, last_jwks=True, exps=None, top_ec=False, second=False):
    """path: entity indexes, anchor first, leaf last -> list of specs ending with the leaf's EC"""
    specs = []

    def spec(i, s):
        k = 2 * i
        return {"i": i, "s": s, "k": k, "kid": k, "j": [2 * s, 2 * s + 1] if (second and s != 2) else [2 * s],
                "x": DAY}
    if top_ec:
        specs.append(spec(path[0], path[0]))
    for a, b in zip(path, path[1:]):
        specs.append(spec(a, b))
    specs.append(spec(path[-1], path[-1]))
    if not last_jwks:
        specs[-1]["j"] = None
    for s, x in zip(specs, exps or []):
        s["x"] = x
    return specs


_built = {}


def build_one(s, now=NOW):
    """the same specification is the same statement, not just one with the same content"""
    k = (json.dumps(s, sort_keys=True), now)
    if k not in _built:
        if len(_built) > 20000:
            _built.clear()
        _built[k] = _build_one(s, now)
    return _built[k]


def _build_one(s, now=NOW):
    p = {"iss": IDS[s["i"]], "sub": IDS[s["s"]], "iat": now, "exp": now + s["x"]}
    if s["j"] is not None:
        p["jwks"] = jwks(*[key(k) for k in s["j"]])
    if s["i"] == s["s"]:
        p["metadata"] = {"federation_entity": {"organization_name": f"E{s['i']}"}}
    p.update(s.get("extra", {}))
    t = s.get("t")
    if t and t.startswith("garbage"):
        return ["", "abc", "a.b.c", "a.b", "a.b.c.d.e", "..", "{}"][s.get("g", 0) % 7]
    k = key(s["k"])
    hdr = {"typ": "entity-statement+jwt"}
    if s["kid"] is not None:
        hdr["kid"] = key(s["kid"])["kid"]
    else:
        k = {x: y for x, y in k.items() if x != "kid"}
    if t == "none":
        return b64e(json.dumps(dict(hdr, alg="none")).encode()) + "." + b64e(json.dumps(p).encode()) + "."
    if t == "hs256":
        import hashlib
        import hmac
        secret = key(s["kid"] if s["kid"] is not None else s["k"]).get("x", "x").encode()
        inp = (b64e(json.dumps(dict(hdr, alg="HS256")).encode()) + "." + b64e(json.dumps(p).encode())).encode()
        return inp.decode() + "." + b64e(hmac.new(secret, inp, hashlib.sha256).digest())
    if t == "jwkhdr":
        hdr["jwk"] = pub(key(s["k"]))
    if t == "jkuhdr":
        hdr["jku"] = "https://rogue.example.net/keys"
    tok = _sign(p, k, hdr)
    h, b, g = tok.split(".")
    if t and t.startswith("payload"):
        q = copy.deepcopy(p)
        if t == "payload-exp":
            q["exp"] += 3600
        elif t == "payload-jwks":
            q["jwks"] = jwks(EC[20])
        elif t == "payload-sub":
            q["sub"] = IDS[7]
        elif t == "payload-iss":
            q["iss"] = IDS[5]
        else:
            q["zz"] = 1
        return ".".join([h, b64e(json.dumps(q).encode()), g])
    if t == "sig":
        raw = bytearray(b64d(g))
        raw[len(raw) // 2] ^= 1
        return ".".join([h, b, b64e(bytes(raw))])
    if t == "nosig":
        return ".".join([h, b, ""])
    return tok


_nokid = {}


def _sign(p, k, hdr):
    if "kid" in k:
        from fedlib import keyobj
        from cryptojwt.jws.jws import JWS
        return JWS(json.dumps(p), alg="ES256" if k["kty"] == "EC" else "RS256").sign_compact(
            [keyobj(dict(k, kid=hdr["kid"]))], protected=hdr)   # (JWS names the key itself)
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    from cryptojwt.jws.jws import JWS
    c = k["kty"] + (k.get("x") or k.get("n"))
    if c not in _nokid:
        _nokid[c] = key_from_jwk_dict(dict(k))
    return JWS(json.dumps(p), alg="ES256" if k["kty"] == "EC" else "RS256").sign_compact(
        [_nokid[c]], protected=hdr)


def build(specs, now=NOW):
    return [build_one(s, now) for s in specs]


def ref_verify(tokens, anchor_keys, now=NOW):
    """Independent reference: ('accept', payloads) | ('reject', why) | ('open', payloads).
    'open': every signature is sound but the last statement is about, not by, the previous subject, or a
    statement does not name its key: may be accepted or refused."""
    if not tokens:
        return "reject", "empty"
    prev = None
    payloads = []
    vouched = {k: [v] for k, v in anchor_keys.items()}
    opened = False
    for n, tok in enumerate(tokens):
        last = n == len(tokens) - 1
        try:
            p = json.loads(b64d(tok.split(".")[1]))
            h = json.loads(b64d(tok.split(".")[0]))
        except Exception:
            return "reject", "garbage"
        if h.get("alg") not in ("ES256", "RS256"):
            return "reject", "alg"
        if prev is None:
            if p["iss"] not in anchor_keys:
                return "reject", "unknown anchor"
            ks = [anchor_keys[p["iss"]]]
        elif p["iss"] == prev["sub"]:
            ks = [prev["jwks"]]
        elif last and p["sub"] == prev["sub"]:
            # e.g. a registration response: issued by an entity trusted for other reasons
            if p["iss"] not in vouched:
                return "reject", "tail"
            ks = vouched[p["iss"]]
            opened = True
        else:
            return "reject", "link"
        if h.get("kid"):
            ks = [{"keys": [k for k in j["keys"] if k.get("kid") == h["kid"]]} for j in ks]
        else:
            opened = True  # which key to use is not stated: sound to refuse
        got = verify_sig(tok, *ks)
        if got is None:
            return "reject", ("tail" if opened and last else "signature")
        if "jwks" not in p and not last:
            return "reject", "jwks"
        payloads.append(p)
        if "jwks" in p:
            vouched.setdefault(p["sub"], []).append(p["jwks"])
        prev = p
    if min(p["exp"] for p in payloads) < now:
        return "reject", "expired"
    return ("open" if opened else "accept"), payloads


EV = IDS[2]


def handler(method, url, headers, body):
    if url == "https://rogue.example.net/keys":
        return 200, {"Content-Type": "application/json"}, json.dumps(jwks(*EC[16:24]))
    return None


def evaluator():
    return entity(EV, 0, trust_anchors=anchors())


def all_anchor_keys():
    a = anchors()
    a[EV] = jwks(RSA[0])
    return a


# --- strategies --------------------------------------------------------------------------------
TAMPER = ["none", "hs256", "jwkhdr", "jkuhdr", "payload-exp", "payload-jwks", "payload-sub",
          "payload-iss", "payload-zz", "sig", "nosig", "garbage", "garbage"]


@st.composite
def paths(draw, starts=(0, 1, 2, 3, 0, 1), maxlen=4):
    start = draw(st.sampled_from(starts))
    rest = draw(st.lists(st.sampled_from([4, 5, 6, 7]), min_size=0, max_size=maxlen, unique=True))
    return [start] + rest


@st.composite
def honest_specs(draw, starts=(0, 1, 2, 0, 1)):
    p = draw(paths(starts))
    n = len(p) + 1
    exps = draw(st.one_of(st.none(), st.lists(st.sampled_from([1, 60, 3600, DAY, 2 * DAY]),
                                              min_size=n, max_size=n)))
    return honest(p, draw(st.booleans()), exps, draw(st.booleans()), draw(st.booleans()))


mutation = st.fixed_dictionaries({
    "m": st.sampled_from(["tamper", "tamper", "wrongkey", "wrongkey_kid", "nokid", "jwks", "jwks+",
                          "nojwks", "drop", "dup", "swap", "splice", "exp", "exp", "garbage", "iss", "sub", "resign",
                          "tail"]),
    "at": st.integers(0, 7), "a": st.integers(0, 23), "t": st.sampled_from(TAMPER)})

EXPS = [-DAY, -301, -20, -15, -1, 0, 1, 10, DAY]


def mutate(specs, m):
    specs = copy.deepcopy(specs)
    if not specs:
        return specs
    at = m["at"] % len(specs)
    s = specs[at]
    k = m["m"]
    if k == "tamper":
        s["t"] = m["t"]
        s["g"] = m["a"]
        if m["t"] in ("jwkhdr", "jkuhdr"):
            s["k"] = 20
            s["kid"] = 20 if m["a"] % 2 else s["kid"]
    elif k == "wrongkey":
        s["k"] = 16 + m["a"] % 4
        s["kid"] = s["k"]
    elif k == "wrongkey_kid":
        s["k"] = 16 + m["a"] % 4  # keeps the kid of the right key
    elif k == "nokid":
        s["kid"] = None
    elif k == "jwks":
        s["j"] = [16 + m["a"] % 8]
    elif k == "jwks+":
        s["j"] = (s["j"] or []) + [16 + m["a"] % 4]
    elif k == "nojwks":
        s["j"] = None
    elif k == "drop":
        del specs[at]
    elif k == "dup":
        specs.insert(at, copy.deepcopy(s))
    elif k == "swap":
        o = (at + 1) % len(specs)
        specs[at], specs[o] = specs[o], specs[at]
    elif k == "splice":
        # tail of another chain: a rogue anchor's honest chain about the same leaf
        leaf = specs[-1]["s"]
        other = honest([3, 5 if leaf != 5 else 4, leaf])
        specs[at:] = other[-(1 + m["a"] % 3):]
    elif k == "garbage":
        specs.insert(at, dict(copy.deepcopy(s), t="garbage", g=m["a"]))
    elif k == "exp":
        s["x"] = EXPS[m["a"] % len(EXPS)]
    elif k == "iss":
        s["i"] = m["a"] % N
    elif k == "sub":
        s["s"] = m["a"] % N
    elif k == "resign":
        # the whole rest of the chain is re-issued by an attacker holding its own keys
        for x in specs[at:]:
            x["k"] = x["kid"] = 16 + x["i"]
            x["j"] = [16 + x["s"]]
    elif k == "tail":
        # a second statement about the last subject, by someone else
        specs.append({"i": m["a"] % N, "s": s["s"], "k": 2 * (m["a"] % N), "kid": 2 * (m["a"] % N),
                      "j": None, "x": DAY})
    return specs


@st.composite
def chain_case(draw, starts=(0, 1, 2, 3, 0, 1)):
    specs = draw(honest_specs(starts))
    muts = draw(st.lists(mutation, max_size=2))
    for m in muts:
        specs = mutate(specs, m)
    return {"specs": specs, "muts": [m["m"] if m["m"] != "tamper" else m["t"] for m in muts]}
