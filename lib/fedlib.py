"""Shared pieces of the checks: test keys, an independent signer, a virtual clock, a virtual network,
paper federations (hand-signed statements) and real federation entities."""
import base64
import contextlib
import copy
import datetime as _dt
import json
import os
import sys
import time
import urllib.parse

from vf import HERE

from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
import requests
import requests.adapters

NOW = 1_700_000_000
DAY = 86400

# --- keys ------------------------------------------------------------------------------------
_PRIV = ("d", "p", "q", "dp", "dq", "qi", "oth", "k")
with open(os.path.join(HERE, "keys", "ec.json")) as _fp:
    EC = json.load(_fp)["keys"]
RSA = []
for _i in range(16):
    with open(os.path.join(HERE, "keys", f"rsa{_i:02d}.json")) as _fp:
        RSA.append(json.load(_fp)["keys"][0])


def rsa_file(i):
    return os.path.join(HERE, "keys", f"rsa{i % 16:02d}.json")


def pub(jwk):
    return {k: v for k, v in jwk.items() if k not in _PRIV}


def jwks(*keys):
    return {"keys": [pub(k) for k in keys]}


def rotate(fe, *keys):
    """the entity has these keys from now on, and no others"""
    from cryptojwt import KeyBundle
    for owner in ("", fe.entity_id):
        if owner in fe.keyjar.owners():
            fe.keyjar._issuers[owner].set([KeyBundle(keys=[dict(k)]) for k in keys])


_keyobj = {}


def keyobj(jwk):
    k = (jwk["kid"], jwk.get("x") or jwk.get("n"))
    if k not in _keyobj:
        _keyobj[k] = key_from_jwk_dict(dict(jwk))
    return _keyobj[k]


def sign(payload, jwk, headers=None, alg=None):
    """Compact JWS made directly with cryptojwt.JWS (independent of fedservice's creation code)."""
    if alg is None:
        alg = "ES256" if jwk["kty"] == "EC" else "RS256"
    jws = JWS(json.dumps(payload), alg=alg)
    if headers and headers.get("kid"):     # JWS names the key itself
        jwk = dict(jwk, kid=headers["kid"])
    return jws.sign_compact([keyobj(jwk)], protected=headers or {})


def b64d(s):
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def b64e(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def payload_of(token):
    return json.loads(b64d(token.split(".")[1]))


def header_of(token):
    return json.loads(b64d(token.split(".")[0]))


def verify_sig(token, *jwks_list):
    """Independent check: token verifies with one of the given public JWKs; returns the payload or None"""
    from cryptojwt.jws.jws import factory
    for jw in jwks_list:
        for k in jw["keys"]:
            try:
                j = factory(token)
                return j.verify_compact(token, keys=[key_from_jwk_dict(pub(k))])
            except Exception:
                continue
    return None


# --- virtual clock ---------------------------------------------------------------------------
class Clock(object):
    def __init__(self, now=NOW):
        self.now = now

    def __call__(self):
        return float(self.now)

    def advance(self, s):
        self.now += s


class _VDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return _dt.datetime.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return _dt.datetime.fromtimestamp(time.time(), _dt.timezone.utc).replace(tzinfo=None)


_real_time = time.time


@contextlib.contextmanager
def virtual_time(clock):
    saved = []
    time.time = clock
    try:
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.split(".")[0] in ("fedservice", "idpyoidc", "cryptojwt"):
                continue
            d = getattr(mod, "__dict__", {})
            if d.get("datetime") is _dt.datetime:
                saved.append((mod, "datetime", _dt.datetime))
                mod.datetime = _VDatetime
            if d.get("time") is _real_time:
                saved.append((mod, "time", _real_time))
                mod.time = clock
        yield clock
    finally:
        time.time = _real_time
        for mod, attr, val in saved:
            setattr(mod, attr, val)


# --- virtual network -------------------------------------------------------------------------
class Net(object):
    """Routes every HTTP request made through `requests` to handler(method, url, headers, body)."""

    def __init__(self, handler=None):
        self.handlers = [handler] if handler else []
        self.log = []
        self.limit = 4000

    def add(self, handler):
        self.handlers.append(handler)

    def send(self, method, url, headers, body):
        self.log.append((method, url))
        if len(self.log) > self.limit:
            raise RuntimeError("virtual network: request limit reached")
        for h in self.handlers:
            r = h(method, url, headers, body)
            if r is not None:
                return r
        return None


class NetLimit(Exception):
    pass


_orig_send = requests.adapters.HTTPAdapter.send
_orig_merge = requests.Session.merge_environment_settings


@contextlib.contextmanager
def virtual_net(net):
    def send(self, request, **kwargs):
        body = request.body
        if isinstance(body, bytes):
            body = body.decode()
        r = net.send(request.method, request.url, dict(request.headers), body)
        if r is None:
            raise requests.exceptions.ConnectionError(f"no route to {request.url}")
        status, headers, text = r
        resp = requests.Response()
        resp.status_code = status
        resp.headers.update(headers or {})
        resp._content = text.encode() if isinstance(text, str) else text
        resp.encoding = "utf-8"
        resp.url = request.url
        resp.request = request
        return resp

    def merge(self, url, proxies, stream, verify, cert):
        return {"proxies": {}, "stream": False, "verify": False, "cert": None}

    requests.adapters.HTTPAdapter.send = send
    requests.Session.merge_environment_settings = merge
    try:
        yield net
    finally:
        requests.adapters.HTTPAdapter.send = _orig_send
        requests.Session.merge_environment_settings = _orig_merge


@contextlib.contextmanager
def world(handler=None, now=NOW):
    clock = Clock(now)
    net = Net(handler)
    with virtual_time(clock), virtual_net(net):
        yield clock, net


ES_CT = {"Content-Type": "application/entity-statement+jwt"}


def split_url(url):
    p = urllib.parse.urlparse(url)
    q = {k: v[0] for k, v in urllib.parse.parse_qs(p.query, keep_blank_values=True).items()}
    return f"{p.scheme}://{p.netloc}{p.path}", q


def well_known_urls(entity_id):
    """URLs where an entity's configuration may be published (root form and tenant form)"""
    p = urllib.parse.urlparse(entity_id)
    return [f"{p.scheme}://{p.netloc}/.well-known/openid-federation",
            f"{p.scheme}://{p.netloc}{p.path}/.well-known/openid-federation"]


# --- real federation entities ----------------------------------------------------------------
DEF_FUNCTIONS = ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]


def key_conf(i):
    return {"private_path": rsa_file(i), "key_defs": "", "read_only": True}


def entity(entity_id, key=0, trust_anchors=None, **kwargs):
    """A real FederationEntity with key pool slot `key`."""
    from fedservice.utils import make_federation_entity
    args = dict(
        entity_id=entity_id,
        key_config=key_conf(key),
        preference={"organization_name": f"org {entity_id}"},
    )
    if trust_anchors is not None:
        args["trust_anchors"] = copy.deepcopy(trust_anchors)
    args.update(kwargs)
    return make_federation_entity(**args)


# --- paper federations -----------------------------------------------------------------------
class PaperFed(object):
    """A federation whose statements are signed here, not by fedservice.

    nodes: {id: {"key": ecIndex, "sup": [ids], "meta": {...}, "stmt": {sup: {extra claims}},
                 "ec": {extra claims}, "ttl": s, "fetch": bool}}
    """

    def __init__(self, nodes, clock):
        self.nodes = nodes
        self.clock = clock

    def keys(self, eid):
        k = self.nodes[eid]["key"]
        return [EC[i] for i in (k if isinstance(k, list) else [k])]

    def jwks(self, eid):
        return jwks(*self.keys(eid))

    def meta(self, eid):
        n = self.nodes[eid]
        m = copy.deepcopy(n.get("meta", {}))
        fe = m.setdefault("federation_entity", {})
        if n.get("fetch", True):
            fe.setdefault("federation_fetch_endpoint", f"{eid}/fetch")
        return m

    def ec_payload(self, eid):
        n = self.nodes[eid]
        now = int(self.clock.now)
        p = {"iss": eid, "sub": eid, "iat": now, "exp": now + n.get("ttl", DAY),
             "jwks": self.jwks(eid), "metadata": self.meta(eid)}
        if n.get("sup"):
            p["authority_hints"] = list(n["sup"])
        p.update(copy.deepcopy(n.get("ec", {})))
        return p

    def ec(self, eid):
        return sign(self.ec_payload(eid), self.keys(eid)[0])

    def stmt_payload(self, sup, sub):
        n = self.nodes[sub]
        now = int(self.clock.now)
        p = {"iss": sup, "sub": sub, "iat": now, "exp": now + n.get("sttl", {}).get(sup, DAY),
             "jwks": self.jwks(sub)}
        p.update(copy.deepcopy(n.get("stmt", {}).get(sup, {})))
        return p

    def stmt(self, sup, sub):
        return sign(self.stmt_payload(sup, sub), self.keys(sup)[0])

    def chain(self, *path):
        """path: leaf, im, ..., ta -> [TA about ..., ..., im about leaf, leaf EC]"""
        res = [self.ec(path[0])]
        for sub, sup in zip(path, path[1:]):
            res.append(self.stmt(sup, sub))
        res.reverse()
        return res

    def handler(self, method, url, headers, body):
        base, q = split_url(url)
        for eid in self.nodes:
            if base == well_known_urls(eid)[1]:
                if self.nodes[eid].get("dead"):
                    return self.dead(self.nodes[eid]["dead"])
                return 200, ES_CT, self.ec(eid)
        if base.endswith("/fetch"):
            sup = base[:-len("/fetch")]
            if sup in self.nodes and self.nodes[sup].get("fetch", True):
                sub = q.get("sub", sup)
                if self.nodes[sup].get("nostmt") and sub in self.nodes[sup]["nostmt"]:
                    return self.dead(self.nodes[sup].get("nostmt_how", "404"))
                if sub in self.nodes and (sup in self.nodes[sub].get("sup", []) or
                                          sup in self.nodes[sub].get("stmt", {})):
                    return 200, ES_CT, self.stmt(sup, sub)
        if any(urllib.parse.urlparse(base).netloc == urllib.parse.urlparse(e).netloc
               for e in self.nodes):
            return 404, {"Content-Type": "text/plain"}, "not found"
        return None

    @staticmethod
    def dead(how):
        if how == "conn":
            raise requests.exceptions.ConnectionError("virtual connection failure")
        if how == "500":
            return 500, {"Content-Type": "text/plain"}, "error"
        if how == "garbage":
            return 200, ES_CT, "this.is.garbage"
        if how == "html":
            return 200, {"Content-Type": "text/html"}, "<html></html>"
        if how == "empty":
            return 200, ES_CT, ""
        return 404, {"Content-Type": "text/plain"}, "not found"


# RSA private key construction re-checks the primes (70 ms); memoise it. cryptojwt only, not the
# code under test.
def _memo_rsa():
    import cryptojwt.jwk.rsa as m
    orig = m.rsa_construct_private
    cache = {}

    def construct(numbers):
        key = tuple(sorted((k, v) for k, v in numbers.items() if v))
        if key not in cache:
            cache[key] = orig(numbers)
        return cache[key]

    m.rsa_construct_private = construct


_memo_rsa()
