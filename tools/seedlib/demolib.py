"""Helpers of the demonstrations: keys, hand-signed statements, a real entity, a fake network."""
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.getcwd(), "src"), HERE]
sys.dont_write_bytecode = True
import keyimport_shim  # noqa

keyimport_shim.install()
logging.disable(logging.CRITICAL)
import time  # noqa

import requests  # noqa
import requests.adapters  # noqa
from cryptojwt.jwk.ec import new_ec_key  # noqa
from cryptojwt.jwk.rsa import new_rsa_key  # noqa
from cryptojwt.jws.jws import JWS  # noqa

DAY = 86400
KEY_DEFS = [{"type": "RSA", "key": "", "use": ["sig"]}]
_keys = {}


def key(name):
    if name not in _keys:
        _keys[name] = new_ec_key("P-256", kid="kid-" + name, use="sig")
    return _keys[name]


def jwks(*names):
    return {"keys": [key(n).serialize() for n in names]}


def sign(payload, name, **headers):
    return JWS(json.dumps(payload), alg="ES256").sign_compact([key(name)], protected=headers)


def statement(iss, sub, signer=None, keys=None, **extra):
    now = int(time.time())
    p = {"iss": iss, "sub": sub, "iat": now, "exp": now + DAY, "jwks": jwks(*(keys or [sub]))}
    p.update(extra)
    return sign(p, signer or iss)


def payload(token):
    import base64
    s = token.split(".")[1]
    return json.loads(base64.urlsafe_b64decode(s + "=" * (-len(s) % 4)))


def entity(entity_id, trust_anchors=None, **kwargs):
    from fedservice.utils import make_federation_entity
    return make_federation_entity(entity_id=entity_id, key_config={"key_defs": KEY_DEFS},
                                  preference={"organization_name": "org"},
                                  trust_anchors=trust_anchors or {}, **kwargs)


class Net(object):
    def __init__(self):
        self.pages = {}   # url without query -> body or callable(query dict) -> body/None
        self.log = []

    def __enter__(self):
        self._orig = requests.adapters.HTTPAdapter.send
        net = self

        def send(self, request, **kw):
            from urllib.parse import parse_qs, urlparse
            u = urlparse(request.url)
            base = f"{u.scheme}://{u.netloc}{u.path}"
            q = {k: v[0] for k, v in parse_qs(u.query).items()}
            net.log.append((request.method, base, q))
            page = net.pages.get(base)
            if callable(page):
                page = page(q)
            r = requests.Response()
            r.request, r.url, r.encoding = request, request.url, "utf-8"
            if isinstance(page, Exception):
                raise page
            r.status_code = 404 if page is None else 200
            r.headers["Content-Type"] = "application/entity-statement+jwt"
            r._content = (page or "").encode()
            return r
        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self._orig


def node(net, eid, hints=(), subs=None, meta=None, **extra):
    """publish an entity configuration and a fetch endpoint {sub: extra claims} at the fake network"""
    md = dict(meta or {})
    md.setdefault("federation_entity", {})["federation_fetch_endpoint"] = eid + "/fetch"
    kw = dict(extra, metadata=md)
    if hints:
        kw["authority_hints"] = list(hints)
    net.pages[eid + "/.well-known/openid-federation"] = lambda q: statement(eid, eid, **kw)
    net.pages[eid + "/fetch"] = lambda q: (statement(eid, q["sub"], **subs[q["sub"]])
                                           if q.get("sub") in (subs or {}) else None)


def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
