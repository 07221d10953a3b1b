"""Real entities (the code under test on both sides) wired to the virtual network the way the example
deployments do it: URL -> endpoint.parse_request -> process_request -> do_response."""
import copy
import json
import urllib.parse

from fedlib import jwks, key_conf, payload_of, split_url, verify_sig
from vf import require

PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}

RESPONSE_TYPES = ["code", "id_token", "code id_token", "id_token token", "code id_token token", "none"]


def crypt():
    return {"kwargs": {"keys": {"key_defs": [
        {"type": "OCT", "use": ["enc"], "kid": "password"}, {"type": "OCT", "use": ["enc"], "kid": "salt"}]},
        "iterations": 1}}


def fed_entity(ent):
    from fedservice.entity import FederationEntity
    return ent if isinstance(ent, FederationEntity) else ent["federation_entity"]


def _combo(entity_id, key, guise, cls, config, services=None, anchors=None, fed_services=None, guise_kwargs=None, **kw):
    from fedservice.utils import make_federation_combo
    kwargs = {"config": config}
    if services is not None:
        kwargs["services"] = services
    kwargs.update(guise_kwargs or {})
    args = {"preference": {"organization_name": f"org {entity_id}"}, "endpoints": ["entity_configuration"]}
    args.update(kw)
    return make_federation_combo(
        entity_id, key_config=key_conf(key), services=fed_services, trust_anchors=copy.deepcopy(anchors or {}),
        httpc_params={"verify": False, "timeout": 14},
        entity_type={guise: {"class": cls, "kwargs": kwargs}}, **args)


def rp(entity_id, key=0, cli_key=None, config=None, guise="openid_relying_party", cls="fedservice.appclient.ClientEntity", **kw):
    from fedservice import defaults
    srv = defaults.federation_services("entity_configuration", "entity_statement")
    srv.update(copy.deepcopy(defaults.DEFAULT_OIDC_FED_SERVICES if guise == "openid_relying_party"
                             else defaults.DEFAULT_OAUTH2_FED_SERVICES))
    conf = {"redirect_uris": [f"{entity_id}/cli/authz_cb"], "keys": key_conf(key if cli_key is None else cli_key),
            "client_id": entity_id, "client_secret": "a longesh password",
            "preference": {"grant_types": ["authorization_code", "refresh_token"],
                           "id_token_signed_response_alg": "RS256",
                           "request_object_signing_alg": "RS256",
                           "token_endpoint_auth_method": "private_key_jwt",
                           "token_endpoint_auth_signing_alg": "RS256",
                           "client_registration_types": ["automatic", "explicit"]}}
    if guise == "oauth_client":
        conf["client_type"] = "oauth2"
        conf["preference"] = {"grant_types": ["authorization_code", "refresh_token"],
                              "token_endpoint_auth_method": "private_key_jwt",
                              "token_endpoint_auth_signing_alg": "RS256"}
    for k, v in (config or {}).items():
        if k == "preference":
            conf["preference"].update(v)
        else:
            conf[k] = v
    return _combo(entity_id, key, guise, cls, conf, services=srv, **kw)


def op(entity_id, key=0, config=None, guise="openid_provider", new_client_id=False, registration_types=None, **kw):
    kind = "oidc" if guise == "openid_provider" else "oauth2"
    from idpyoidc.server.oidc.token import Token
    from idpyoidc.server.oidc.userinfo import UserInfo
    conf = {
        "keys": key_conf(key),
        "preference": {
            "response_types_supported": [x for x in RESPONSE_TYPES if x != "none"],
            "request_authentication_methods_supported": {
                "authorization_endpoint": ["request_object"],
                "pushed_authorization_request_endpoint": ["private_key_jwt"]},
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token"]},
        "token_handler_args": {
            "jwks_def": {"read_only": False, "key_defs": [{"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
            "code": {"lifetime": 600, "kwargs": {"crypt_conf": crypt()}},
            "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
        },
        "key_conf": key_conf(key),
        "endpoint": {
            "authorization": {
                "path": "authorization", "class": f"fedservice.appserver.{kind}.authorization.Authorization",
                "kwargs": {"response_types_supported": list(RESPONSE_TYPES),
                           "response_modes_supported": ["query", "fragment", "form_post"],
                           "claims_parameter_supported": True, "request_parameter_supported": True,
                           "request_uri_parameter_supported": True,
                           "client_registration_types_supported": ["automatic", "explicit"]}},
            "registration": {"path": "registration",
                             "class": f"fedservice.appserver.{kind}.registration.Registration", "kwargs": {}},
            "token": {"path": "token", "class": Token, "kwargs": {
                "client_authn_method": ["client_secret_post", "client_secret_basic", "private_key_jwt"]}},
        },
        "template_dir": "template",
        "session_params": {"encrypter": crypt()},
    }
    if registration_types:
        conf["preference"]["client_registration_types_supported"] = list(registration_types)
        conf["endpoint"]["authorization"]["kwargs"]["client_registration_types_supported"] = list(registration_types)
    if new_client_id:
        conf["endpoint"]["authorization"]["kwargs"]["new_client_id"] = True
    if kind == "oidc":
        conf["token_handler_args"]["id_token"] = {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}
        conf["endpoint"]["userinfo"] = {"path": "userinfo", "class": UserInfo, "kwargs": {}}
    else:
        conf["server_type"] = "oauth2"
        conf["endpoint"]["pushed_authorization"] = {
            "path": "pushed_authorization", "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": {"client_authn_method": ["private_key_jwt"]}}
    for k, v in (config or {}).items():
        if k == "preference":
            conf["preference"].update(v)
        else:
            conf[k] = v
    return _combo(entity_id, key, guise, "fedservice.appserver.ServerEntity", conf,
                  guise_kwargs={"key_conf": key_conf(key)}, **kw)


def register(superior, ent, **extra):
    """tell the superior about a subordinate, the way the test federations do"""
    fe = fed_entity(ent)
    info = {"jwks": fe.keyjar.export_jwks(),
            "entity_types": ["federation_entity"] if fe is ent else list(ent.keys()),
            "authority_hints": list(fe.get_authority_hints())}
    info.update(extra)
    fed_entity(superior).server.subordinate[fe.entity_id] = info


def own_jwks(ent):
    return fed_entity(ent).keyjar.export_jwks()


class Wire(object):
    """handler(method, url, headers, body) for fedlib.Net serving real entities"""

    def __init__(self, *entities):
        self.entities = list(entities)
        self.errors = []

    def endpoint(self, url, method):
        for ent in self.entities:
            fe = fed_entity(ent)
            for ep in fe.server.endpoint.values():
                if ep.full_path == url:
                    return ep
            if ent is not fe:
                for guise in ent.keys():
                    for ep in getattr(ent[guise], "endpoint", {}).values() if guise != "federation_entity" else ():
                        if ep.full_path == url:
                            return ep
        return None

    def __call__(self, method, url, headers, body):
        base, q = split_url(url)
        ep = self.endpoint(base, method)
        if ep is None:
            if any(fed_entity(e).entity_id.split("/")[2] == urllib.parse.urlparse(url).netloc for e in self.entities):
                return 404, {"Content-Type": "text/plain"}, "not found"
            return None
        return serve(ep, method, q, body, self.errors, headers)


def serve(ep, method="GET", query=None, body=None, errors=None, headers=None):
    from idpyoidc.message.oauth2 import ResponseMessage
    js = {"Content-Type": "application/json"}
    authz = [v for k, v in (headers or {}).items() if k.lower() == "authorization"]
    extra = {"http_info": {"headers": {"authorization": authz[0]}}} if authz else {}
    try:
        if method == "GET":
            req = ep.parse_request(query or {}, **extra)
        else:
            req = ep.parse_request(body, **extra)
        if isinstance(req, ResponseMessage) and "error" in req:
            return 400, js, req.to_json()
        args = ep.process_request(req)
        if isinstance(args, ResponseMessage) and "error" in args:
            return 400, js, args.to_json()
        if "http_response" in args:
            return 200, js, args["http_response"]
        info = ep.do_response(request=req, **args)
    except Exception as err:
        if errors is not None:
            errors.append((ep.name, err))
        return 400, js, json.dumps({"error": "invalid_request", "error_description": str(err)})
    return 200, dict(info["http_headers"]), info["response"]


def secrets_in(val, path=""):
    """every place where something that must stay secret shows up"""
    res = []
    if isinstance(val, dict):
        if "kty" in val:
            res += [f"{path}.{k}" for k in PRIVATE if k in val]
            if val["kty"] == "oct":
                res.append(f"{path} (symmetric key)")
        for k, v in val.items():
            if k in ("client_secret", "registration_access_token"):
                res.append(f"{path}.{k}")
            res += secrets_in(v, f"{path}.{k}")
    elif isinstance(val, list):
        for n, v in enumerate(val):
            res += secrets_in(v, f"{path}[{n}]")
    elif isinstance(val, str) and "longesh password" in val:
        res.append(path)
    return res


def norm(j):
    return sorted(json.dumps(k, sort_keys=True) for k in j["keys"])


def judge_ec(token, eid, keys, life=None):
    require(isinstance(token, str) and token.count(".") == 2, lambda: f"no signed statement: {token!r}", "token")
    p = payload_of(token)
    require(p == verify_sig(token, jwks(*keys)), "not signed with a key of the entity", "signature")
    require(p.get("iss") == eid and p.get("sub") == eid, lambda: f"iss {p.get('iss')} sub {p.get('sub')}", "names")
    require("jwks" in p and norm(p["jwks"]) == norm(jwks(*keys)), lambda: f"jwks {p.get('jwks')}", "jwks")
    require(p == verify_sig(token, p["jwks"]), "can not be verified with the keys it contains", "self-signed")
    require(p.get("iat") == int(life[0]) and p.get("exp", 0) > p["iat"], lambda: f"iat {p.get('iat')} exp {p.get('exp')}", "lifetime")
    bad = secrets_in(p)
    require(not bad, lambda: f"secrets in the entity configuration: {bad}", "secrets")
    for m in ("metadata_policy", "constraints"):
        require(m not in p, f"{m} in an entity configuration", "content")
    return p
