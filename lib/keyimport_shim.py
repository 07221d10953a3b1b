"""Stand-in for idpyoidc.key_import, which the installed idpyoidc lacks.

fedservice at the pinned commit imports five helpers from it.  They are thin wrappers around
cryptojwt's KeyJar; this module provides them with the upstream semantics (a key that is already
present for the owner is not added twice).  A real idpyoidc.key_import, if there is one, is used.
"""
import importlib.util
import json
import sys
import types


def install():
    import idpyoidc
    if "idpyoidc.key_import" in sys.modules:
        return
    if importlib.util.find_spec("idpyoidc.key_import") is not None:
        return
    from cryptojwt.jwk.jwk import key_from_jwk_dict

    m = types.ModuleType("idpyoidc.key_import")

    def issuer_keys(keyjar, entity_id, format="jwk"):
        ki = keyjar.return_issuer(entity_id)
        if format == "jwk":
            return [k.serialize() for k in ki.all_keys()]
        return list(ki.all_keys())

    def import_jwks(keyjar, jwks, entity_id=""):
        keys = []
        have = issuer_keys(keyjar, entity_id)
        for jwk in jwks["keys"]:
            if jwk not in have:
                have.append(jwk)
                keys.append(key_from_jwk_dict(jwk))
        if keys:
            keyjar.add_keys(entity_id, keys)
        return keyjar

    def import_jwks_as_json(keyjar, jwks, entity_id=""):
        return import_jwks(keyjar, json.loads(jwks), entity_id)

    def import_jwks_from_file(keyjar, filename, entity_id=""):
        with open(filename) as fp:
            return import_jwks_as_json(keyjar, fp.read(), entity_id)

    def add_kb(keyjar, issuer_id, kb):
        keyjar.add_kb(issuer_id, kb)
        return keyjar

    for f in (issuer_keys, import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb):
        setattr(m, f.__name__, f)
    sys.modules["idpyoidc.key_import"] = m
    idpyoidc.key_import = m
