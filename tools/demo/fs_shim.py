"""Stand-in for idpyoidc.key_import (absent from the installed idpyoidc)."""
import json, sys, types
m = types.ModuleType("idpyoidc.key_import")
def import_jwks(keyjar, jwks, issuer_id=""):
    keyjar.import_jwks(jwks, issuer_id); return keyjar
def import_jwks_as_json(keyjar, js, issuer_id=""):
    keyjar.import_jwks_as_json(js, issuer_id); return keyjar
def import_jwks_from_file(keyjar, filename, issuer_id=""):
    keyjar.import_jwks_from_file(filename, issuer_id); return keyjar
def add_kb(keyjar, issuer_id, kb):
    keyjar.add_kb(issuer_id, kb); return keyjar
def issuer_keys(keyjar, issuer_id="", format="raw"):
    return keyjar.get_issuer_keys(issuer_id)
def store_under_other_id(keyjar, fr="", to="", private=False):
    keyjar.import_jwks(keyjar.export_jwks(private=private, issuer_id=fr), to); return keyjar
for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb, issuer_keys, store_under_other_id):
    setattr(m, f.__name__, f)
import idpyoidc
sys.modules["idpyoidc.key_import"] = m
idpyoidc.key_import = m
