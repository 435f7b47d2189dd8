"""C01: every endpoint but health and version authenticates before it does anything."""
from sa.query import where, root
from sa.values import V, const, show, NONE
from sa.program import Broken
from .httpsurface import (Surface, REQ, app_item, backend, cookie_user, denied, is_get_cluster, path_name,
                          token_evidence, name_of)

EXEMPT = {("get", "/api/health"), ("get", "/api/version")}
ALLOWED_PRE = {"get_cluster"}


def raises(I, st, e):
    if e.get("name") in ("authenticate",):
        return ["Exception"]


def proxy_secret(s):
    return s.k == "attr" and s.a[0] is V("param", "self") and "token" in s.a[1]


def run(c):
    c.rule("AUTH-RESP", "every non-error response of a protected endpoint is preceded by authentication evidence")
    c.rule("AUTH-EFFECT", "no backend call or shared-state change of a protected endpoint precedes the evidence")
    c.rule("AUTH-USER", "the identity attached to a request is the authenticated one")
    c.rule("ROUTES", "every route registration is recognised and its handler resolved")
    S = Surface(c.prog, c.types, raises)
    c.assumptions.append("aiohttp dispatches a request only to the handler registered for it")
    for r in S.routes:
        c.require(r.handler is not None, "ROUTES", r.where,
                  f"route registration through {r.path} {r.method} cannot be resolved to a handler")
    for f in S.functions():
        c.analysed(f)
    seen = {(r.method, r.path) for r in S.routes}
    if not (EXEMPT <= seen and len(seen) >= 9):
        raise Broken(f"only {len(seen)} routes found: {sorted(seen)}")
    for r, paths in S.paths.items():
        if (r.method, r.path) in EXEMPT:
            for p in paths:
                c.paths += 1
                for e in p.events:
                    bad = e.kind == "call" and e.recv is not None and backend(e.recv)
                    if bad:
                        c.fail("AUTH-EFFECT", where(e), f"unauthenticated endpoint {r} uses the backend: {show(e.callee)}",
                               key=f"{r}")
            continue
        for p in paths:
            c.paths += 1
            check_path(c, r, p)
    c.floor("AUTH-RESP", 9)
    c.floor("AUTH-EFFECT", 9)


def check_path(c, r, p):
    extra = proxy_secret if r.owner else (lambda s: False)
    authed = None
    user = None
    raised = {id(e.call) for e in p.events if e.kind == "callraised"}
    pending = []
    for e in p.events:
        if authed is None:
            ev = token_evidence(e.facts, extra)
            if ev:
                authed = ("token", ev)
        if e.kind == "call" and e.get("name") == "authenticate" and e.recv is not None \
                and app_item(e.recv, "authenticator") and id(e) not in raised:
            authed = authed or ("user", e.result)
            user = e.result
        if e.kind == "setitem" and e.obj is REQ and e.key is const("user"):
            v = e.value
            if cookie_user(v, e.facts):
                ok = e.facts.cmp("is", v, NONE) is False or e.facts.truth(v) is True or _item_of_known(v, e.facts)
                c.require(ok, "AUTH-USER", where(e), f"{r}: session lookup may have found nothing: {show(v)}", key=str(r))
                if ok:
                    authed = authed or ("user", v)
            elif v is NONE:
                c.require(bool(token_evidence(e.facts, extra)), "AUTH-USER", where(e),
                          f"{r}: request marked as token-authenticated without a matching token", key=str(r))
            else:
                c.require(user is not None and (v is user or (v.k == "item" and v.a[0] is user)),
                          "AUTH-USER", where(e), f"{r}: identity {show(v)} was not returned by the authenticator",
                          key=str(r))
        if protected_effect(e):
            c.require(authed is not None, "AUTH-EFFECT", where(e),
                      f"{r}: {describe(e)} happens before the request is authenticated", key=f"{r}:{e.get('name') or e.kind}")
    if authed is None:
        ev = token_evidence(p.facts, extra)
        if ev:
            authed = ("token", ev)
    if not denied(p.out):
        w = where(p.events[-1]) if p.events else str(r)
        c.require(authed is not None, "AUTH-RESP", r.where,
                  f"{r} answers without authentication: {show(p.out.val) if p.out.val else p.out.kind}", key=str(r))


def _item_of_known(v, facts):
    while v.k == "item":
        if facts.cmp("is", v, NONE) is False or facts.truth(v) is True:
            return True
        v = v.a[0]
    return False


def describe(e):
    if e.kind == "call":
        return f"call of {show(e.callee)}"
    return f"{e.kind} on {show(e.obj) if e.get('obj') is not None else '?'}"


def protected_effect(e):
    if e.kind == "call":
        if e.recv is not None and backend(e.recv):
            if e.name == "get_cluster" and e.args and path_name(e.args[0]):
                return False
            return True
        if e.recv is not None and e.recv.k == "attr" and e.recv.a[0] is V("param", "self"):
            # the proxy's own state, apart from marking that it was contacted
            return e.name in ("add", "append", "extend", "put", "put_nowait", "pop", "clear", "remove", "discard")
        return False
    if e.kind in ("store", "setattr", "setitem", "append", "extend", "remove", "delitem", "dictupdate"):
        o = e.get("obj")
        if o is None or o.k == "ref":
            return False
        rt = root(o)
        if rt is V("param", "self"):
            return "contacted" not in show(o)
        return rt is not REQ and False
    return False
