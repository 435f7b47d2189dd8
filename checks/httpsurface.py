"""All paths through every HTTP handler of the gateway server (shared by C01-C03, C06, C18)."""
from sa import web
from sa.program import Broken
from sa.query import contains, root, subterms, ext_name, kwarg
from sa.state import events
from sa.values import V, NONE, const, show

REQ = V("param", "request")
APP = V("attr", REQ, "app", 0)
DENY = ("HTTPUnauthorized", "HTTPForbidden", "HTTPNotFound", "HTTPUnprocessableEntity", "HTTPConflict",
        "HTTPBadRequest", "HTTPInternalServerError", "HTTPBadGateway", "HTTPGone")


def app_item(v, key):
    return v.k == "item" and v.a[1].k == "const" and v.a[1].a[0] == key and v.a[0].k == "attr" \
        and v.a[0].a[1] == "app"


def backend(v):
    return app_item(v, "backend")


def from_header(v):
    """derived from the presented Authorization header"""
    return contains(v, lambda x: x.k in ("item", "call") and contains(x, lambda y: y.k == "attr" and y.a[1] == "headers"
                                                                      and root(y) is REQ)
                    and contains(x, lambda y: y.k == "const" and str(y.a[0]).lower() == "authorization"))


def path_name(v):
    return v.k == "item" and v.a[1] is const("cluster_name") and v.a[0].k == "attr" and v.a[0].a[1] == "match_info"


def is_get_cluster(v):
    return v.k == "call" and v.a[0].k in ("attr", "bound") and backend(v.a[0].a[0]) and name_of(v.a[0]) == "get_cluster"


def name_of(fv):
    if fv.k == "attr":
        return fv.a[1]
    if fv.k == "bound":
        return str(fv.a[1]).rsplit(".", 1)[-1]
    return None


class Path:
    def __init__(self, route, out, upto):
        self.route = route
        self.out = out
        self.events = events(out.st.trace, upto)
        self.facts = out.st.facts

    # -- authentication evidence ---------------------------------------
    def user_terms(self, upto=None):
        """values established as the authenticated user"""
        got = []
        raised = {id(e.call) for e in self.events if e.kind == "callraised"}
        for e in self.events[:upto]:
            if e.kind == "call" and e.get("name") == "authenticate" and e.recv is not None \
                    and app_item(e.recv, "authenticator") and id(e) not in raised:
                got.append(e.result)
        return got


def cookie_user(v, facts):
    """v is what the authenticator's session table holds for the presented cookie"""
    def look(x):
        return (x.k == "item" and contains(x.a[1], lambda y: y.k == "attr" and y.a[1] == "cookies" and root(y) is REQ)
                and app_item_root(x.a[0], "authenticator"))
    return contains(v, look)


def app_item_root(v, key):
    while True:
        if app_item(v, key):
            return True
        if v.k in ("attr", "item"):
            v = v.a[0]
        elif v.k == "call" and v.a[0].k in ("attr", "bound"):
            v = v.a[0].a[0]
        else:
            return False


def token_evidence(facts, extra=lambda s: False):
    """pairs (secret, presented) whose equality is an established fact"""
    out = []

    def secret(s):
        return extra(s) or (s.k == "attr" and s.a[1] == "token" and is_get_cluster(s.a[0]))

    def look(a, b):
        for s, t in ((a, b), (b, a)):
            if secret(s) and from_header(t):
                out.append((s, t))
    for t, val in facts.tr.items():
        if t.k == "cmp" and t.a[0] in ("==", "is") and val:
            look(t.a[1], t.a[2])
        if t.k == "call" and val and (ext_name(t) or "").split(".")[-1] == "compare_digest" and len(t.a[1]) == 2:
            a, b = t.a[1]
            for s in subterms(a):
                for u in subterms(b):
                    look(s, u)
    for (a, b), r in facts.rel.items():
        if r == frozenset("="):
            look(a, b)
    return out


def denied(out):
    """the outcome is an error response"""
    if out.kind == "raise":
        return True
    v = out.val
    if v is None or v.k != "call":
        return False
    n = (ext_name(v) or "").split(".")[-1]
    if n.startswith("HTTP"):
        return True
    if n in ("json_response", "Response"):
        s = kwarg(v, "status", 2 if n == "json_response" else None)
        if s is None:
            return False
        if s.k == "const":
            return isinstance(s.a[0], int) and s.a[0] >= 400
        return s.k == "attr" and s.a[1] in ("status", "status_code") and exc_denial(s.a[0])
    return False


def exc_denial(v):
    if v.k == "exc":
        return True
    return v.k == "call" and (ext_name(v) or "").split(".")[-1] in DENY


class Surface:
    def __init__(self, prog, types, raises=None):
        self.routes = web.routes(prog, types)
        self.prog, self.types = prog, types
        self.paths = {}
        self.interps = {}
        for r in self.routes:
            if r.handler is None:
                continue
            I = web.interp(prog, types, raises=raises)
            user_cls = "dask_gateway_server.models.User"

            def on_event(st, e, I=I):
                if e.kind == "setitem" and e.key is const("user") and e.obj is REQ and e.value is not NONE:
                    I.term_types.setdefault(e.value, user_cls)
                    # authenticators return user objects (C04); checked uses look at e.facts, taken before
                    f = st.facts.assume(V("cmp", "is", e.value, NONE), False)
                    if f is not None:
                        st.facts = f
            I.on_event = on_event
            if r.owner:
                I.term_types[V("param", "self")] = r.owner
            outs = I.run_value(r.handler, [REQ], r.state)
            self.paths[r] = [Path(r, o, r.state.trace) for o in outs]
            self.interps[r] = I

    def functions(self):
        s = set()
        for I in self.interps.values():
            s |= I.inlined
        return s
