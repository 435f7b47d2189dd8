"""The gateway's ends of its wires with known data, and what goes from one to the other."""
import json
import re
from urllib.parse import parse_qsl, unquote, urlsplit

from sa import web
from sa.interp import Interp
from sa.query import ext_name
from sa.state import Obj, events
from sa.values import NONE, V, const, enum, show
from .optw import Unknown, get, put

SRV = "dask_gateway_server."
REQ = V("param", "request")
STATUS = {"HTTPUnauthorized": 401, "HTTPForbidden": 403, "HTTPNotFound": 404, "HTTPConflict": 409, "HTTPUnprocessableEntity": 422, "HTTPBadRequest": 400, "HTTPInternalServerError": 500}
AT_BACKEND = ("get_cluster", "list_clusters", "start_cluster", "stop_cluster", "forward_message_to_scheduler", "on_cluster_heartbeat")
PUBLIC = "dask_gateway_server.backends.base.PublicException"


def plain(x):
    """a value after it was sent as JSON"""
    if isinstance(x, (bytes, bytearray)):
        raise Unknown("bytes cannot be sent as JSON")
    return json.loads(json.dumps(x))


def value(st, v):
    """a known value with enumerations by their names"""
    if v.k == "enum":
        return v.a[1]
    o = st.obj(v)
    if o is not None and o.kind == "list":
        if any(s[0] != "one" for s in o.segs):
            raise Unknown(show(v))
        return [value(st, s[1]) for s in o.segs]
    if v.k == "tuple":
        return [value(st, x) for x in v.a]
    return get(st, v)


class Server:
    """The gateway's HTTP server. `handle` follows one request on every path."""

    def __init__(self, c):
        self.c = c
        self.routes = [r for r in web.routes(c.prog, c.types) if r.handler is not None]

    def serves(self, method, path):
        out = []
        for r in self.routes:
            rx = re.sub(r"\\\{(\w+)\\\}", r"(?P<\1>[^/]+)", re.escape(r.path))
            m = re.fullmatch(rx, path)
            if m and r.method.lower() == method.lower():
                out.append((r, {k: unquote(v) for k, v in m.groupdict().items()}))
        return out

    def handle(self, method, url, headers=None, body=None, cluster=None, raises=None, answers=None):
        """[(status, reply, calls of the backend, route)]: `cluster` is what the backend says of the cluster"""
        c = self.c
        u = urlsplit(url)
        found = self.serves(method, u.path)
        if not found:
            return None
        r, match = found[0]
        query = dict(parse_qsl(u.query, keep_blank_values=True))
        log = {}

        def results(I, st, name, func, args, kw):
            if name == "authenticate":
                uc = c.prog.cls(SRV + "models", "User")
                return st.alloc(Obj("inst", cls=uc.qual, attrs={"name": const("alice"), "groups": put(st, []), "admin": const(False)}))
            if name in AT_BACKEND and func is not None and func.cls is not None:
                names = [a.arg for a in func.node.args.args[1:]]
                vals = {**dict(zip(names, args)), **kw}
                d = []
                for k, v in vals.items():
                    try:
                        d.append((k, self.seen(st, v)))
                    except Unknown as e:
                        d.append((k, f"?{e}"))
                st.ghost = {**(st.ghost or {}), "calls": (*(st.ghost or {}).get("calls", ()), (name, tuple(d)))}
                if raises == name:
                    return V("never")
                if name == "get_cluster":
                    return self.cluster(st, cluster) if cluster is not None else NONE
                if name == "list_clusters":
                    return put_list(st, [self.cluster(st, x) for x in (answers or [])])
                if name == "start_cluster":
                    return const("c7")
                return NONE
            if name == "get_cluster_options":
                return (answers or (lambda st: NONE))(st)
            if name == "json" and I.callee is not None and I.callee.k in ("attr", "bm") and I.callee.a[0] is REQ:
                log["json"] = True
                if body is None:
                    return V("never")
                return put(st, body)
            return None

        def fails(I, st, ev):
            if ev.get("result") is V("never"):
                return [(PUBLIC, True)] if ev.get("name") in AT_BACKEND else [("json.JSONDecodeError", True)]
        I = web.interp(c.prog, c.types, results=results, raises=fails, opaque=lambda f, recv: f.cls is not None and f.name in ("authenticate", "pre_response", "put", "get_cluster_options", *AT_BACKEND))
        st = r.state.fork()
        st.ghost = dict(st.ghost or {})
        be = st.alloc(Obj("inst", cls=SRV + "backends.local.LocalBackend", attrs={}))
        au = st.alloc(Obj("inst", cls=SRV + "auth.SimpleAuthenticator", attrs={"cache": V("param", "cache"), "cookie_name": const("gw")}))
        hs = {}
        for k, v in (headers or {}).items():
            hs[k.title()] = hs[k.lower()] = v
        app = put(st, {})
        st.setobj(app, st.obj(app).replace(layers=(("kv", const("backend"), be), ("kv", const("authenticator"), au), ("kv", const("log"), V("param", "log")))))
        st.store = {**st.store, (REQ, "app"): app, (REQ, "headers"): put(st, hs), (REQ, "match_info"): put(st, match), (REQ, "query"): put(st, query), (REQ, "cookies"): put(st, {})}
        out = []
        upto = st.trace
        for o in I.run_value(r.handler, [REQ], st):
            c.paths += 1
            out.append((*self.reply(o, upto), o.st.ghost.get("calls", ()), r))
        c.analysed(*I.inlined)
        return out

    def seen(self, st, v):
        o = st.obj(v)
        if o is not None and o.kind == "inst":
            return f"<{o.cls.rsplit('.', 1)[-1]} {value(st, o.attrs['name'])}>" if "name" in o.attrs else f"<{o.cls}>"
        x = value(st, v)
        return json.dumps(x, sort_keys=True)

    def cluster(self, st, d):
        k = self.c.prog.cls(SRV + "models", "Cluster")
        s = self.c.prog.cls(SRV + "models", "ClusterStatus")
        attrs = {n: put(st, v) for n, v in d.items() if n != "status"}
        n = s.enum_members()[d["status"]]
        attrs["status"] = enum(s.qual, d["status"], n)
        return st.alloc(Obj("inst", cls=k.qual, attrs=attrs))

    def reply(self, o, upto):
        v = o.val
        if o.kind != "ret":
            name = v.a[0].rsplit(".", 1)[-1] if v.k == "exc" else show(v)
            return STATUS.get(name, 500), f"{name}"
        for e in reversed(events(o.st.trace, upto)):
            if e.kind == "call" and e.get("result") is v and e.get("name") in ("json_response", "Response"):
                kw = e.get("kwargs") or {}
                s = kw.get("status", const(200))
                if s.k == "attr" and s.a[1] == "status":
                    x = s.a[0]
                    n = x.a[0] if x.k == "exc" else ext_name(x) or show(x)
                    return STATUS.get(n.rsplit(".", 1)[-1], 500), {"error": "?"}
                if s.k != "const":
                    return -1, f"?{show(s)}"
                if e.get("name") == "Response":
                    return s.a[0], None
                data = e.args[0] if e.args else kw.get("data")
                try:
                    return s.a[0], plain(value_deep(o.st, data))
                except Unknown as x:
                    return s.a[0], f"?{x}"
        return -1, f"?{show(v)}"


def value_deep(st, v):
    o = st.obj(v)
    if o is not None and o.kind == "dict":
        return {value(st, l[1]): value_deep(st, l[2]) if l[0] == "kv" else fail(l) for l in o.layers}
    if o is not None and o.kind == "list":
        return [value_deep(st, s[1]) if s[0] == "one" else fail(s) for s in o.segs]
    return value(st, v)


def fail(x):
    raise Unknown(str(x))


def put_list(st, vals):
    return st.alloc(Obj("list", lk="list", segs=tuple(("one", v) for v in vals)))
