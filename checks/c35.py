"""C35: the client's requests, the one retry after a challenge, and what becomes of every reply.

Every public operation of the client is followed for every status of the reply (and
of the reply to the repeated request), for every form of an error's text."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import Unknown, get, put
from .sched import At

MOD = "dask_gateway.client"
AUTH = "dask_gateway.auth"
ADDRESS = "http://gw:8000"
STATUSES = (200, 201, 204, 304, 400, 401, 403, 404, 405, 409, 413, 422, 429, 500, 502, 503, 504)
TEXTS = ("json", "other json", "no json")
VALUE, CLUSTER, SERVER = "ValueError", "GatewayClusterError", "GatewayServerError"
WANT = {404: VALUE, 422: VALUE, 409: CLUSTER, 500: SERVER}


class World:
    def __init__(self, c, statuses, text="json", data=None, fails=None):
        self.c = c
        self.k = c.prog.cls(MOD, "Gateway")
        self.statuses, self.text, self.data, self.fails = statuses, text, data, fails
        self.auth = V("param", "auth")
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.term_types[self.auth] = AUTH + ".GatewayAuth"
        st = self.st = I.new_state()
        st.ghost = {}
        st.facts = st.facts.assume(V("cmp", "is", self.auth, NONE), False)
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={
            "address": const(ADDRESS), "_public_address": const("https://public"), "proxy_address": const("gateway://gw:8786"), "_session": NONE, "auth": self.auth,
            "_request_kwargs": put(st, {"proxy": "http://proxy:3128", "proxy_auth": None}), "_asynchronous": const(True)}))

    def opaque(self, f, recv):
        return f.name in ("pre_request", "post_response", "_config_cluster_options")

    def results(self, I, st, name, func, args, kw):
        if name in ("request", "get", "post", "delete", "put", "patch") and func is None and I.callee is not None and I.callee.k != "bm" and (name == "request" or args and args[0].k == "const" and str(args[0].a[0]).startswith(ADDRESS)):
            i = st.ghost.get("n", 0)
            st.ghost = {**st.ghost, "n": i + 1}
            r = V("param", f"reply {i}")
            s = self.statuses[i] if i < len(self.statuses) else self.statuses[-1]
            st.store = {**st.store, (r, "status"): const(s), (r, "ok"): const(s < 400)}
            return r
        if name == "pre_request":
            return V("tuple", V("param", "credentials"), V("param", "context"))
        r = self.reply_of(I.callee)
        if r is not None:
            i = int(r.a[0].split()[1])
            s = self.statuses[i] if i < len(self.statuses) else self.statuses[-1]
            if name == "json":
                if s < 400:
                    return put(st, self.data) if self.data is not None else V("never")
                return put(st, {"error": f"reason {i}"}) if self.text == "json" else put(st, {"message": "odd"}) if self.text == "other json" else V("never")
            if name == "text":
                return const(f"body {i}")
            if name == "raise_for_status":
                return V("never") if s >= 400 else NONE
        if name == "sleep":
            return NONE
        return None

    def reply_of(self, callee):
        if callee is None or not callee.a:
            return None
        b = callee.a[0]
        return b if isinstance(b, V) and b.k == "param" and str(b.a[0]).startswith("reply ") else None

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            return [("aiohttp.ClientResponseError", True)] if ev.get("name") == "raise_for_status" else [("ValueError", True)]
        if self.fails and ev.get("name") == self.fails:
            return [("Exception", True)]

    def call(self, name, *args, st=None, **kw):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"the client has no {name}")
        outs = self.I.run_value(V("bound", self.S, f.qual), list(args), (st or self.st).fork(), kw)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return f, outs


def requests(o):
    return [e for e in events(o.st.trace) if e.kind == "call" and e.get("result") is not None and e.get("result").k == "param" and str(e.get("result").a[0]).startswith("reply ")]


def fields(e):
    """method, url, body, headers and everything else of a request"""
    kw = dict(e.get("kwargs") or {})
    a = list(e.args)
    m = kw.pop("method", None) or (a.pop(0) if e.get("name") == "request" and a else const((e.get("name") or "").upper()))
    u = kw.pop("url", None) or (a.pop(0) if a else None)
    j = kw.pop("json", kw.pop("data", NONE))
    h = kw.pop("headers", NONE)
    try:
        j = get(At(e.heap), j)
    except Unknown:
        j = show(j)
    return m, u, j, h, {k: show(v) for k, v in kw.items()}


def raised(o):
    """the class of the exception a path ends in, and its arguments"""
    v = o.val
    if v.k == "exc":
        return v.a[0].rsplit(".", 1)[-1], ()
    if v.k == "call":
        return show(v.a[0]).rsplit(".", 1)[-1], tuple(v.a[1])
    d = o.st.obj(v)
    if d is not None and d.kind == "inst":
        return d.cls.rsplit(".", 1)[-1], tuple(d.args) if hasattr(d, "args") else None
    return show(v), ()


CLUSTER = "GatewayClusterError"
MSG = dict(name="c1", options={}, status="RUNNING", start_time=1000, stop_time=None, dashboard_route="/clusters/c1/status", tls_cert="crt", tls_key="key")
OPS = (
    ("list_clusters", (), {}, "GET", "/api/v1/clusters/", None, {"c1": MSG}),
    ("get_cluster", ("c1",), {}, "GET", "/api/v1/clusters/c1", None, MSG),
    ("stop_cluster", ("c1",), {}, "DELETE", "/api/v1/clusters/c1", None, None),
    ("scale_cluster", ("c1", 4), {}, "POST", "/api/v1/clusters/c1/scale", {"count": 4}, None),
    ("scale_cluster", ("c1", 4), {}, "POST", "/api/v1/clusters/c1/scale", {"count": 4}, {"ok": True}),
    ("scale_cluster", ("c2", 0), {}, "POST", "/api/v1/clusters/c2/scale", {"count": 0}, {"ok": True}),
    ("adapt_cluster", ("c1",), {"minimum": 1, "maximum": 5}, "POST", "/api/v1/clusters/c1/adapt", {"minimum": 1, "maximum": 5, "active": True}, None),
    ("adapt_cluster", ("c2",), {"active": False}, "POST", "/api/v1/clusters/c2/adapt", {"minimum": None, "maximum": None, "active": False}, {"ok": True}),
    ("cluster_options", (), {"use_local_defaults": False}, "GET", "/api/v1/options", None, {"cluster_options": []}),
    ("submit", (), {"worker_cores": 3}, "POST", "/api/v1/clusters/", {"cluster_options": {"conf": 1, "worker_cores": 3}}, {"name": "c9"}),
    ("get_versions", (), {}, "GET", "/api/version", None, {"version": "1"}),
)


def sequences():
    for s in STATUSES:
        if s != 401:
            yield (s,)
    for s in STATUSES:
        yield (401, s)


def operations(c):
    for name, args, kw, method, path, body, data in OPS:
        for seq in sequences():
            for text in TEXTS if seq[-1] >= 400 else TEXTS[:1]:
                if text != "json" and name not in ("get_cluster", "stop_cluster"):
                    continue
                operate(c, name, args, kw, method, path, body, data, seq, text)


def operate(c, name, args, kw, method, path, body, data, seq, text):
    w = World(c, seq, text, data)
    st = w.st.fork()
    vals = [put(st, a) for a in args]
    kws = {k: put(st, v) for k, v in kw.items()}
    conf = put(st, {"conf": 1, "worker_cores": 1})
    orig = w.results

    def results(I, s, n, func, a, k):
        if n == "_config_cluster_options":
            return conf
        return orig(I, s, n, func, a, k)
    w.I.results = results
    f, outs = w.call(name, *vals, st=st, **kws)
    what = f"{name}, replies {', '.join(map(str, seq))}" + ("" if text == "json" else f" ({text})")
    c.require(outs, "ONCE", f.qual, f"{what}: no outcome", key=f"{name} none")
    for o in outs:
        reqs = requests(o)
        evs = events(o.st.trace)
        c.require(len(reqs) == len(seq), "ONCE", f.qual, f"{what}: {len(reqs)} requests are sent", key=f"{name} times")
        seen = None
        for i, e in enumerate(reqs):
            m, u, j, h, rest = fields(e)
            c.require(m is const(method) and u is not None and u.k == "const" and u.a[0].split("?")[0] == ADDRESS + path, "REQUEST", where(e), f"{what}: the request is {show(m)} {show(u) if u is not None else None}, not {method} {path}", key=f"{name} target")
            if isinstance(j, dict) and "active" in j:    # no minimum is a minimum of zero
                j = {**j, "minimum": j.get("minimum") or None}
            c.require(j == body, "REQUEST", where(e), f"{what}: the body is {j}, not {body}", key=f"{name} body")
            c.require("proxy" in rest and "3128" in rest["proxy"], "REQUEST", where(e), f"{what}: the configured HTTP proxy is not used", key=f"{name} proxy")
            if seen is None:
                seen = (m, u, j, rest)
                c.require(h is NONE or h.k == "ref" and not e.heap[h.a[0]].layers, "CREDENTIALS", where(e), f"{what}: the first request carries headers {show(h)}", key=f"{name} first")
            else:
                c.require((m, u, j, rest) == seen, "SAME", where(e), f"{what}: the repeated request differs: {show(m)} {show(u)} {j}", key=f"{name} same")
                c.require(carries(e, h), "CREDENTIALS", where(e), f"{what}: the repeated request carries {show(h)} for credentials", key=f"{name} repeated")
        pre = [e for e in evs if e.kind == "call" and e.get("name") == "pre_request"]
        post = [e for e in evs if e.kind == "call" and e.get("name") == "post_response"]
        n = 1 if seq[0] == 401 else 0
        c.require(len(pre) == n and all(e.args and e.args[0] is V("param", "reply 0") for e in pre), "CREDENTIALS", f.qual, f"{what}: the authenticator is asked {len(pre)} times", key=f"{name} asked")
        c.require(len(post) == n and all(V("param", "reply 1") in e.args and V("param", "context") in (*e.args, *(e.get("kwargs") or {}).values()) for e in post), "CREDENTIALS", f.qual, f"{what}: the authenticator does not see the reply to its credentials", key=f"{name} seen")
        last, i = seq[-1], len(seq) - 1
        if last < 400:
            c.require(o.kind == "ret", "RAISE", f.qual, f"{what}: raises {raised(o)[0] if o.kind == 'raise' else o.kind}", key=f"{name} success")
            if o.kind == "ret":
                result(c, f, name, o, what)
        elif c.require(o.kind == "raise", "RAISE", f.qual, f"{what}: the error reply is taken for a result", key=f"{name} {last}"):
            cls, a = raised(o)
            want = WANT.get(last, "ClientResponseError")
            c.require(cls == want, "RAISE", f.qual, f"{what}: raises {cls}, not {want}", key=f"{name} class {last}")
            if last in WANT:
                reason = f"reason {i}" if text == "json" else f"body {i}"
                vals_ = a if a is not None else [x for x in o.st.obj(o.val).attrs.values()]
                said = [x.a[0] for x in vals_ if x is not None and x.k == "const"] + [y.a[0] for x in vals_ if x is not None and x.k == "tuple" for y in x.a if y.k == "const"]
                c.require(any(reason == x for x in said), "RAISE", f.qual, f"{what}: the exception says {said}, not {reason!r}", key=f"{name} reason {text}")


def carries(e, h):
    cred = V("param", "credentials")
    if h is cred:
        return True
    o = e.heap.get(h.a[0]) if h.k == "ref" else None
    return o is not None and o.kind == "dict" and any(l[0] == "src" and l[1] is cred for l in o.layers) and len(o.layers) == 1


def result(c, f, name, o, what):
    """an operation returns what the reply reports"""
    try:
        v = get(o.st, o.val)
    except (Unknown, AttributeError):
        v = o.val
    if name == "submit":
        c.require(v == "c9", "RESULT", f.qual, f"{what}: returns {v}", key=name)
    elif name == "get_versions":
        c.require(isinstance(v, dict) and v.get("server") == {"version": "1"}, "RESULT", f.qual, f"{what}: returns {v}", key=name)
    elif name in ("stop_cluster", "scale_cluster", "adapt_cluster"):
        pass
    elif name == "get_cluster":
        report(c, f, o, o.val, what)
    elif name == "list_clusters":
        d = o.st.obj(o.val)
        xs = [s[1] for s in d.segs] if d is not None and hasattr(d, "segs") else []
        if c.require(len(xs) == 1, "RESULT", f.qual, f"{what}: returns {len(xs)} reports for one cluster", key=name):
            report(c, f, o, xs[0], what)


def report(c, f, o, v, what):
    d = o.st.obj(v)
    a = d.attrs if d is not None and d.kind == "inst" else {}
    has = lambda n: a.get(n)
    c.require(has("name") is const("c1"), "RESULT", f.qual, f"{what}: the report's name is {show(a.get('name', NONE))}", key="report name")
    s = has("status")
    c.require(s is not None and s.k == "enum" and s.a[1] == "RUNNING", "RESULT", f.qual, f"{what}: the report's status is {show(s) if s is not None else None}", key="report status")
    c.require(has("scheduler_address") is const("gateway://gw:8786/c1"), "RESULT", f.qual, f"{what}: the scheduler's address is {show(a.get('scheduler_address', NONE))}", key="report scheduler")
    c.require(has("dashboard_link") is const("https://public/clusters/c1/status"), "RESULT", f.qual, f"{what}: the dashboard's address is {show(a.get('dashboard_link', NONE))}", key="report dashboard")
    c.require(has("tls_cert") is const("crt") and has("tls_key") is const("key"), "RESULT", f.qual, f"{what}: the credentials of the report are not the reply's", key="report credentials")


def statuses(c):
    """a report of every status"""
    e = c.prog.cls(MOD, "ClusterStatus")
    for s in e.enum_members():
        w = World(c, (200,), data={**MSG, "status": s, "dashboard_route": "/d" if s == "RUNNING" else None})
        f, outs = w.call("get_cluster", const("c1"))
        for o in outs:
            what = f"a reply about a cluster that is {s}"
            if not c.require(o.kind == "ret", "RESULT", f.qual, f"{what}: fails", key="status fails"):
                continue
            a = o.st.obj(o.val).attrs
            v = a.get("status")
            c.require(v is not None and v.k == "enum" and v.a[1] == s, "RESULT", f.qual, f"{what}: is reported as {show(v) if v is not None else None}", key="status")
            c.require((a.get("scheduler_address") is NONE) == (s != "RUNNING"), "RESULT", f.qual, f"{what}: the scheduler's address is {show(a.get('scheduler_address', NONE))}", key="status address")


def selected(c):
    """the statuses a listing is asked for"""
    for status, want in ((None, None), ("running", {"RUNNING"}), (["pending", "FAILED"], {"PENDING", "FAILED"})):
        w = World(c, (200,), data={})
        st = w.st.fork()
        f, outs = w.call("list_clusters", st=st, status=put(st, status))
        for o in outs:
            for e in requests(o):
                u = fields(e)[1]
                q = str(u.a[0]).partition("?")[2] if u is not None and u.k == "const" else "unknown"
                got = set(q.partition("=")[2].split(",")) if q else None
                c.require(got == want and (not q or q.startswith("status=")), "REQUEST", where(e), f"a listing of {status} asks for {q!r}", key="query")
                v = o.st.obj(o.val)
                c.require(o.kind == "ret" and v is not None and not v.segs, "RESULT", f.qual, "an empty listing is not empty", key="empty")


def waiting(c):
    """waiting for a cluster's start, over sequences of its status"""
    f = c.prog.cls(MOD, "Gateway").find_method("_wait_for_start")
    if f is None:
        raise Broken("the client does not wait for a cluster's start")
    e = c.prog.cls(MOD, "ClusterStatus")
    names = list(e.enum_members())
    for seq in [(a,) for a in names] + [("PENDING", a) for a in names] + [("timeout", a) for a in names] + [("STOPPING", a) for a in names] + [("PENDING", "timeout", "PENDING", a) for a in names]:
        w = World(c, (200,))
        base = w.results

        def results(I, st, name, func, args, kw, base=base, seq=seq):
            if name == "json" and w.reply_of(I.callee) is not None:
                i = int(w.reply_of(I.callee).a[0].split()[1])
                s = seq[i] if i < len(seq) else "timeout"
                return put(st, {**MSG, "status": s, "dashboard_route": None})
            if name == "request":
                i = st.ghost.get("n", 0)
                if i < len(seq) and seq[i] == "timeout":
                    st.ghost = {**st.ghost, "n": i + 1}
                    return V("never")
                if i >= len(seq):
                    st.ghost = {**st.ghost, "over": True}
                    return V("never")
            return base(I, st, name, func, args, kw)

        def raises(I, st, ev):
            if ev.get("result") is V("never"):
                return [("TimeoutError", True)] if not st.ghost.get("over") else [("asyncio.CancelledError", True)]
        w.I.results, w.I.raises_policy = results, raises
        w.I.unroll = len(seq) + 2
        g, outs = w.call("_wait_for_start", const("c1"))
        what = f"waiting for a cluster that is {', then '.join(s.lower() for s in seq)}"
        c.require(outs, "WAIT", g.qual, f"{what}: no outcome", key="none")
        ends = next((s for s in seq if s in ("RUNNING", "FAILED", "STOPPED")), None)
        for o in outs:
            over = o.st.ghost.get("over")
            if ends is None:
                c.require(over, "WAIT", g.qual, f"{what}: ends", key="early")
            elif ends == "RUNNING":
                d = o.st.obj(o.val) if o.kind == "ret" else None
                c.require(d is not None and d.kind == "inst" and show(d.attrs.get("status")).endswith("RUNNING"), "WAIT", g.qual, f"{what}: does not return its report", key="running")
            else:
                c.require(o.kind == "raise" and raised(o)[0] == CLUSTER, "WAIT", g.qual, f"{what}: does not fail with {CLUSTER}", key="failed")


def authenticators(c):
    """what each authenticator sends"""
    R = V("param", "challenge")
    for cls, attrs, want in (("BasicAuth", dict(username="al", password="p:w"), None), ("JupyterHubAuth", dict(api_token="tok"), "jupyterhub tok")):
        k = c.prog.cls(AUTH, cls)
        I = Interp(c.prog, c.types)
        st = I.new_state()
        from .optw import make
        ok, bad = make(I, st, k.qual, [], {a: v for a, v in attrs.items()})
        c.require(ok and not bad, "SCHEME", k.qual, f"{cls} cannot be made with {attrs}", key=f"{cls} made")
        f = k.find_method("pre_request")
        for s, x in ok:
            for o in I.run_function(f, [R], selfv=x, st=s.fork()):
                c.paths += 1
                h = o.val.a[0] if o.kind == "ret" and o.val.k == "tuple" and len(o.val.a) == 2 else None
                d = o.st.obj(h) if h is not None else None
                kv = {l[1].a[0]: l[2] for l in d.layers if l[0] == "kv"} if d is not None and d.kind == "dict" else {}
                v = kv.get("Authorization")
                c.require(list(kv) == ["Authorization"], "SCHEME", f.qual, f"{cls} sends the headers {list(kv)}", key=f"{cls} headers")
                if want is not None:
                    c.require(v is const(want), "SCHEME", f.qual, f"{cls} sends {show(v) if v is not None else None}", key=cls)
                else:
                    t = show(v) if v is not None else ""
                    c.require(t.startswith("'Basic '+") and "b64encode(b'al:p:w')" in t, "SCHEME", f.qual, f"{cls} sends {t}", key=cls)
        c.analysed(*I.inlined)
    k = c.prog.cls(AUTH, "KerberosAuth")
    I = Interp(c.prog, c.types)
    st = I.new_state()
    f = k.find_method("pre_request")
    n = 0
    for o in I.run_function(f, [R], selfv=st.alloc(Obj("inst", cls=k.qual, attrs={})), st=st):
        if o.kind != "ret":
            continue
        n += 1
        calls = [e for e in events(o.st.trace) if e.kind == "call"]
        init = [e for e in calls if e.get("name") == "authGSSClientInit"]
        step = [e for e in calls if e.get("name") == "authGSSClientStep"]
        h = o.st.obj(o.val.a[0]) if o.val.k == "tuple" else None
        kv = {l[1].a[0]: l[2] for l in h.layers if l[0] == "kv"} if h is not None and h.kind == "dict" else {}
        c.require(list(kv) == ["Authorization"] and len(h.layers) == 1, "SCHEME", f.qual, f"Kerberos sends the headers {list(kv)}", key="kerberos headers")
        v = kv.get("Authorization")
        c.require(init and contains(init[0].args[0], lambda y: y is const("HTTP@") or y.k == "const" and str(y.a[0]).startswith("HTTP@")) and "challenge.url.host" in show(init[0].args[0]), "SCHEME", f.qual, "the Kerberos service is not the gateway's host", key="kerberos service")
        c.require(step and v is not None and show(v).startswith("'Negotiate '+") and "authGSSClientResponse" in show(v), "SCHEME", f.qual, f"Kerberos sends {show(v) if v is not None else None}", key="kerberos")
    c.require(n, "SCHEME", f.qual, "Kerberos never authenticates", key="kerberos none")
    c.analysed(*I.inlined)
    # which authenticator a name stands for
    g = c.prog.func(AUTH, "get_auth") if hasattr(c.prog, "func") else next((x for x in c.prog.funcs.values() if x.qual == AUTH + ".get_auth"), None)
    for name, cls in (("kerberos", "KerberosAuth"), ("basic", "BasicAuth"), ("jupyterhub", "JupyterHubAuth")):
        I = Interp(c.prog, c.types, results=lambda I, st, n, func, a, kw: put(st, {}) if n == "get" and I.callee is not None and "config" in show(I.callee) else None)
        st = I.new_state()
        got = set()
        for o in I.run_function(g, [const(name)], st=st):
            c.paths += 1
            if o.kind == "ret":
                d = o.st.obj(o.val)
                got.add(d.cls.rsplit(".", 1)[-1] if d is not None and d.kind == "inst" else show(o.val))
        c.analysed(g, *I.inlined)
        c.require(got == {cls}, "SCHEME", g.qual, f"the authenticator named {name} is {sorted(got)}", key=f"name {name}")
    configured(c, g)


def configured(c, g):
    """an authenticator named and set up in the configuration"""
    for name, cls, kw in (("basic", "BasicAuth", {"username": "al", "password": "pw"}), ("jupyterhub", "JupyterHubAuth", {"api_token": "tok"})):
        def results(I, st, n, func, a, k):
            if n == "get" and a and a[0] is const("gateway.auth.type"):
                return const(name)
            if n == "get" and a and a[0] is const("gateway.auth.kwargs"):
                return put(st, kw)
        I = Interp(c.prog, c.types, results=results)
        n = 0
        for o in I.run_function(g, [], st=I.new_state()):
            c.paths += 1
            if o.kind != "ret":
                continue
            n += 1
            d = o.st.obj(o.val)
            a = d.attrs if d is not None and d.kind == "inst" else {}
            c.require(d is not None and d.kind == "inst" and d.cls == f"{AUTH}.{cls}" and all(a.get(k) is const(v) for k, v in kw.items()), "SCHEME", g.qual, f"the configured {name} authenticator is {show(o.val)} with {[k + '=' + show(v) for k, v in a.items()]}", key=f"configured {name}")
        c.require(n, "SCHEME", g.qual, f"the configured {name} authenticator cannot be made", key=f"configured {name} none")
        c.analysed(g, *I.inlined)


def run(c):
    c.rule("ONCE", "one request without a challenge, two with one, however the second is answered")
    c.rule("SAME", "the repeated request has the method, the address, the body and the proxy of the first")
    c.rule("CREDENTIALS", "only the repeated request carries credentials, the ones the authenticator made for the challenge, and the authenticator sees its reply")
    c.rule("REQUEST", "every operation sends its method, path and body to the gateway's address, through the configured proxy")
    c.rule("RAISE", "replies of status 400 and above are raised as documented with the reply's error text, no other is")
    c.rule("RESULT", "operations return what the reply reports")
    c.rule("WAIT", "waiting for a start returns when the cluster runs, fails when it failed or stopped, and otherwise goes on")
    c.rule("SCHEME", "every authenticator sends its credentials in its scheme")
    operations(c)
    statuses(c)
    selected(c)
    waiting(c)
    authenticators(c)
    for r, n in (("ONCE", 200), ("SAME", 100), ("CREDENTIALS", 400), ("REQUEST", 500), ("RAISE", 300), ("RESULT", 30), ("WAIT", 20), ("SCHEME", 9)):
        c.floor(r, n)
