"""C31, the gateway and its proxy: the proxy (Go) is started as the gateway (Python)
starts it and talks to the gateway's own routing endpoint."""
import ast
from urllib.parse import parse_qsl, urlparse, urlsplit

from sa.gossa import State
from sa.interp import Interp
from sa.program import Broken
from sa.query import ext_name, subterms
from sa.state import Obj, events
from sa.values import NONE, TRUE, V, const, enum, show

from .c21 import ask_http, ask_tcp, handlers
from .goproxy import Clients, started
from .optw import Unknown, get, put
from .sched import At
from .wire import plain, value_deep

B = "dask_gateway_server.backends."
P = "dask_gateway_server.proxy.core"
REQ = V("param", "request")
CODES = {"HTTPGone": 410, "HTTPUnauthorized": 401, "HTTPUnprocessableEntity": 422, "HTTPNotFound": 404}
GW = "gw.example:8001"


def known(st, v):
    try:
        return plain(value_deep(st, v))
    except Unknown as e:
        return f"?{e}"


class Gate:
    """the Python end: the object `proxy` of a gateway"""

    def __init__(self, c, **conf):
        self.c, self.conf = c, conf
        self.k = c.prog.cls(P, "Proxy")
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=lambda f, recv: f.name in ("do_stop_cluster", "start_proxy_process", "monitor_proxy_process", "spawn") or f.cls is not None and f.cls.name in ("DataManager", "CancelGroup", "TaskPool", "Flag", "WorkQueue"))
        I.unroll = 12
        I.environ = {"HOME": "/root"}
        st = I.new_state()
        st.ghost = {"queue": (), "left": 0}
        d = {"address": ":8000", "tcp_address": ":8786", "gateway_url": "http://" + GW, "api_token": "sekrit", "log_level": "warn", "tls_cert": "", "tls_key": "", "prefix": "", "max_events": 100, "externally_managed": True, **conf}
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={**{k: const(v) for k, v in d.items()}, "log": V("param", "log"), "parent": V("param", "parent")}))
        outs = self.call(st, "setup", V("param", "app"))
        self.setup = outs
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Broken(f"the proxy's set-up ends in {len(outs)} ways")
        self.st = outs[0].st

    def results(self, I, st, name, func, args, kw):
        callee = I.callee
        if name in ("urlparse", "urlsplit") and func is None:
            a = get(st, args[0])
            u = urlparse(a)
            r = V("param", f"url {a}")
            st.store = {**st.store, **{(r, x): const(getattr(u, x)) for x in ("scheme", "hostname", "port", "path", "netloc", "query")}}
            return r
        base = callee.a[0] if callee is not None and callee.k in ("attr", "bm") else None
        q = base is not None and base.k == "call" and (ext_name(base) or "").endswith("asyncio.Queue")
        if q and name == "put_nowait":
            st.ghost = {**st.ghost, "queue": (*st.ghost["queue"], ("py", args[0]))}
            return NONE
        if q and name == "get":
            todo = st.ghost["queue"] or tuple(("json", x) for x in st.ghost.get("more", ()))
            if not st.ghost["queue"] and todo:
                st.ghost = {**st.ghost, "more": ()}
            if not todo:
                return V("never")
            st.ghost = {**st.ghost, "queue": todo[1:]}
            return put(st, todo[0][1]) if todo[0][0] == "json" else todo[0][1]
        return None

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            return [("asyncio.CancelledError", True)]

    def call(self, st, name, *args, **kw):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"Proxy has no {name}")
        outs = self.I.run_value(V("bound", self.S, f.qual), list(args), st, kw, awaited=True)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return outs

    def backend(self, st, name, cluster):
        """a step of the database backends for a cluster: the state after it"""
        k = self.c.prog.cls(B + "local", "LocalBackend")
        f = k.find_method(name)
        if f is None:
            raise Broken(f"the backend has no {name}")
        js = self.c.prog.cls(B + "db_base", "JobStatus")
        st = st.fork()
        status = enum(js.qual, "RUNNING", js.enum_members()["RUNNING"])
        cl = st.alloc(Obj("inst", cls=B + "db_base.Cluster", attrs={**{x: const(y) for x, y in cluster.items()}, "status": status, "target": status, "added_to_proxies": const(False), "workers": put(st, {}), "ready": V("param", "ready"), "shutdown": V("param", "shutdown")}))
        be = st.alloc(Obj("inst", cls=k.qual, attrs={"proxy": self.S, "db": V("param", "db"), "log": V("param", "log"), "queue": V("param", "queue")}))
        outs = [o for o in self.I.run_function(f, [cl], selfv=be, st=st) if o.kind == "ret"]
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        if not outs:
            raise Broken(f"{name} has no path")
        return outs[0].st

    def cast(self, st, name, cluster):
        """what a watcher gets meanwhile"""
        st = st.fork()
        w = V("param", "watcher")
        p = st.obj(self.S)
        st.setobj(self.S, p.replace(attrs={**p.attrs, "_watchers": st.alloc(Obj("list", lk="set", segs=(("one", w),)))}))
        upto = st.trace
        o = self.backend(st, name, cluster)
        return [known(At(e.heap), e.args[0]) for e in events(o.trace, upto) if e.kind == "call" and e.get("name") == "put_nowait" and e.callee.k in ("attr", "bm") and e.callee.a[0] is w]

    def serve(self, st, query, headers, more=()):
        """what the endpoint answers: [(status, json, [lines])]; `more`: what is broadcast to the watcher then"""
        s = st.fork()
        s.ghost = {**s.ghost, "queue": (), "more": tuple(more)}
        hs = {}
        for k, v in headers.items():
            hs[k.title()] = hs[k.lower()] = v
        s.store = {**s.store, (REQ, "query"): put(s, query), (REQ, "headers"): put(s, hs), (REQ, "app"): V("param", "app")}
        upto = s.trace
        out = []
        for o in self.call(s, "routes_handler", REQ):
            lines, status, data = [], None, None
            seen = 0
            for e in events(o.st.trace, upto):
                if e.kind == "call" and e.get("name") == "write" and e.args:
                    lines.append(self.line(At(e.heap), e.args[0]))
                if e.kind == "call" and e.get("name") == "json_response" and e.get("result") is o.val:
                    status, data = 200, known(At(e.heap), e.args[0] if e.args else e.kwargs["data"])
                if e.kind == "call" and e.get("name") == "StreamResponse":
                    status = 200
            if o.kind != "ret" and not lines:
                x = o.st.obj(o.val)
                n = o.val.a[0] if o.val.k == "exc" else x.cls if x is not None and x.kind == "inst" else ext_name(o.val) or ""
                status = CODES.get(n.rsplit(".", 1)[-1], status or 500)
            if data is None and status == 200 and (o.st.ghost["queue"] or o.st.ghost["more"]):
                continue
            out.append((status, data, lines))
        return out

    def line(self, h, v):
        d = [x for x in subterms(v) if x.k == "call" and (ext_name(x) or "") == "json.dumps"]
        end = any(x.k == "const" and isinstance(x.a[0], (bytes, str)) and x.a[0][-1:] in (b"\n", "\n") for x in subterms(v))
        if len(d) != 1:
            return ("other", show(v), end)
        return ("json", known(h, d[0].a[1][0]), end)


class Go(Clients):
    """the proxy with a gateway whose end is served by `Gate`; ``steps``: for each request, the state it meets and what is
    broadcast to it as a watcher"""

    def __init__(self, gate, steps, flags, env, **kw):
        super().__init__(listens=False, flags=flags, env=env, **kw)
        self.flags = flags
        self.gate, self.steps = gate, steps

    def reply(self, I, st, n, method, url, headers):
        say = lambda key, text: st.ghost.__setitem__("faults", st.ghost.get("faults", ()) + ((key, text),))
        if not isinstance(url, str):
            raise Broken(f"the proxy asks for {url!r}")
        u = urlsplit(url)
        if n >= len(self.steps):
            return None
        if f"{u.scheme}://{u.netloc}{u.path}" != f"http://{GW}/api/v1/routes":
            say("url", f"asks {url}")
        if not any(p == u.path and m == method.lower() for m, p in self.gate_routes()):
            say("served", f"{method} {u.path} is not served")
        hs = {k: v[0] for k, v in headers.items()}
        py, more = self.steps[n]
        query = dict(parse_qsl(u.query))
        got = self.gate.serve(py, query, hs, more)
        if len({str(x) for x in got}) != 1:
            raise Broken(f"the endpoint answers in {len(got)} ways: {got}")
        status, data, lines = got[0]
        st.ghost["asked"] = st.ghost.get("asked", ()) + ((("watch" if "watch" in query else "table"), status),)
        if status != 200:
            if status in (401, 422, 404, 500, None):
                say("refused", f"{method} {url} is answered {status}")
            return ("status", status or 500)
        if data is not None:
            if not isinstance(data, dict):
                say("reply", f"the reply is {data}")
                return ("garbage",)
            return ("json", data)
        return ("lines", lines)

    def extra(self, I, st, name, args, ins, f):
        if name in ("(*os.File).Read", "io.Copy", "io.ReadAll", "(*bufio.Reader).ReadByte") and f is not None and not self.conn_of(st, args[-1]):
            st.trace.append({"kind": "stdin"})
            eof = I.load(st, I.glob(st, {"f": "io.EOF", "t": "*error"}))
            return [((0, eof), st)] if name == "(*os.File).Read" else [((0, None), st)]
        return super().extra(I, st, name, args, ins, f)

    def gate_routes(self):
        out = []
        for e in events(self.gate.setup[0].st.trace):
            a = [x.a[0] for x in e.args or () if x.k == "const"] if e.kind == "call" else []
            n = (e.get("name") or "").removeprefix("add_")
            if n == "route" and len(a) >= 2:
                out.append((a[0].lower(), a[1]))
            elif n in ("get", "post", "put", "patch", "delete", "view") and a:
                out.append((n, a[0]))
        return out

    def answer(self, I, st, req):
        """as World.answer, with JSON as the Python end gives it"""
        box = {}
        base = self.reply

        def reply(I, st, n, method, url, headers):
            a = base(I, st, n, method, url, headers)
            if a and a[0] in ("json", "lines"):
                box["a"] = a
                return ("events", [], "end")
            return a
        self.reply = reply
        try:
            out = super().answer(I, st, req)
        finally:
            del self.reply
        if "a" in box:
            n = st.ghost["n"] - 1
            from sa.gossa import Sym
            b = Sym("body", n)
            kind, x = box["a"]
            st.ghost[("todo", b)] = [("json", x)] if kind == "json" else [("json", l[1]) for l in x if l[0] == "json"]
            if kind == "lines":
                st.ghost["framed"] = st.ghost.get("framed", True) and all(l[2] for l in x)
        return out


def commands(c, gate, child):
    """the command line and environment the gateway starts its proxy with"""
    outs = gate.call(gate.st.fork(), "get_start_command", **({} if child is None else {"is_child_process": const(child)}))
    if len(outs) != 1:
        raise Broken("the proxy's command line has several forms")
    o = outs[0].st.obj(outs[0].val)
    items = [x[1] if x[0] == "one" else None for x in o.segs] if o is not None and o.kind == "list" else list(outs[0].val.a) if outs[0].val.k == "tuple" else None
    argv = [x is not None and known(outs[0].st, x) for x in items[1:]] if items and outs[0].kind == "ret" else None
    out = gate.call(gate.st.fork(), "get_start_env")
    if len(out) != 1:
        raise Broken("the proxy's environment has several forms")
    e = out[0].st.obj(out[0].val)
    env = {known(out[0].st, l[1]): known(out[0].st, l[2]) for l in e.layers if l[0] == "kv"} if e is not None and e.kind == "dict" and out[0].kind == "ret" else None
    return argv, env


def parse(c, q, argv, defined):
    """the command line as Go's flag package reads it"""
    flags, i = {}, 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if not a.startswith("-"):
            c.fail("PROXY", q, f"the proxy's command line {argv}: {a!r} ends its flags", key="flags end")
            break
        name, eq, val = a.lstrip("-").partition("=")
        if not c.require(name in defined, "PROXY", q, f"the proxy is started with -{name}, its flags are {sorted(defined)}", key="flag"):
            continue
        kind = defined[name]
        if kind == "BoolVar":
            flags[name] = val.lower() not in ("false", "0", "f") if eq else True
        else:
            if not eq:
                if i >= len(argv):
                    c.fail("PROXY", q, f"the proxy's flag -{name} has no value", key="flag value")
                    break
                val = argv[i]
                i += 1
            flags[name] = val
    return flags


def levels(k):
    """the values the log level can be given"""
    a = k.assigns.get("log_level")
    for n in ast.walk(a) if a is not None else ():
        if isinstance(n, (ast.List, ast.Tuple)) and n.elts and all(isinstance(x, ast.Constant) for x in n.elts):
            return [x.value for x in n.elts]
    raise Broken("the proxy's log levels are not known")


def cluster(n, a, dash=True):
    return {"name": n, "scheduler_address": f"tls://{a}:8786", "dashboard_address": f"http://{a}:8787" if dash else ""}


def proxy(c):
    c.rule("PROXY", "the proxy is started with flags it has, and serves the routes the gateway has")
    w0 = Clients(listens=False)
    w0.boot()
    defined = w0.defined
    conf = [{}, {"prefix": "/pre"}, {"tls_cert": "/c.pem", "tls_key": "/k.pem"}, *({"log_level": x} for x in levels(c.prog.cls(P, "Proxy"))), {"max_events": 4}, {"tcp_address": ":8000"}, {"max_events": 4, "prefix": "/pre"}]
    sent = sni(c)
    process(c)
    for n, x in enumerate(conf):
        gate = Gate(c, **x)
        f = gate.k.find_method("get_start_command")
        for child in (None, False):
            argv, env = commands(c, gate, child)
            what = f"the proxy with {x or 'defaults'}"
            if not c.require(isinstance(argv, list) and all(isinstance(a, str) for a in argv), "PROXY", f.qual, f"{what}: its command line is {argv}", key="argv"):
                continue
            if not c.require(isinstance(env, dict), "PROXY", f.qual, f"{what}: its environment is {env}", key="env"):
                continue
            flags = parse(c, f.qual, argv, defined)
            want = {"address": gate.conf.get("address", ":8000"), "tcp-address": gate.conf.get("tcp_address", ":8786")}
            for k, v in want.items():
                c.require(flags.get(k) == v, "PROXY", f.qual, f"{what}: is started with -{k} {flags.get(k)}, configured is {v}", key=k)
            c.require(bool(flags.get("is-child-process")) == (child is not False), "PROXY", f.qual, f"{what}: is started {'as' if flags.get('is-child-process') else 'not as'} a child", key="child")
            follow(c, gate, flags, env, what, sent, full=child is False)


def process(c):
    """the process the gateway starts"""
    gate = Gate(c)
    I = Interp(c.prog, c.types, opaque=lambda f, recv: False)
    I.environ = {"HOME": "/root"}
    f = gate.k.find_method("start_proxy_process")
    if f is None:
        raise Broken("Proxy has no start_proxy_process")
    argv, env = commands(c, gate, None)
    n = 0
    for o in I.run_function(f, [], selfv=gate.S, st=gate.st.fork()):
        c.paths += 1
        for e in events(o.st.trace):
            if e.kind == "call" and e.get("name") == "Popen":
                n += 1
                h = At(e.heap)
                kw = e.get("kwargs") or {}
                x = h.obj(e.args[0] if e.args else kw["args"])
                got = [y[1] for y in x.segs][1:] if x is not None and x.kind == "list" else []
                got = [known(h, y) for y in got]
                c.require(got == argv, "PROXY", f.qual, f"the proxy is started with {got}, not {argv}", key="popen")
                if "-is-child-process" in got:
                    c.require("PIPE" in show(kw.get("stdin", NONE)), "PROXY", f.qual, "the proxy ends with its standard input, which is not a pipe of the gateway's", key="pipe")
                ex = h.obj(kw.get("env", NONE))
                ks = {known(h, l[1]) for l in ex.layers if l[0] == "kv"} if ex is not None and ex.kind == "dict" else set()
                c.require(set(env or ()) <= ks, "PROXY", f.qual, f"the proxy is given the variables {sorted(ks)}, not {sorted(env or ())}", key="popen env")
    c.analysed(f)
    c.require(n, "PROXY", f.qual, "the proxy is not started", key="popen none")


def follow(c, gate, flags, env, what, sent, full):
    q = gate.k.qual
    w = Clients(listens=False)
    for x in w.p.find("logging.ParseLevel"):
        for o in w.I.run(x, [flags.get("log-level")], w.I.init(State())):
            c.require(o.kind == "ret", "PROXY", q, f"{what}: the proxy does not know the log level {flags.get('log-level')}", key="level")
    ops = [("_check_cluster_proxied", cluster("c1", "10.0.0.1")), ("_check_cluster_proxied", cluster("c2", "10.0.0.2", dash=False)), ("_cluster_to_stopped", cluster("c1", "10.0.0.1")),
           ("_check_cluster_proxied", cluster("c1", "10.0.0.9")), ("_cluster_to_stopped", cluster("c2", "10.0.0.2", dash=False)), ("_check_cluster_proxied", cluster("c3", "10.0.0.3"))]
    S, cast, have = [gate.st], [], [{}]
    for op in ops:
        d = dict(have[-1])
        if op[0] == "_cluster_to_stopped":
            d.pop(op[1]["name"], None)
        else:
            d[op[1]["name"]] = op[1]
        have.append(d)
        cast.append(gate.cast(S[-1], *op))
        S.append(gate.backend(S[-1], *op))
    runs = [[0], [3], [0, 1], [1, 2, 3], [0, 3, 4, 6], [2, 2, 5, 6], [0, (0, 2), 3], [1, (2, 6)], [2, (2, 4), (4, 6)]] if full else [[0, 2]]
    if full and gate.conf.get("max_events") == 4:
        runs = [[0, 6, 6], [6, 6], [0, 6, 6, 6], [4, (4, 6), 6], [1, 5, 5, 6], [0, 1, 4, 4], [0, (1, 6), 6]]
    for run in runs:
        steps = [(S[i], ()) if isinstance(i, int) else (S[i[0]], [b for x in cast[i[0]:i[1]] for b in x]) for i in run]
        w = Go(gate, steps, dict(flags), dict(env))
        outs = w.boot()
        c.paths += len(outs)
        name = f"{what}, asking at {run}"
        ends = [o for o in outs if o.kind == "end"]
        for o in outs:
            c.require(o.kind == "end", "PROXY", "dask-gateway-proxy", f"{name}: the proxy ends: {o.kind} {o.val!r}", key="stops")
        for o in ends:
            for e in o.st.trace:
                if e["kind"] == "getenv" and e["name"].startswith("DASK_GATEWAY"):
                    c.require(e["name"] in env, "PROXY", q, f"{name}: the proxy reads {e['name']}, it is given {sorted(env)}", key="getenv")
            for key, text in o.st.ghost.get("faults", ()):
                c.fail("PROXY", q, f"{name}: the proxy {text}", key=key)
            asked = o.st.ghost.get("asked", ())
            c.require(len(asked) == len(run), "PROXY", q, f"{name}: the proxy asks {len(asked)} times", key="asks")
            c.require(o.st.ghost.get("framed", True), "PROXY", q, f"{name}: the changes are not sent line by line", key="lines")
            gone = [r for r in ended(w, o)]
            c.require(bool(gone) == bool(flags.get("is-child-process")), "PROXY", q, f"{name}: the proxy {'ends' if gone else 'does not end'} when its standard input ends", key="stdin")
            for a, b, (kind, status) in zip(run, run[1:], asked[1:]):
                if kind == "watch" and (a if isinstance(a, int) else a[1]) == (b if isinstance(b, int) else b[0]):
                    c.require(status == 200, "PROXY", q, f"{name}: the proxy, whose routes are up to date, is answered {status}", key="up to date")
            if asked and asked[-1][1] == 410:
                continue
            want = have[run[-1] if isinstance(run[-1], int) else run[-1][1]]
            http, tcp = handlers(w, o.st)
            pre = gate.conf.get("prefix", "")
            for p in (pre + "/clusters/c1/status", pre + "/clusters/c1", pre + "/clusters/c2/status", pre + "/clusters/c3/x", pre + "/api/v1/clusters/", "/"):
                x = next((d for n, d in want.items() if p == f"{pre}/clusters/{n}" or p.startswith(f"{pre}/clusters/{n}/")), None)
                to = x["dashboard_address"].split("://")[1] if x and x["dashboard_address"] else GW if p.startswith(pre + "/") else None
                for r in ask_http(w, http, p):
                    got = [e["host"] for e in r.st.trace if e["kind"] == "proxied"]
                    c.require(r.kind == "ret" and got == ([to] if to else []), "PROXY", q, f"{name}: {p} is served by {got or None}, it is to be {to}", key="path")
            for n in ("c1", "c2", "c3"):
                to = want[n]["scheduler_address"].split("://")[1] if n in want else None
                for r in ask_tcp(w, tcp, ("tls", sent[n])):
                    got = [e["addr"] for e in r.st.trace if e["kind"] == "dial"]
                    c.require(r.kind == "ret" and got == ([to] if to else []), "PROXY", q, f"{name}: a client of {n} is connected to {got or None}, it is to be {to}", key="name")


def ended(w, o):
    """the goroutines that end the process when the standard input ends"""
    for e in started(o.st):
        w.accepts, w.hello = [], ("short",)
        st = o.st.copy()
        st.trace, st.held = [], ()
        for r in w.I.run(w.p.funcs[e["callee"].f], e["args"], st, e["callee"].b):
            if any(x["kind"] == "stdin" for x in r.st.trace) and r.kind == "exit":
                yield r


def sni(c):
    """the server name a client's connection to a cluster asks for"""
    k = c.prog.cls("dask_gateway.comm", "GatewayConnector")
    f = k.find_method("connect")
    out = {}
    for n in ("c1", "c2", "c3"):
        def results(I, st, name, func, args, kw):
            if name in ("urlparse", "urlsplit") and func is None:
                u = urlparse(get(st, args[0]))
                r = V("param", "url")
                st.store = {**st.store, **{(r, x): const(getattr(u, x)) for x in ("scheme", "hostname", "port", "path", "netloc", "query")}}
                return r
        I = Interp(c.prog, c.types, results=results)
        st = I.new_state()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={}))
        got = set()
        for o in I.run_function(f, [const(f"gw.example:8786/{n}")], selfv=S, st=st):
            c.paths += 1
            for e in events(o.st.trace):
                if e.kind == "call" and e.get("name") == "start_tls":
                    got.add(known(At(e.heap), (e.get("kwargs") or {}).get("server_hostname", NONE)))
        c.analysed(f, *I.inlined)
        if not c.require(len(got) == 1, "PROXY", f.qual, f"a connection to {n} asks for the server names {got}", key="sni"):
            got = {f"daskgateway-{n}"}
        out[n] = got.pop()
    return out
