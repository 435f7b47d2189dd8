"""C34: what a client-side cluster object does with its remote cluster and its resources.

Objects are made, started, used and closed in every documented way, over the wire
(the requests of the client are answered by the world), for every outcome of every
step of a start."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import where
from sa.state import Obj, Out, events
from sa.values import FALSE, NONE, TRUE, V, const, show
from .optw import Unknown, get, put
from .sched import At

MOD = "dask_gateway.client"
AUTH = "dask_gateway.auth"
ADDRESS = "http://gw:8000"
REPORT = dict(name="c9", options={}, start_time=1000, stop_time=None, dashboard_route="/d", tls_cert="crt", tls_key="key")
# the steps of a start, in their order, and how they may fail
STEPS = ("submit", "wait", "rpc", "live_comm", "write", "read")


class World:
    """`start`: (step, how) the start's failure; `stop`: status of the reply to the shutdown request"""

    def __init__(self, c, asynchronous, start=None, stop=204, client=None):
        self.c, self.start, self.stop, self.client = c, start, stop, client
        self.asynchronous = asynchronous
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.run_tasks = True
        I.unroll = 4
        self.auth = V("param", "auth")
        I.term_types[self.auth] = AUTH + ".GatewayAuth"
        st = self.st = I.new_state()
        st.ghost = {"tasks": {}}
        for v in (self.auth, V("param", "rpc"), V("param", "comm"), *(V("param", f"client {i}") for i in range(4))):
            st.facts = st.facts.assume(V("cmp", "is", v, NONE), False)
        k = c.prog.cls(MOD, "GatewayCluster")
        for n, x in k.assigns.items():    # what all objects of the class share
            if isinstance(x, ast.Call) and ast.unparse(x.func).rsplit(".", 1)[-1] in ("WeakSet", "set"):
                st.store = {**st.store, (V("cls", k.qual), n): st.alloc(Obj("list", lk="set", segs=()))}

    def opaque(self, f, recv):
        return f.name in ("pre_request", "post_response", "_config_cluster_options", "_get_default_request_kwargs", "get_auth", "get_connection_args")

    def results(self, I, st, name, func, args, kw):
        g = st.ghost
        callee = I.callee
        base = callee.a[0] if callee is not None and callee.k in ("attr", "bm") else None
        if base is not None and base.k == "task":
            if name == "cancel":
                st.ghost = {**g, "cancelling": (*g.get("cancelling", ()), base)}
                return TRUE
        if name == "request" and func is None:
            return self.request(I, st, args, kw)
        if name == "json" and base is not None and base.k == "param" and str(base.a[0]).startswith("reply "):
            kind = base.a[0].split()[1]
            if kind == "submit":
                return put(st, {"name": "c9"})
            if kind == "report":
                return put(st, {**REPORT, "status": "FAILED" if self.start == ("wait", "FAILED") else "STOPPED" if self.start == ("wait", "STOPPED") else "RUNNING"})
            return put(st, {"error": "no"})
        if name == "text":
            return const("no")
        if name == "raise_for_status" and base is not None:
            return V("never")
        if name in ("_config_cluster_options", "_get_default_request_kwargs"):
            return put(st, {})
        if name == "get" and callee is not None and "config" in show(callee):
            return NONE
        if name == "urlparse" and func is None:
            p = V("param", "parsed")
            st.store = {**st.store, (p, "netloc"): const("gw:8000"), (p, "scheme"): const("http"), (p, "port"): const(8000), (p, "hostname"): const("gw")}
            return p
        if name == "get_auth":
            return self.auth
        if name == "is_finalizing":
            return FALSE
        if name == "is_running":
            return TRUE
        if name == "rpc" and func is None:
            return self.step(st, "rpc", V("param", "rpc"))
        if base is V("param", "rpc") and name == "live_comm":
            return self.step(st, "live_comm", V("param", "comm"))
        if base is V("param", "comm") and name == "write":
            return self.step(st, "write", NONE)
        if base is V("param", "comm") and name == "read":
            if st.ghost.get("subscribed"):    # the watching task
                return V("never")
            st.ghost = {**st.ghost, "subscribed": True}
            return self.step(st, "read", put(st, {"workers": {}}))
        if base is V("param", "comm") and name == "close" or name == "sleep":
            return NONE
        if name == "Client" and func is None:
            n = st.ghost.get("clients", 0)
            st.ghost = {**st.ghost, "clients": n + 1}
            return V("param", f"client {n}")
        if base is not None and base.k == "param" and str(base.a[0]).startswith("client "):
            return V("never") if self.client == "fails" else NONE
        return None

    def step(self, st, step, ok):
        if self.start is not None and self.start[0] == step and not st.ghost.get("failed"):
            if self.start[1] not in ("FAILED", "STOPPED"):
                st.ghost = {**st.ghost, "failed": True}
            st.ghost = {**st.ghost, "how": self.start[1]}
            if self.start[1] not in ("FAILED", "STOPPED"):
                return V("never")
        return ok

    def request(self, I, st, args, kw):
        m, u = (list(args) + [None, None])[:2]
        m, u = kw.get("method", m), kw.get("url", u)
        if m is None or u is None or m.k != "const" or u.k != "const":
            raise Broken(f"a request of the client is not known: {show(m) if m else None} {show(u) if u else None}")
        m, u = m.a[0], u.a[0].split("?")[0]
        kind = {("POST", ADDRESS + "/api/v1/clusters/"): "submit", ("GET", ADDRESS + "/api/v1/clusters/c9"): "report", ("DELETE", ADDRESS + "/api/v1/clusters/c9"): "stop"}.get((m, u), "other")
        n = st.ghost.get("n", 0)
        st.ghost = {**st.ghost, "n": n + 1, "wire": (*st.ghost.get("wire", ()), kind if kind != "other" else f"{m} {u}")}
        r = V("param", f"reply {kind} {n}")
        status = 200
        if kind == "stop":
            if self.stop == "error":
                st.ghost = {**st.ghost, "how": "OSError"}
                return V("never")
            status = self.stop
        if kind in ("submit", "report"):
            k = "wait" if kind == "report" else "submit"
            x = self.step(st, k, r)
            if x is not r:
                if isinstance(self.start[1], int):
                    status = self.start[1]
                else:
                    return x
        st.store = {**st.store, (r, "status"): const(status), (r, "ok"): const(status < 400)}
        return r

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            n = ev.get("name")
            if n == "raise_for_status":
                return [("aiohttp.ClientResponseError", True)]
            if n == "read" and st.ghost.get("subscribed") and ev.get("result") is V("never") and not (st.ghost.get("how") and self.start and self.start[0] == "read"):
                return [("asyncio.CancelledError", True)]
            if self.client == "fails" and n in ("_close", "close"):
                return [("Exception", True)]
            return [(st.ghost.get("how") if isinstance(st.ghost.get("how"), str) else "Exception", True)]

    # -- what a user does ------------------------------------------------
    def make(self, how, flag):
        """new cluster objects: through the constructor, the gateway, or for an existing cluster"""
        kw = {"address": const(ADDRESS), "auth": self.auth, "asynchronous": const(self.asynchronous)}
        if flag is not None:
            kw["shutdown_on_close"] = const(flag)
        k = self.c.prog.cls(MOD, "GatewayCluster")
        st = self.st.fork()
        if how == "from_name":
            f = k.find_method("from_name")
            outs = self.I.run_value(V("bound", V("cls", k.qual), f.qual), [const("c9")], st, kw, awaited=False)
        elif how == "new":
            outs = self.I.run_value(V("cls", k.qual), [], st, kw, awaited=False)
        else:
            g = self.c.prog.cls(MOD, "Gateway")
            outs = []
            for o in self.I.run_value(V("cls", g.qual), [], st, {x: y for x, y in kw.items() if x != "shutdown_on_close"}, awaited=False):
                if o.kind != "ret":
                    raise Broken("the client cannot be made")
                f = g.find_method(how)
                outs += self.I.run_value(V("bound", o.val, f.qual), [const("c9")] if how == "connect" else [], o.st, {x: y for x, y in kw.items() if x == "shutdown_on_close"}, awaited=False)
        self.c.paths += len(outs)
        self.c.analysed(k.find_method("__init__"), *self.I.inlined)
        return outs

    def do(self, o, name, *args, **kw):
        k = self.c.prog.cls(MOD, "GatewayCluster")
        f = k.find_method(name)
        if f is None:
            raise Broken(f"the cluster object has no {name}")
        outs = self.I.run_value(V("bound", o.val, f.qual), list(args), o.st.fork(), kw)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return outs


def called(o, name, base=None, since=0):
    return [e for e in events(o.st.trace)[since:] if e.kind == "call" and e.get("name") == name and (base is None or base_of(e) is base)]


def base_of(e):
    f = e.get("callee")
    return f.a[0] if f is not None and f.k in ("attr", "bm") and f.a else None


def the_object(o):
    """the cluster object of a path"""
    return next((x for x in o.st.heap.values() if x.kind == "inst" and x.cls == MOD + ".GatewayCluster"), None)


def ended(c, o, stops, what, key, rid=None, client=None, flight=False):
    """the state after a close: the remote cluster was asked to stop exactly `stops` times, and nothing is left"""
    q = MOD + ".GatewayCluster"
    wire = o.st.ghost.get("wire", ())
    n = wire.count("stop")
    c.require(n >= 1 if stops else n == 0, rid or ("ASK" if stops else "KEEP"), q, f"{what}: the gateway is {'not ' if stops else ''}asked to stop the remote cluster", key=key)
    other = [x for x in wire if x not in ("submit", "report", "stop")]
    c.require(not other, "ASK", q, f"{what}: sends {other}", key="other")
    d = the_object(o)
    st = d.attrs.get("status")
    c.require(st is const("closed"), "END", q, f"{what}: its status is {show(st) if st is not None else None}", key="status")
    left(c, o, what, client, flight)


def left(c, o, what, client=None, flight=False):
    q = MOD + ".GatewayCluster"
    evs = events(o.st.trace)
    for e in evs:
        if e.kind == "call" and e.get("name") == "ClientSession":
            c.require(closed_later(evs, e, ("close",)), "END", where(e), f"{what}: an HTTP session is left open", key="session")
        if e.kind == "call" and e.get("result") is V("param", "rpc"):
            c.require(closed_later(evs, e, ("close_rpc", "close")), "END", where(e), f"{what}: the connection to the scheduler is left open", key="rpc")
        if e.kind == "call" and e.get("result") is not None and e.get("result").k == "param" and str(e.get("result").a[0]).startswith("client ") and client != "fails":
            c.require(closed_later(evs, e, ("_close", "close")), "END", where(e), f"{what}: a client is left open", key="client")
        if e.kind == "spawn" and e.get("task") is not None:
            t = e.get("task")
            c.require(t in o.st.ghost["tasks"], "END", where(e), f"{what}: a task is left running", key="task")
            out = o.st.ghost["tasks"].get(t)
            if out is not None and out.kind != "ret" and out.val.k == "exc" and "CancelledError" in out.val.a[0] and not (o.st.ghost.get("failed") and not flight):
                c.require(t in o.st.ghost.get("cancelling", ()), "END", where(e), f"{what}: waits for a task it does not cancel", key="cancel")


def closed_later(evs, e, names):
    i = next(k for k, x in enumerate(evs) if x is e)
    return any(x.kind == "call" and x.get("name") in names and base_of(x) is e.get("result") for x in evs[i:])


WAYS = (("close()", "close", {}), ("close(shutdown=True)", "close", {"shutdown": True}), ("close(shutdown=False)", "close", {"shutdown": False}), ("shutdown()", "shutdown", {}), ("leaving its context", "exit", {}))
LATE = (("being garbage collected", "__del__", {}), ("the interpreter's exit", "atexit", {}))


def way(w, o, name, kw, error=False):
    if name == "exit":
        args = [NONE, NONE, NONE] if not error else [V("builtin", "ValueError"), V("param", "error"), V("param", "traceback")]
        return w.do(o, "__aexit__" if w.asynchronous else "__exit__", *args)
    if name == "atexit":
        f = next((f for f in w.c.prog.funcs.values() if f.module.name == MOD and f.cls is None and any("atexit" in ast.unparse(d) for d in f.node.decorator_list)), None)
        if f is None:
            raise Broken("nothing is registered for the interpreter's exit")
        w.c.analysed(f)
        return [type(x)(x.kind, x.st, o.val) for x in w.I.run_function(f, [], st=o.st.fork())]
    return w.do(o, name, **{k: const(v) for k, v in kw.items()})


def wanted(kw, name, flag):
    return True if name == "shutdown" else kw["shutdown"] if "shutdown" in kw else flag


def begin(c, asynchronous, how, flag, **kw):
    """a world and the paths on which its object has started"""
    w = World(c, asynchronous, **kw)
    outs = []
    for o in w.make(how, flag):
        if o.kind == "ret" and asynchronous:
            outs += [type(x)(x.kind, x.st, o.val) for x in w.do(o, "__aenter__")]
        else:
            outs.append(o)
    if not outs:
        raise Broken(f"a cluster object ({how}) cannot be made")
    return w, outs


def default(how):
    return how in ("new", "new_cluster")


def lives(c):
    """make, start and close, in every documented way"""
    for asynchronous in (False, True):
        for how in ("new", "new_cluster", "from_name", "connect"):
            for flag in (None, True, False):
                w, outs = begin(c, asynchronous, how, flag)
                eff = default(how) if flag is None else flag
                mode = f"{'an asynchronous' if asynchronous else 'a'} cluster object ({how}, shutdown_on_close {'not given' if flag is None else flag})"
                for o in outs:
                    if not c.require(o.kind == "ret", "START", MOD + ".GatewayCluster", f"{mode}: its start fails", key="fails"):
                        continue
                    wire = o.st.ghost.get("wire", ())
                    new = default(how)
                    c.require(wire == (("submit",) if new else ()) + ("report",), "START", MOD + ".GatewayCluster", f"{mode}: its start sends {wire}", key="wire")
                    a = the_object(o).attrs
                    c.require(a.get("name") is const("c9") and a.get("status") is const("running"), "START", MOD + ".GatewayCluster", f"{mode}: after its start it is named {show(a.get('name', NONE))} and {show(a.get('status', NONE))}", key="state")
                    for text, name, kw in WAYS + (() if asynchronous else LATE):
                        for error in ((False, True) if name == "exit" else (False,)):
                            if name == "atexit" and (flag is not None) and how in ("new_cluster", "connect"):
                                continue
                            x = type(o)("ret", o.st, o.val)
                            for p in way(w, x, name, kw, error):
                                what = f"{mode}, {text}{' after an error' if error else ''}"
                                if c.require(p.kind == "ret", "CLOSE", MOD + ".GatewayCluster", f"{what}: fails", key="raises"):
                                    ended(c, p, wanted(kw, name, eff), what, f"{name} {asynchronous}")
                                    if how == "new" and not error:
                                        again(c, w, type(p)("ret", p.st, o.val), what, wanted(kw, name, eff), eff)


def again(c, w, o, what, asked, eff):
    """closing once more"""
    q = MOD + ".GatewayCluster"
    for text, name, kw in WAYS[:1] + WAYS[2:3] + WAYS[4:] + (() if w.asynchronous else LATE):
        for p in way(w, o, name, kw):
            t = f"{what}, then {text}"
            if c.require(p.kind == "ret", "AGAIN", q, f"{t}: fails", key="raises"):
                n = p.st.ghost.get("wire", ()).count("stop")
                c.require(n == 0 or asked or eff and "shutdown" not in kw, "AGAIN", q, f"{t}: the remote cluster is asked to stop", key="stops")
                left(c, p, t)


def asynchronous_late(c):
    """an asynchronous object is not closed behind its user's back"""
    w, outs = begin(c, True, "new", None)
    for o in outs:
        for text, name, kw in LATE:
            for p in way(w, o, name, kw):
                c.require(p.kind == "ret" and p.st.ghost.get("wire", ()).count("stop") == 0, "KEEP", MOD + ".GatewayCluster", f"an asynchronous cluster object, {text}: is closed", key=f"late {name}")


FAILURES = [("submit", "OSError"), ("submit", 500), ("submit", "asyncio.CancelledError"), ("wait", "FAILED"), ("wait", "STOPPED"), ("wait", "OSError"), ("wait", 500), ("wait", 404), ("wait", "asyncio.CancelledError"),
            ("rpc", "ValueError"), ("live_comm", "asyncio.CancelledError"), ("write", "asyncio.CancelledError"), ("read", "asyncio.CancelledError")]
TOLERATED = [("live_comm", "OSError"), ("write", "OSError"), ("read", "OSError")]


def failures(c):
    """a start that fails or is interrupted"""
    for asynchronous in (False, True):
        for how in ("new", "from_name"):
            for flag in (None, True, False):
                eff = default(how) if flag is None else flag
                for step in FAILURES:
                    if how != "new" and step[0] == "submit":
                        continue
                    w, outs = begin(c, asynchronous, how, flag, start=step)
                    what = f"{'an asynchronous' if asynchronous else 'a'} cluster object ({how}, shutdown_on_close {'not given' if flag is None else flag}) whose start ends with {step[1]} at {step[0]}"
                    for o in outs:
                        if c.require(o.kind == "raise", "FAIL", MOD + ".GatewayCluster", f"{what}: the failure is not reported", key="reported"):
                            ended(c, o, eff and not (step[0] == "submit"), what, f"failed {asynchronous} {step[0]}", rid="FAIL")
                for step in TOLERATED:
                    w, outs = begin(c, asynchronous, how, flag, start=step)
                    what = f"a cluster object whose start meets {step[1]} at {step[0]}"
                    for o in outs:
                        if o.kind == "raise":
                            ended(c, o, eff, what, f"tolerated {step[0]}", rid="FAIL")
                            continue
                        for p in way(w, o, "close", {}):
                            if c.require(p.kind == "ret", "CLOSE", MOD + ".GatewayCluster", f"{what}, close(): fails", key="raises"):
                                ended(c, p, eff, what + ", close()", f"tolerated {step[0]}", rid="FAIL")


def in_flight(c):
    """closing an object that is still starting (asynchronous), or was never started"""
    for how in ("new", "from_name"):
        for flag in (None, True, False):
            eff = default(how) if flag is None else flag
            for step in (None, *[(s, "asyncio.CancelledError") for s in STEPS if s != "rpc"]):
                if how != "new" and step and step[0] == "submit":
                    continue
                w = World(c, True, start=step)
                parked = []
                for o in w.make(how, flag):
                    if step is not None:
                        def park(I, st, t):
                            parked.append(type(o)("ret", st, o.val))
                            return True
                        w.I.park = park
                        w.do(o, "__aenter__")
                        w.I.park = None
                    else:
                        parked.append(o)
                if not parked:
                    raise Broken("a start does not wait for its task")
                known = how == "from_name" or step is not None and step[0] != "submit"
                for o in parked:
                    for text, name, kw in WAYS:
                        what = f"an asynchronous cluster object ({how}, shutdown_on_close {'not given' if flag is None else flag}) that " + (f"is starting ({step[0]})" if step else "was never started") + f", {text}"
                        for p in way(w, o, name, kw):
                            if c.require(p.kind == "ret", "CLOSE", MOD + ".GatewayCluster", f"{what}: fails", key="raises"):
                                ended(c, p, wanted(kw, name, eff) and known, what, f"flight {step and step[0]}", rid="FLIGHT", flight=True)


def interrupted(c):
    """closing an object whose user has been interrupted while it was starting"""
    for how, flag, step in [(h, f, (s, "asyncio.CancelledError")) for h in ("new", "from_name") for f in (None, False) for s in STEPS if s != "rpc"]:
        if how == "new" or step[0] != "submit":
            w = World(c, False, start=step)
            parked = []

            def park(I, st, t):
                if t.a[0] is not None and not st.ghost.get("outer"):
                    st.ghost = {**st.ghost, "outer": True}    # the caller's own wait
                    return False
                parked.append(st)
                return True
            w.I.park = park
            w.make(how, flag)
            w.I.park = None
            if not parked:
                raise Broken("a start does not wait for its task")
            for st in parked:
                ref = next(V("ref", i) for i, x in st.heap.items() if x.kind == "inst" and x.cls == MOD + ".GatewayCluster")
                for text, name, kw in WAYS + LATE:
                    what = f"a cluster object ({how}, shutdown_on_close {'not given' if flag is None else flag}) whose start is interrupted ({step[0]}), {text}"
                    for p in way(w, Out("ret", st, ref), name, kw):
                        if c.require(p.kind == "ret", "CLOSE", MOD + ".GatewayCluster", f"{what}: fails", key="raises"):
                            n = p.st.ghost.get("wire", ()).count("stop")
                            want = step[0] != "submit" and wanted(kw, name, flag is None and default(how))
                            c.require((n >= 1) == bool(want), "FLIGHT", MOD + ".GatewayCluster", f"{what}: the gateway is {'not ' if not n else ''}asked to stop the remote cluster", key=f"interrupted {step[0]}")


def refused(c):
    """the shutdown request fails"""
    for asynchronous in (False, True):
        for stop in (500, 404, 403, "error"):
            w, outs = begin(c, asynchronous, "new", None, stop=stop)
            for o in outs:
                for text, name, kw in WAYS + (() if asynchronous else LATE):
                    if kw.get("shutdown") is False:
                        continue
                    what = f"{'an asynchronous' if asynchronous else 'a'} cluster object, {text}, and the shutdown request ends with {stop}"
                    for p in way(w, o, name, kw):
                        if c.require(p.kind == "ret", "REFUSED", MOD + ".GatewayCluster", f"{what}: the close fails", key="fails"):
                            ended(c, p, True, what, f"refused {name}", rid="REFUSED")


def clients(c):
    """clients of the object are closed with it"""
    for k in (1, 2):
        for fails in (None, "fails"):
            w, outs = begin(c, False, "new", None, client=fails)
            for o in outs:
                cur = [o]
                for j in range(k):
                    cur = [type(o)(x.kind, x.st, o.val) for y in cur for x in w.do(y, "get_client", **({"set_as_default": FALSE} if j == 0 else {}))]
                if not cur:
                    raise Broken("an object makes no client")
                for y in cur:
                    for text, name, kw in WAYS + LATE:
                        what = f"a cluster object with {k} clients{' that fail to close' if fails else ''}, {text}"
                        for p in way(w, y, name, kw):
                            if c.require(p.kind == "ret", "CLOSE", MOD + ".GatewayCluster", f"{what}: fails", key="raises") and not fails:
                                ended(c, p, wanted(kw, name, True), what, f"clients {name}")
                            elif p.kind == "ret":
                                left(c, p, what, "fails")
                                n = p.st.ghost.get("wire", ()).count("stop")
                                c.require((n >= 1) == bool(wanted(kw, name, True)), "ASK", MOD + ".GatewayCluster", f"{what}: the gateway is {'not ' if not n else ''}asked to stop the remote cluster", key=f"clients fail {name}")


def run(c):
    c.rule("START", "a start submits a new cluster once, and an existing one never, and ends with the object running")
    c.rule("ASK", "a close that shuts down asks the gateway to stop the remote cluster, by its name")
    c.rule("KEEP", "a close that does not shut down leaves the remote cluster alone")
    c.rule("END", "after a close no task, scheduler connection, client or HTTP session of the object is left")
    c.rule("CLOSE", "a close does not fail")
    c.rule("AGAIN", "closing a closed object is harmless")
    c.rule("FAIL", "a start that fails or is interrupted reports it and closes the object in the same way")
    c.rule("FLIGHT", "so does closing an object that is still starting or was never started")
    c.rule("REFUSED", "a failing shutdown request does not fail the close")
    lives(c)
    asynchronous_late(c)
    failures(c)
    in_flight(c)
    interrupted(c)
    refused(c)
    clients(c)
    for r, n in (("START", 40), ("ASK", 40), ("KEEP", 40), ("END", 500), ("CLOSE", 100), ("AGAIN", 50), ("FAIL", 100), ("FLIGHT", 100), ("REFUSED", 40)):
        c.floor(r, n)
