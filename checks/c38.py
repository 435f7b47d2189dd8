"""C38: a cluster is shut down for idleness only after the whole idle timeout.

The idle check is run over sequences of what it can find at its checks: workers
with and without tasks, tasks that wait for a worker, a last transition at any
distance around the timeout or none at all, and shutdown requests that fail."""
import itertools
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .cmds import commands, option
from .optw import make
from .sched import GW, MOD, SCHED, Plugin

NOW = 100000.0


class Idle(Plugin):
    """`finds[k]`: what check k finds, (tasks processing per worker, waiting tasks, seconds since the last transition or None, seconds since the start)"""

    def __init__(self, c, timeout):
        super().__init__(c, "ab", idle=timeout)
        self.finds, self.fails = (), ()
        self.I.raises_policy = self.raising

    def results(self, I, st, name, func, args, kw):
        if name == "sleep" and self.depth == 0:
            k = st.ghost.get("check", -1) + 1
            st.ghost = {**st.ghost, "check": k, "log": st.ghost.get("log", ()) + (("sleep", args[0] if args else None),)}
            if k >= len(self.finds):
                return V("never")
            self.arrange(st, *self.finds[k], k)
        if name == "time":
            # tornado's loop and distributed's metrics tell the time that the scheduler's log is kept in
            if I.callee is not None and show(I.callee) in ("scheduler.loop.time", "scheduler.io_loop.time", "time.time", "distributed.metrics.time"):
                return const(NOW + 10 * st.ghost.get("check", 0))
        if name == "shutdown" and func is not None and func.cls is not None and func.cls.name == "GatewayClient":
            k = st.ghost.get("check", 0)
            st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (("shutdown", k),)}
            if k in self.fails:
                return V("never")
        return super().results(I, st, name, func, args, kw)

    def raising(self, I, st, ev):
        if ev.get("result") is V("never"):
            return [("asyncio.CancelledError", True)] if ev.get("name") == "sleep" else [("Exception", True)]

    def arrange(self, st, processing, waiting, last, start, k):
        now = NOW + 10 * k
        d = st.store[(SCHED, "workers")]
        new = {}
        for a, n in zip("ab", processing):
            new[(self.ws[a], "processing")] = st.alloc(Obj("dict", layers=tuple(("kv", V("param", f"task {i}"), const(1)) for i in range(n))))
        new[(SCHED, "workers")] = st.alloc(Obj("dict", layers=tuple(("kv", const(a), self.ws[a]) for a, n in zip("ab", processing))))
        new[(SCHED, "unrunnable")] = st.alloc(Obj("dict", layers=tuple(("kv", V("param", f"waiting {i}"), const(1)) for i in range(waiting))))
        log = [] if last is None else [V("tuple", V("param", "key"), const("processing"), const("memory"), V("param", "recs"), V("param", "stimulus"), const(now - last - 5000)),
                                       V("tuple", V("param", "key2"), const("processing"), const("memory"), V("param", "recs"), V("param", "stimulus"), const(now - last))]
        new[(SCHED, "transition_log")] = st.alloc(Obj("list", segs=tuple(("one", x) for x in log)))
        new[(SCHED, "time_started")] = const(now - start)
        st.store = {**st.store, **new}

    def follow(self, finds, fails=()):
        self.finds, self.fails = finds, fails
        self.I.unroll = len(finds) + 2
        s = self.st.fork()
        s.ghost = {}
        f = self.k.find_method("check_idle")
        if f is None:
            raise Broken("the scheduler service has no check_idle")
        return self.I.run_function(f, [], selfv=self.S, st=s)


def idle(find, timeout):
    """whether what is found means idle for longer than the timeout (None: exactly as long)"""
    processing, waiting, last, start = find
    if any(processing) or waiting:
        return False
    for_ = last if last is not None else start
    return None if for_ == timeout else for_ > timeout


def follow(c, p, timeout, finds, fails=()):
    q = p.k.qual + ".check_idle"
    outs = p.follow(finds, fails)
    c.require(outs, "DOES", q, "the idle check has no outcome", key="none")
    for o in outs:
        c.paths += 1
        log = o.st.ghost.get("log", ())
        asked = {}
        for e in log:
            if e[0] == "shutdown":
                asked[e[1]] = asked.get(e[1], 0) + 1
            else:
                d = e[1]
                c.require(isinstance(d, V) and d.k == "const" and isinstance(d.a[0], (int, float)) and 0 < d.a[0] <= timeout, "PACE", q, f"the idle check sleeps for {show(d) if d else None} with a timeout of {timeout}", key="pace")
        for k, f in enumerate(finds):
            is_ = idle(f, timeout)
            what = f"with a timeout of {timeout}, {f[0]} tasks processing on its workers, {f[1]} waiting and the last transition {f[2]} s ago (started {f[3]} s ago)"
            if is_ is False:
                c.require(k not in asked, "ONLY", q, f"{what}: the cluster is shut down", key="only")
            elif is_:
                earlier = [j for j in range(k) if asked.get(j) and j not in fails]
                c.require(k in asked or earlier, "AGAIN" if k and set(range(k)) & set(fails) else "DOES", q, f"{what}: the cluster is not shut down" + (" after a failed request" if set(range(k)) & set(fails) else ""), key="does")
        c.require(-1 not in asked and asked.get(len(finds)) is None, "ONLY", q, "the cluster is shut down without a check", key="first")


def checks(c):
    finds = [(pr, w, last, start) for pr in ((), (0, 0), (1, 0), (0, 1), (2, 3)) for w in (0, 1) for last in (None, 0, 59.5, 60, 60.5, 5000) for start in (10, 59.5, 60.5, 5000)]
    p = Idle(c, 60)
    for f in finds:
        follow(c, p, 60, (f,))
    busy = [((1, 0), 0, 5000, 5000), ((0, 0), 1, 5000, 5000), ((0, 0), 0, 1, 5000), ((), 0, None, 10), ((), 0, 30, 5000)]
    idles = [((0, 0), 0, 61, 5000), ((), 0, None, 61), ((), 0, 4000, 4500)]
    for seq in itertools.product(busy + idles, repeat=2 if c.tier == "quick" else 3):
        follow(c, p, 60, seq)
        for k in range(len(seq)):
            if idle(seq[k], 60):
                follow(c, p, 60, seq, (k,))
    follow(c, p, 60, (idles[0],) * 5, (0, 1, 2))
    follow(c, p, 60, (idles[0], busy[0], busy[2], idles[1]), (0,))
    for timeout in (0.5, 1800):
        p = Idle(c, timeout)
        for last in (timeout - 0.1, timeout + 0.1):
            follow(c, p, timeout, (((0, 0), 0, last, 1e6),))
            follow(c, p, timeout, (((), 0, None, last),))
    c.analysed(*p.I.inlined)


def starts(c):
    """the check runs exactly when a timeout is configured"""
    for timeout in (0, -1, 0.5, 60):
        p = Plugin(c, "a", idle=timeout)
        f = p.k.find_method("listen")
        if f is None:
            raise Broken("the scheduler service has no listen")
        s = p.st.fork()
        old = len(events(s.trace))
        n = 0
        for o in p.I.run_function(f, [V("tuple", const(""), const(0))], selfv=p.S, st=s):
            if o.kind != "ret":
                continue
            n += 1
            c.paths += 1
            funcs = [spawned(e) for e in events(o.st.trace)[old:] if e.kind == "spawn"]
            got = any(x and x.endswith("check_idle") for x in funcs)
            c.require(got == (timeout > 0), "OFF", f.qual, f"with an idle timeout of {timeout} the idle check is {'' if got else 'not '}started", key="off")
        c.require(n, "OFF", f.qual, "the service never starts to listen", key="none")
        c.analysed(*p.I.inlined)
    callers = [f for f in c.prog.funcs.values() if f.module.name == MOD and f.cls is not None and f.cls.name != "GatewayClient" and f.name != "check_idle" and "gateway.shutdown" in ast_text(f)]
    for f in callers:
        c.require(called_by(c, f) <= {"check_idle"}, "OFF", f.qual, "the cluster is asked to shut down outside the idle check", key="elsewhere")


def ast_text(f):
    import ast
    return ast.unparse(f.node)


def called_by(c, f):
    return {g.name for g in c.prog.funcs.values() if g.module.name == MOD and g is not f and f"self.{f.name}(" in ast_text(g)}


def spawned(e):
    o = e.heap.get(e.get("coro").a[0]) if e.get("coro") is not None and e.get("coro").k == "ref" else None
    f = getattr(o, "func", None) if o is not None else None
    return f.qual if hasattr(f, "qual") else show(f) if isinstance(f, V) else str(f) if f else None


def deletes(c):
    """what GatewayClient.shutdown sends"""
    k = c.prog.cls(MOD, "GatewayClient")
    I = Interp(c.prog, c.types)
    st = I.new_state()
    N, T, U = V("param", "cluster"), V("param", "token"), V("param", "url")
    ok, bad = make(I, st, k.qual, [N, T, U], {})
    f = k.find_method("shutdown")
    n = 0
    for s, g in ok:
        for o in I.run_function(f, [], selfv=g, st=s.fork()):
            if o.kind != "ret":
                continue
            n += 1
            c.paths += 1
            evs = events(o.st.trace)
            reqs = [e for e in evs if e.kind == "call" and e.get("name") == "fetch"]
            c.require(len(reqs) == 1, "SENT", f.qual, "no single request is sent", key="one")
            for e in reqs:
                r = e.args[0] if e.args else None
                raw = {**(e.get("kwargs") or {})}
                for x in evs:
                    if x.kind == "call" and x.get("name") == "HTTPRequest" and r is not None and (x.result is r or contains(r, lambda y: y is x.result)):
                        raw = {**raw, **(x.get("kwargs") or {})}
                        for name, v in zip(("url", "method", "headers"), x.args):
                            raw.setdefault(name, v)
                url = raw.get("url", r)
                c.require(raw.get("raise_error", const(True)) is const(True), "SENT", where(e), "an error reply of the gateway is taken for success", key="raise")
                c.require(raw.get("method") is const("DELETE"), "SENT", where(e), "the request is not a DELETE", key="method")
                text = show(url) if url is not None else ""
                c.require(url is not None and contains(url, lambda y: y is N, e.heap) and contains(url, lambda y: y is U, e.heap) and "/v1/clusters/" in text, "SENT", where(e), f"the request goes to {text}", key="url")
                c.require("headers" in raw and contains(raw["headers"], lambda y: y is T, e.heap), "SENT", where(e), "the token is not sent", key="token")
    c.require(n, "SENT", f.qual, "a shutdown request never returns", key="none")
    c.analysed(*I.inlined)


def configured(c):
    """the option of the scheduler's preload becomes the service's timeout"""
    f = next((f for f in c.prog.funcs.values() if f.module.name == MOD and f.name == "dask_setup"), None)
    if f is None:
        raise Broken("the preload module has no dask_setup")
    cli = {"scheduler": SCHED, "dg_adaptive_period": const(3.0), "dg_heartbeat_period": const(15.0), "dg_idle_timeout": const(60.0), "dg_api_address": const(":0")}
    for t in (0.0, 60.0):
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("make_gateway_client", "listen"))
        n = 0
        for o in I.run_function(f, [], kwargs={**cli, "dg_idle_timeout": const(t)}, st=I.new_state()):
            if o.kind != "ret":
                continue
            n += 1
            c.paths += 1
            svc = [o.st.obj(V("ref", r)) for r in o.st.heap if o.st.heap[r].kind == "inst" and o.st.heap[r].cls.endswith("GatewaySchedulerService")]
            c.require(svc and all(x.attrs.get("idle_timeout") is not None and x.attrs["idle_timeout"].k == "const" and x.attrs["idle_timeout"].a[0] == t for x in svc), "CONFIG", f.qual,
                      f"an idle timeout of {t} becomes {[show(x.attrs.get('idle_timeout')) for x in svc if x.attrs.get('idle_timeout')]}", key="config")
        c.require(n, "CONFIG", f.qual, "the preload never sets the service up", key="none")
        c.analysed(*I.inlined)


def command(c):
    """and that is the one the cluster is configured with"""
    found = commands(c, "get_scheduler_command")
    for f, o, args in found:
        c.paths += 1
        got = option(args, "--dg-idle-timeout")
        c.require(len(got) == 1 and got[0] is not None and show(got[0]) in ("cluster.config.idle_timeout", "config.idle_timeout"), "CONFIG", f.qual,
                  f"the idle timeout the scheduler is started with is {[show(x) if x else None for x in got]}", key="command")
    c.require(len({f.qual for f, o, a in found}) >= 2, "CONFIG", "dask_gateway_server", "the commands that start schedulers are not found", key="commands")


def run(c):
    c.rule("ONLY", "the cluster is shut down only when no worker has a task, no task waits for a worker and the last transition (or the start) is longer ago than the timeout")
    c.rule("DOES", "and then it is")
    c.rule("AGAIN", "also after a shutdown request failed")
    c.rule("PACE", "the checks are no further apart than the timeout")
    c.rule("OFF", "the check runs exactly when a timeout is configured, and nothing else asks for the shutdown")
    c.rule("SENT", "the shutdown is one authenticated request to delete the cluster, and an error reply is a failure")
    c.rule("CONFIG", "the timeout is the one the scheduler was started with, which is the one of the cluster's configuration")
    checks(c)
    starts(c)
    deletes(c)
    configured(c)
    command(c)
    for r, k in (("ONLY", 200), ("DOES", 60), ("AGAIN", 10), ("PACE", 200), ("OFF", 8), ("SENT", 6), ("CONFIG", 4)):
        c.floor(r, k)
