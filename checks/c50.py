"""C50: a message to a scheduler is tried a bounded number of times, with every attempt failing or succeeding."""
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, enum, show
from .optw import Unknown, get, put

BASE = "dask_gateway_server.backends.base"
DB = "dask_gateway_server.backends.db_base"
MSG = {"op": "scale", "count": 3}
ENDS = ("ok", "unreachable", "error reply")
LONGEST = 10


class World:
    """one gateway that sends one message; the scheduler answers each attempt as given"""

    def __init__(self, c, pattern=(), retries=3, status="RUNNING", cancel=None):
        self.c, self.pattern, self.cancel = c, pattern, cancel
        self.k = c.prog.cls(BASE, "Backend")
        self.f = self.k.find_method("forward_message_to_scheduler")
        if self.f is None:
            raise Broken("Backend has no forward_message_to_scheduler")
        self.where = f"{self.f.module.rel()}:{self.f.line} (Backend.forward_message_to_scheduler)"
        sc = c.prog.cls("dask_gateway_server.models", "ClusterStatus")
        self.I = I = Interp(c.prog, c.types, opaque=lambda f, r: f.name == "stop_cluster", raises=self.raises, results=self.results)
        I.unroll = retries + 4
        st = I.new_state()
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={"session": V("param", "session"), "log": V("param", "log"), "scheduler_api_retries": const(retries)}))
        self.cluster = V("param", "cluster")
        I.term_types[self.cluster] = "dask_gateway_server.models.Cluster"
        st.store = {**st.store, **{(self.cluster, a): const(x) for a, x in (("name", "c9"), ("token", "tok"), ("api_address", "http://s:9"), ("username", "alice"))},
                    (self.cluster, "status"): enum(sc.qual, status, sc.enum_members()[status])}
        self.msg = put(st, MSG)
        self.st = st

    def results(self, I, st, name, func, args, kw):
        if func is None and name in ("post", "request", "put"):
            n = st.ghost.get("n", 0)
            how = self.pattern[n] if n < len(self.pattern) else "ok"
            checked = kw.get("raise_for_status") if hasattr(kw, "get") else None
            st.ghost = {**st.ghost, "n": n + 1}
            if self.cancel == ("send", n):
                st.ghost = {**st.ghost, "fails": "CancelledError"}
            elif how == "unreachable":
                st.ghost = {**st.ghost, "fails": "aiohttp.ClientConnectionError"}
            elif how == "error reply" and checked is not None and checked.k == "const" and checked.a[0]:
                st.ghost = {**st.ghost, "fails": "aiohttp.ClientResponseError"}
            else:
                R = V("param", f"reply {n}")
                st.store = {**st.store, (R, "status"): const(200 if how == "ok" else 500), (R, "ok"): const(how == "ok")}
                st.ghost = {**st.ghost, "bad": None if how == "ok" else R}
                return R
            return V("never")
        if func is None and name == "raise_for_status":
            if st.ghost.get("bad") is not None:
                st.ghost = {**st.ghost, "fails": "aiohttp.ClientResponseError"}
                return V("never")
            return NONE
        if func is None and name == "sleep":
            n = st.ghost.get("slept", 0)
            st.ghost = {**st.ghost, "slept": n + 1}
            if self.cancel == ("wait", n):
                st.ghost = {**st.ghost, "fails": "CancelledError"}
                return V("never")
            return NONE

    def raises(self, I, st, ev):
        if ev.get("result") == V("never"):
            x = st.ghost["fails"]
            return [("asyncio.CancelledError" if x == "CancelledError" else x, True)]
        return None

    def run(self):
        outs = self.I.run_function(self.f, [self.cluster, self.msg], selfv=self.S, st=self.st)
        self.c.paths += len(outs)
        self.c.analysed(self.f, *self.I.inlined)
        return outs


def raised(o):
    return show(o.val) if o.kind == "raise" else None


def is_exc(c, o, name):
    if o.kind != "raise":
        return False
    x = o.st.obj(o.val)
    cls = x.cls if x is not None and getattr(x, "cls", None) else show(o.val)
    return name in str(cls)


def sends(o):
    return [e for e in walk_events(events(o.st.trace)) if e.kind in ("call", "callraised") and e.get("target") is None and e.get("name") in ("post", "request", "put")]


def stops(o):
    return [e for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.get("name") == "stop_cluster"]


def failed_arg(c, e):
    f = c.prog.cls(BASE, "Backend").find_method("stop_cluster")
    names = f.params()[1:]
    vals = {**dict(zip(names, e.args)), **(e.get("kwargs") or {})}
    return vals


def sent(c, w, o, text):
    """each attempt asks the cluster's own scheduler, as the gateway"""
    for e in sends(o):
        kw = e.get("kwargs") or {}
        try:
            u = get(o.st, e.args[-1] if e.args and e.get("name") != "request" else e.args[1] if len(e.args) > 1 else kw.get("url"))
            h = get(o.st, kw.get("headers")) if kw.get("headers") is not None else {}
            body = get(o.st, kw.get("json")) if kw.get("json") is not None else None
        except Unknown as x:
            c.require(False, "SEND", w.where, f"what is sent is not known: {x}", key="unknown")
            continue
        c.require(str(u).startswith("http://s:9/"), "SEND", w.where, f"a message is sent to {u}", key="url")
        c.require(any(x.lower() == "authorization" and "tok" in str(y).split() for x, y in h.items()), "SEND", w.where, "a message is sent without the cluster's token", key="token")
        c.require(body == MSG, "SEND", w.where, f"a message arrives as {body}", key="message")


def attempts(c):
    n = 0
    for retries in (1, 2, 3, 4, 10):
        for pattern in itertools.product(ENDS, repeat=retries) if retries < 10 else [("unreachable",) * retries]:
            if "ok" in pattern and any(x != "ok" for x in pattern[pattern.index("ok") + 1:]):
                continue
            w = World(c, pattern, retries)
            outs = w.run()
            text = f"with {retries} attempts allowed and attempts ending with {', '.join(pattern)}"
            if not c.require(len(outs) > 0, "BOUND", w.where, f"{text}, the message is tried for ever", key="ends"):
                continue
            first = pattern.index("ok") + 1 if "ok" in pattern else retries
            for o in outs:
                n += 1
                k = len(sends(o))
                c.require(k <= retries, "BOUND", w.where, f"{text}, it is sent {k} times", key="more")
                c.require(k >= first, "RETRY", w.where, f"{text}, it is sent {k} times only", key="fewer")
                c.require(k <= first, "ONCE", w.where, f"{text}, it is sent again after it arrived", key="again")
                sent(c, w, o, text)
                waits = [e for e in walk_events(events(o.st.trace)) if e.kind in ("call", "callraised") and e.get("name") == "sleep"]
                c.require(len(waits) == k - 1, "WAIT", w.where, f"{text}, it waits {len(waits)} times between {k} attempts", key="waits")
                ds = [e.args[0].a[0] if e.args and e.args[0].k == "const" else None for e in waits]
                ok = all(isinstance(d, (int, float)) and 0 < d <= LONGEST for d in ds) and ds == sorted(ds)
                c.require(ok, "WAIT", w.where, f"{text}, it waits for {ds}", key="delay")
                st = stops(o)
                if "ok" in pattern:
                    c.require(o.kind == "ret", "ONCE", w.where, f"{text}, a message that arrived is reported as failed", key="reported")
                    c.require(not st, "ONCE", w.where, f"{text}, the cluster is stopped although the message arrived", key="stopped")
                else:
                    c.require(is_exc(c, o, "PublicException"), "TOLD", w.where, f"{text}, the caller is told {raised(o) or 'that it arrived'}", key="told")
                    if c.require(len(st) == 1, "FAIL", w.where, f"{text}, the cluster is stopped {len(st)} times", key="stopped"):
                        a = failed_arg(c, st[0])
                        vs = [x for x in a.values()]
                        c.require(const("c9") in vs, "FAIL", w.where, "another cluster is stopped", key="which")
                        c.require(const(True) in vs, "FAIL", w.where, "an unreachable cluster is not recorded as failed", key="failed")
    if not n:
        raise Broken("no attempt to send a message is followed")


def refused(c):
    sc = c.prog.cls("dask_gateway_server.models", "ClusterStatus")
    for status in sc.enum_members():
        if status == "RUNNING":
            continue
        w = World(c, status=status)
        outs = w.run()
        c.require(bool(outs), "REFUSE", w.where, f"a message to a {status} cluster is not followed", key="none")
        for o in outs:
            c.require(is_exc(c, o, "PublicException"), "REFUSE", w.where, f"a message to a {status} cluster is not refused", key="refused")
            c.require(not sends(o), "REFUSE", w.where, f"a message is sent to a {status} cluster", key="sent")
            c.require(not stops(o), "REFUSE", w.where, f"a message to a {status} cluster stops it", key="stopped")


def cancelled(c):
    for at in [("send", i) for i in range(3)] + [("wait", i) for i in range(2)]:
        w = World(c, ("unreachable",) * 3, 3, cancel=at)
        for o in w.run():
            c.require(is_exc(c, o, "CancelledError"), "CANCEL", w.where, "a cancelled request goes on", key="ends")
            c.require(len(sends(o)) == at[1] + 1, "CANCEL", w.where, "a cancelled request sends more messages", key="sends")
            c.require(not stops(o), "CANCEL", w.where, "a cancelled request stops the cluster", key="stops")


def recorded(c):
    """what a stop request is recorded as"""
    from .dblife import SELF, Life, nm
    from .recon import flat
    L = Life(c)
    f = L.base.methods.get("stop_cluster")
    if f is None:
        raise Broken("no stop_cluster")
    c.analysed(f)
    w = f"{f.module.rel()}:{f.line} (stop_cluster)"
    n = 0
    for kw, goal in (({}, "STOPPED"), ({"failed": const(False)}, "STOPPED"), ({"failed": const(True)}, "FAILED")):
        I = L.interp(None, use_rely=False, opaque=("get_cluster",))
        for o in I.run_function(f, [const("c9")], selfv=SELF, kwargs=kw):
            c.paths += 1
            for e in flat(o):
                if e.kind == "store" and e.attr == "target":
                    n += 1
                    c.require(nm(e.value) == goal, "FAIL", w, f"a stop request of {'an unreachable' if goal == 'FAILED' else 'a'} cluster gives it a goal of {nm(e.value)}", key=f"goal {goal}")
    c.require(n >= 3, "FAIL", w, "a stop request gives no goal", key="goal")


def run(c):
    c.rule("SEND", "each attempt sends the message to the cluster's own address, with the cluster's own token")
    c.rule("BOUND", "a message is tried at most as often as configured")
    c.rule("RETRY", "a failed attempt, or one answered with an error, is repeated until the configured number")
    c.rule("ONCE", "after an attempt that succeeded nothing more is sent, and the cluster is left alone")
    c.rule("WAIT", "between attempts there is a bounded delay that does not shrink")
    c.rule("FAIL", "when all attempts failed the cluster, and no other, is stopped as failed")
    c.rule("TOLD", "and the caller is told")
    c.rule("REFUSE", "nothing is sent to a cluster that is not running; the request is refused")
    c.rule("CANCEL", "a cancelled request sends nothing more and does not stop the cluster")
    attempts(c)
    refused(c)
    cancelled(c)
    recorded(c)
    c.assumptions += [f"Allowed attempts from 1 to 4, and 10, stand for every number; a delay of up to {LONGEST} s counts as bounded."]
