"""The scheduler plugin with a few workers that come and go, followed through every reachable state."""
from sa.interp import Interp
from sa.query import subterms
from sa.program import Broken
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import Unknown, get, make, put

MOD = "dask_gateway.scheduler_preload"
SCHED, GW = V("param", "scheduler"), V("param", "gateway")


class At:
    """the heap of an event, for reading values as they were then"""

    def __init__(self, heap):
        self.heap = heap

    def obj(self, v):
        return self.heap.get(v.a[0]) if isinstance(v, V) and v.k == "ref" else None


def at(ev, v):
    return get(At(ev.heap), v)


class Plugin:
    def __init__(self, c, addrs="abc", period=15, idle=0):
        self.c = c
        self.addrs = addrs
        self.k = c.prog.cls(MOD, "GatewaySchedulerService")
        self.pk = c.prog.cls(MOD, "GatewayPlugin")
        self.fail = None        # which outside call fails
        self.pick = "all"       # which workers the scheduler proposes to close
        self.meanwhile = None   # (call, operation) happening while a call is awaited
        self.depth = 0
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.term_types[GW] = MOD + ".GatewayClient"
        st = I.new_state()
        for v in (SCHED, GW):
            st.facts = st.facts.assume(V("cmp", "is", v, NONE), False)
        self.ws = {a: V("param", f"worker {a}") for a in addrs}
        st.store = {**st.store, **{(w, "name"): const("w" + a) for a, w in self.ws.items()},
                    (SCHED, "workers"): st.alloc(Obj("dict", layers=())), (SCHED, "services"): st.alloc(Obj("dict", layers=()))}
        ok, bad = make(I, st, self.k.qual, [SCHED], dict(gateway=GW, heartbeat_period=period, idle_timeout=idle))
        if len(ok) != 1 or bad:
            raise Broken("the scheduler service cannot be constructed")
        self.st, self.S = ok[0]
        plug = [e for e in events(self.st.trace) if e.kind == "call" and e.get("name") == "add_plugin"]
        if not plug:
            raise Broken("the scheduler service registers no plugin")
        self.P = plug[0].args[0]

    def opaque(self, f, recv):
        return f.cls is not None and f.cls.name in ("GatewayClient", "Waiter")

    def results(self, I, st, name, func, args, kw):
        if name == "workers_to_close":
            target = kw.get("target", args[0] if args else None)
            t = get(st, target) if target is not None else None
            attr = kw.get("attribute")
            names = sorted(self.connected(st))
            n = max(0, len(names) - t) if t is not None else 0
            chosen = [] if self.pick == "none" else names[:n] if self.pick == "first" else names[len(names) - n:]
            if attr is not const("name"):
                return put(st, [f"address {x}" for x in chosen])
            return put(st, ["w" + x for x in chosen])
        if self.meanwhile and name == self.meanwhile[0] and self.depth == 0:
            self.depth += 1
            try:
                o = self.op(st, *self.meanwhile[1])
            finally:
                self.depth -= 1
            if o:
                n = o[0].st
                st.heap, st.store, st.facts, st.trace = n.heap, n.store, n.facts, n.trace
        if name == "retire_workers" and self.depth == 0 and self.fail != "retire_workers" and not self.meanwhile:
            names = kw.get("names", args[0] if args else None)
            try:
                who = get(st, names)
            except Unknown:
                who = []
            self.depth += 1
            try:
                for w in who:
                    if w[1:] in self.connected(st):
                        o = self.op(st, "remove", w[1:])
                        n = o[0].st
                        st.heap, st.store, st.facts, st.trace = n.heap, n.store, n.facts, n.trace
            finally:
                self.depth -= 1
        return None

    def raises(self, I, st, ev):
        if self.fail and ev.get("name") == self.fail and self.depth == 0 and not (self.fail == "heartbeat" and ev.get("recv") is not GW):
            return ["Exception"]

    def connected(self, st):
        return frozenset(get(st, l[1]) for l in self.workers(st))

    def workers(self, st):
        return st.obj(st.store[(SCHED, "workers")]).layers

    def attr(self, st, name):
        return st.obj(self.S).attrs.get(name)

    def value(self, st, name):
        v = self.attr(st, name)
        return frozenset(get(st, v)) if st.obj(v) is not None else get(st, v)

    def op(self, st, what, x=None):
        """outcomes of one operation on a forked state"""
        s = st.fork()
        if what in ("add", "remove"):
            ref = s.store[(SCHED, "workers")]
            d = s.obj(ref)
            L = tuple(l for l in d.layers if l[1] is not const(x))
            s.setobj(ref, d.replace(layers=L + (("kv", const(x), self.ws[x]),) if what == "add" else L))
            f = self.pk.find_method(what + "_worker")
            return self.dedup(self.I.run_function(f, [SCHED, const(x)], selfv=self.P, st=s))
        f = self.k.find_method(what)
        if f is None:
            raise Broken(f"the scheduler service has no {what}")
        return self.dedup(self.I.run_function(f, [const(y) if not isinstance(y, V) else y for y in (x or ())], selfv=self.S, st=s))

    def dedup(self, outs):
        seen, r = set(), []
        for o in outs:
            k = (o.kind, self.key(o.st))
            if k not in seen or o.kind != "ret":
                seen.add(k)
                r.append(o)
        return r

    def key(self, st):
        """what of the state matters for what follows"""
        out = []
        for n, v in sorted(st.obj(self.S).attrs.items()):
            o = st.obj(v)
            if o is not None and o.kind in ("list", "dict"):
                try:
                    x = get(st, v)
                    out.append((n, tuple(sorted(map(str, x)))))
                except Unknown:
                    out.append((n, tuple(sorted(show(l[1]) for l in o.layers if len(l) > 1)) if o.kind == "dict" else str(o)))
            elif v.k == "const":
                out.append((n, v.a[0]))
            else:
                out.append((n, v.k))
        return tuple(out), self.connected(st)


class Loop:
    """The heartbeat loop with what happens at each of its waits and heartbeats:
    `waits[k]`: None (the time passes), "cancel" (the loop is cancelled) or an operation;
    `beats[k]`: None (accepted), "fail", "cancel", or an operation while it is under way.
    The log of each outcome lists ("wait", seconds), ("beat", count reported) and ("op", …)."""

    def __init__(self, c, period=15, waits=None, beats=None, workers="", steps=8):
        p = self.p = Plugin(c, workers or "a", period)
        self.waits, self.beats, self.steps = waits or {}, beats or {}, steps
        st = p.st
        for a in workers:
            st = p.op(st, "add", a)[0].st
        p.I.opaque = lambda f, recv: f.cls is not None and f.cls.name == "GatewayClient"
        self.base = p.results
        p.I.results = self.results
        p.I.raises_policy = self.raises
        p.I.awaits = self.awaits
        p.I.unroll = steps + 2
        self.st = st.fork()

    def run(self):
        f = self.p.k.find_method("heartbeat_loop")
        if f is None:
            raise Broken("the scheduler service has no heartbeat loop")
        return [(o, o.st.ghost.get("log", ())) for o in self.p.I.run_function(f, [], selfv=self.p.S, st=self.st.fork())]

    def log(self, st, *entry):
        st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (entry,)}

    def operate(self, st, op):
        """runs an operation on the state, in place; False when it did not return normally"""
        p = self.p
        p.depth += 1
        try:
            o = p.op(st, *op)
        finally:
            p.depth -= 1
        ret = [x for x in o if x.kind == "ret"]
        n = (ret or o)[0].st
        st.heap, st.store, st.facts, st.trace, st.ghost = n.heap, n.store, n.facts, n.trace, n.ghost
        self.log(st, "op", *op, "ret" if ret else o[0].kind)

    def results(self, I, st, name, func, args, kw):
        p = self.p
        if p.depth == 0 and name == "heartbeat" and func is not None and func.cls is not None and func.cls.name == "GatewayClient":
            k = st.ghost.get("beat", 0) + 1
            st.ghost = {**st.ghost, "beat": k}
            try:
                d = st.obj(args[0] if args else list(kw.values())[0])
                n = get(st, next(l[2] for l in d.layers if l[1] is const("count")))
            except (Unknown, StopIteration, AttributeError, IndexError):
                n = None
            self.log(st, "beat", n)
            what = self.beats.get(k)
            if what not in (None, "fail", "cancel"):
                self.operate(st, what)
            if what in ("fail", "cancel") or k > self.steps:
                return V("never")
        return self.base(I, st, name, func, args, kw)

    def raises(self, I, st, ev):
        if self.p.depth:
            return None
        if ev.get("name") == "heartbeat" and ev.get("recv") is GW:
            k = st.ghost.get("beat", 0)
            what = self.beats.get(k)
            if k > self.steps or what == "cancel":
                return [("asyncio.CancelledError", True)]
            if what == "fail":
                return [("Exception", True)]
        return None

    def awaits(self, I, st, v):
        if self.p.depth:
            return [(None, "asyncio.CancelledError")]
        f = st.fork()
        k = st.ghost.get("wait", 0) + 1
        f.ghost = {**f.ghost, "wait": k}
        secs = next((x.a[0] for x in subterms(v) if x.k == "const" and isinstance(x.a[0], (int, float))), None)
        self.log(f, "wait", secs)
        what = self.waits.get(k)
        exc = None
        if what == "cancel" or k > self.steps:
            exc = "asyncio.CancelledError"
        elif what is not None:
            old = len(events(f.trace))
            self.operate(f, what)
            if any(e.kind == "call" and e.get("name") == "cancel" and e.get("recv") is v for e in events(f.trace)[old:]):
                exc = "asyncio.CancelledError"

        def effect(s):
            s.heap, s.store, s.facts, s.trace, s.ghost = f.heap, f.store, f.facts, f.trace, f.ghost
        return [(effect, exc)]
