"""C37: scaling keeps to the requested count and bounds.

The handlers of scale and adapt requests are run from states with every small
count, with and without adaptive scaling; the adaptive loop is run over every
short sequence of the scheduler's recommendations, with failures, new bounds,
scale requests and cancellations between its checks."""
import itertools
from sa.query import where
from sa.state import Obj, events
from sa.program import Broken
from sa.values import NONE, V, const, show
from .optw import Unknown, get, put
from .sched import GW, MOD, SCHED, Plugin, at

H = V("param", "handler")


def copy(st, n):
    st.heap, st.store, st.facts, st.trace, st.ghost = n.heap, n.store, n.facts, n.trace, n.ghost


class Requests(Plugin):
    """scale and adapt requests as the scheduler's API receives them"""

    def __init__(self, c):
        super().__init__(c, "a")
        self.h = c.prog.cls(MOD, "CommHandler")
        self.I.term_types[H] = self.h.qual
        self.I.awaits = lambda I, st, v: [(None, "asyncio.CancelledError")]

    def ask(self, st, **msg):
        s = st.fork()
        s.store = {**s.store, (H, "json_data"): put(s, msg), (H, "settings"): s.alloc(Obj("dict", layers=(("kv", const("gateway_service"), self.S),)))}
        f = self.h.find_method("post")
        if f is None:
            raise Broken("the scheduler's API has no post")
        return self.I.run_function(f, [], selfv=H, st=s)

    def running(self, st):
        """the tasks started that were not cancelled since"""
        evs = events(st.trace)
        return [e.get("task") for i, e in enumerate(evs) if e.kind == "spawn"
                and not any(x.kind == "call" and x.get("name") == "cancel" and x.get("recv") is e.get("task") for x in evs[i:])]


def requests(c):
    p = Requests(c)
    q = p.h.qual + ".post"
    bounds = [(None, None), (0, 5), (2, 2), (1, None), (None, 4)]
    start = [(p.st, "off")]
    for lo, hi in bounds:
        for o in p.ask(p.st, op="adapt", minimum=lo, maximum=hi, active=True):
            c.require(o.kind == "ret", "ADAPT", q, "an adapt request fails", key="fails")
            if o.kind != "ret":
                continue
            c.require(len(p.running(o.st)) == 1, "ONE", q, f"an adapt request leaves {len(p.running(o.st))} adaptive loops", key="one")
            c.require((p.value(o.st, "minimum"), p.value(o.st, "maximum")) == (lo, hi), "ADAPT", q, f"the bounds {lo}, {hi} become {p.value(o.st, 'minimum')}, {p.value(o.st, 'maximum')}", key="bounds")
            start.append((o.st, "on"))
            for lo2, hi2 in bounds:
                for o2 in p.ask(o.st, op="adapt", minimum=lo2, maximum=hi2):
                    c.require(o2.kind == "ret" and len(p.running(o2.st)) == 1, "ONE", q, f"a second adapt request leaves {len(p.running(o2.st))} adaptive loops", key="second")
                    c.require((p.value(o2.st, "minimum"), p.value(o2.st, "maximum")) == (lo2, hi2), "ADAPT", q, "a second adapt request does not replace the bounds", key="again")
            for o2 in p.ask(o.st, op="adapt", active=False):
                c.require(o2.kind == "ret" and not p.running(o2.st), "OFF", q, "turning adaptive scaling off leaves a loop running", key="off")
                c.require(p.value(o2.st, "count") == p.value(o.st, "count"), "OFF", q, "turning adaptive scaling off changes the count", key="count")
                for o3 in p.ask(o2.st, op="adapt", minimum=1, maximum=3):
                    c.require(o3.kind == "ret" and len(p.running(o3.st)) == 1, "ONE", q, "adaptive scaling cannot be turned on again", key="on again")
    for st, mode in start:
        for n in (0, 1, 3, 7):
            for o in p.ask(st, op="scale", count=n):
                c.paths += 1
                c.require(o.kind == "ret", "EXACT", q, f"a scale request to {n} fails", key="fails")
                if o.kind != "ret":
                    continue
                exact(c, p, st, o, n, q, mode)
                for m in (0, 2, 7):
                    for o2 in p.ask(o.st, op="scale", count=m):
                        c.require(o2.kind == "ret", "EXACT", q, "a second scale request fails", key="fails")
                        if o2.kind == "ret":
                            exact(c, p, o.st, o2, m, q, "off")
                for o2 in p.ask(o.st, op="adapt", minimum=1, maximum=3):
                    c.require(o2.kind == "ret" and len(p.running(o2.st)) == 1, "ONE", q, "adaptive scaling cannot be turned on after a scale request", key="after")
                    for o3 in p.ask(o2.st, op="scale", count=5):
                        if o3.kind == "ret":
                            exact(c, p, o2.st, o3, 5, q, "on")
    for msg in (dict(op="grow", count=2), dict(count=2), dict(op=None)):
        for st, mode in start[:2]:
            for o in p.ask(st, **msg):
                c.require(o.kind == "raise", "UNKNOWN", q, "an unknown operation is accepted", key="accepted")
                c.require(p.value(o.st, "count") == p.value(st, "count") and len(p.running(o.st)) == len(p.running(st)), "UNKNOWN", q, "an unknown operation has an effect", key="effect")
    c.analysed(*p.I.inlined)


def exact(c, p, st, o, n, q, mode):
    c.require(p.value(o.st, "count") == n, "EXACT", q, f"a scale request to {n} makes the count {p.value(o.st, 'count')}", key="count")
    c.require(not p.running(o.st), "EXACT", q, "adaptive scaling goes on after a scale request", key="off")
    evs = events(o.st.trace)
    old = len(events(st.trace))
    sets = [i for i, e in enumerate(evs) if i >= old and e.kind == "store" and e.attr == "count" and e.get("obj", p.S) is p.S]
    ends = [i for i, e in enumerate(evs) if i >= old and e.kind == "await" and any(e.get("value") is t for t in p_tasks(evs))]
    if mode == "on" and sets:
        c.require(ends and max(ends) < min(sets), "EXACT", q, "the count is set before the adaptive loop has ended", key="order")


def p_tasks(evs):
    return [e.get("task") for e in evs if e.kind == "spawn"]


class Adapt(Plugin):
    """the adaptive loop over the recommendations `targets`; None is a failing recommendation;
    `after[k]` happens while the loop sleeps after check k"""

    def __init__(self, c, count, lo, hi, window=3):
        super().__init__(c, "a")
        self.after, self.targets = {}, ()
        self.I.raises_policy = self.raising
        self.I.awaits = self.awaits
        st = self.st = self.st.fork()
        self.W = self.value(st, "adaptive_window")
        f = self.k.find_method("scale")
        st = self.op(st, "scale", (count,))[0].st if count != self.value(st, "count") else st
        f = self.k.find_method("adapt")
        outs = [o for o in self.I.run_function(f, [], selfv=self.S, kwargs=dict(minimum=const(lo), maximum=const(hi)), st=st.fork()) if o.kind == "ret"]
        if not outs:
            raise Broken("adaptive scaling cannot be turned on")
        self.st = outs[0].st

    def opaque(self, f, recv):
        return f.cls is not None and f.cls.name == "GatewayClient"

    def results(self, I, st, name, func, args, kw):
        if name == "adaptive_target" and self.depth == 0:
            k = st.ghost.get("check", 0)
            st.ghost = {**st.ghost, "check": k + 1}
            if k >= len(self.targets) or self.targets[k] is None:
                return V("never")
            st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (("target", self.targets[k], self.value(st, "count")),)}
            return const(self.targets[k])
        if name == "sleep" and self.depth == 0:
            k = st.ghost.get("check", 0) - 1
            st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (("sleep", self.value(st, "count"), args[0] if args else None),)}
            op = self.after.get(k)
            if op not in (None, "cancel"):
                self.depth += 1
                try:
                    o = self.op(st, op[0], op[1])
                finally:
                    self.depth -= 1
                copy(st, o[0].st)
                st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (("op",) + op + (self.value(st, "count"),),)}
            if op == "cancel" or (op and op[0] == "scale"):
                st.ghost = {**st.ghost, "log": st.ghost.get("log", ()) + (("end",),), "ended": True}
                return V("never")
            if k + 1 >= len(self.targets):
                st.ghost = {**st.ghost, "ended": True}
                return V("never")
        return super().results(I, st, name, func, args, kw)

    def raising(self, I, st, ev):
        if self.depth:
            return None
        if ev.get("name") == "adaptive_target" and ev.result is V("never"):
            return [("Exception", True)]
        if ev.get("name") == "sleep" and ev.result is V("never"):
            return [("asyncio.CancelledError", True)]

    def awaits(self, I, st, v):
        return [(None, "asyncio.CancelledError")]

    def follow(self, targets, after=None):
        self.targets, self.after = targets, after or {}
        self.I.unroll = len(targets) + 2
        s = self.st.fork()
        s.ghost = {}
        return self.I.run_function(self.k.find_method("adapt_loop"), [], selfv=self.S, st=s)


def clamp(t, lo, hi):
    t = max(lo, t) if lo is not None else t
    return min(hi, t) if hi is not None else t


def follow(c, p, count, lo, hi, targets, after=None):
    q = p.k.qual + ".adapt_loop"
    p_outs = p.follow(targets, after)
    what = f"from {count} with bounds {lo}, {hi} and recommendations {list(targets)}" + (f" and {after}" if after else "")
    c.require(p_outs, "FOLLOW", q, "the adaptive loop has no outcome", key="none")
    for o in p_outs:
        c.paths += 1
        log = o.st.ghost.get("log", ())
        seen, cur = [], [lo, hi]
        now = count
        checks = 0
        for e in log:
            if e[0] == "target":
                seen.append((e[1], tuple(cur)))
                pend = e[1]
                c.require(e[2] == now, "FOLLOW", q, f"{what}: the count changes between checks", key="between")
            elif e[0] == "sleep":
                checks += 1
                new = e[1]
                failed = len(seen) == 0 or targets[checks - 1] is None
                if failed:
                    c.require(new == now, "FAIL", q, f"{what}: a failing recommendation changes the count", key="changes")
                else:
                    t = clamp(pend, *cur)
                    c.require(new == now or clamp(new, *cur) == new, "BOUNDS", q, f"{what}: the count becomes {new}", key="bounds")
                    if t > now:
                        c.require(new == t, "UP", q, f"{what}: with {now} and a recommendation of {t} the count becomes {new}", key="up")
                    else:
                        last = [clamp(x, *cur) for x, b in seen[-p.W:]]
                        c.require(new <= now and new >= min(now, max(last)), "DOWN", q, f"{what}: with {now} and the recommendations {last} the count becomes {new}", key="down")
                    if len(seen) >= p.W and len({x for x, b in seen[-p.W:]}) == 1 and len({b for x, b in seen[-p.W:]}) == 1:
                        c.require(new == t, "FOLLOW", q, f"{what}: after {p.W} recommendations of {t} the count is {new}", key="follow")
                c.require(isinstance(e[2], V) and not (e[2].k == "const" and (e[2].a[0] is None or e[2].a[0] <= 0)), "PACE", q, "the loop does not pause between its checks", key="pace")
                now = new
            elif e[0] == "op":
                now = e[-1]
                if e[1] == "adapt":
                    cur = [e[2][0].a[0], e[2][1].a[0]]
        ends = [i for i, e in enumerate(log) if e[0] == "end"]
        if ends:
            c.require(ends[0] == len(log) - 1, "END", q, f"{what}: the loop goes on after it was cancelled", key="goes on")
        else:
            c.require(checks == len(targets), "FAIL" if None in targets else "FOLLOW", q, f"{what}: the loop ends after {checks} of {len(targets)} checks", key="ends")


def loop(c):
    deep = c.tier != "quick"
    bounds = [(None, None), (1, 5), (None, 4), (2, None), (3, 3), (0, 0)]
    for lo, hi in bounds:
        for count in (0, 2, 6):
            p = Adapt(c, count, lo, hi)
            for targets in itertools.product((0, 2, 9), repeat=5 if deep else 4):
                follow(c, p, count, lo, hi, targets)
            for t in (0, 2, 9):
                follow(c, p, count, lo, hi, (t,) * (p.W + 2))
            for targets in ((None, 9), (2, None, 2, 2), (9, None, None, 0, 0, 0, 0), (None,) * 4 + (2,)):
                follow(c, p, count, lo, hi, targets)
            for lo2, hi2 in bounds:
                b = (const(lo2), const(hi2))
                for targets in ((9, 9, 9, 9), (9, 9, 2, 2, 2, 2), (9, 0, 0, 0, 0), (0, 0, 0, 9), (9, 2, 2, 2)):
                    for k in (0, 1, 2):
                        follow(c, p, count, lo, hi, targets, {k: ("adapt", b)})
            for k in (0, 2):
                follow(c, p, count, lo, hi, (9, 9, 2, 2, 0, 9), {k: ("scale", (const(4),))})
                follow(c, p, count, lo, hi, (9, 9, 2, 2, 0, 9), {k: "cancel"})
            c.analysed(*p.I.inlined)


def run(c):
    c.rule("EXACT", "after a scale request the count is the requested number, no adaptive loop runs, and the loop had ended before the count was set")
    c.rule("ADAPT", "an adapt request makes its bounds the bounds")
    c.rule("ONE", "while adaptive scaling is on exactly one adaptive loop runs, and it can always be turned on again")
    c.rule("OFF", "turning adaptive scaling off ends the loop and keeps the count")
    c.rule("UNKNOWN", "an operation that is neither scale nor adapt is refused without effect")
    c.rule("BOUNDS", "every count the adaptive loop sets is within the bounds of the latest adapt request")
    c.rule("UP", "a recommendation above the count is followed at once")
    c.rule("DOWN", "the count goes down no further than the highest of the last window of recommendations")
    c.rule("FOLLOW", "a recommendation that stays the same for a window is followed, and nothing else changes the count")
    c.rule("FAIL", "a failing recommendation neither ends the loop nor changes the count")
    c.rule("PACE", "the loop pauses between its checks")
    c.rule("END", "a scale request or a cancellation ends the loop")
    requests(c)
    loop(c)
