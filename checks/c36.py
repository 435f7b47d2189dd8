"""C36: the scheduler plugin reports its workers truthfully.

Every state three workers can bring the plugin into is visited (arrivals,
departures, changes of the requested count, heartbeats that succeed, fail, or
whose retirement fails, and departures or arrivals while a heartbeat is under
way); in each, what a heartbeat reports is compared with the truth."""
from sa.interp import Interp
from sa.query import contains, kwarg, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import Unknown, get, put
from .sched import GW, MOD, At, Loop, Plugin, at


class World:
    """what is true: which workers are connected, and which closures no accepted heartbeat has reported"""

    def __init__(self, st, conn=frozenset(), owed=frozenset(), count=0):
        self.st, self.conn, self.owed, self.count = st, conn, owed, count

    def key(self, p):
        return p.key(self.st), self.conn, self.owed, self.count


def message(p, st, old):
    return [e for e in events(st.trace)[old:] if e.kind == "call" and e.get("name") == "heartbeat" and e.get("recv") is GW]


def heartbeat(c, p, w, fail, pick, during):
    """one heartbeat in the world w; yields the worlds after it"""
    p.fail, p.pick, p.meanwhile = fail, pick, during
    old = len(events(w.st.trace))
    try:
        outs = p.op(w.st, "heartbeat")
    finally:
        p.fail, p.pick, p.meanwhile = None, "all", None
    q = p.k.qual + ".heartbeat"
    for o in outs:
        evs = events(o.st.trace)[old:]
        msgs = message(p, o.st, old)
        c.require(len(msgs) == 1, "ONE", q, "a heartbeat does not send exactly one message", key="one")
        if len(msgs) != 1:
            continue
        e = msgs[0]
        try:
            m = at(e, e.args[0] if e.args else list((e.get("kwargs") or {}).values())[0])
            act, closing, closed = (m[x] for x in ("active_workers", "closing_workers", "closed_workers"))
            count = m["count"]
        except (Unknown, KeyError, IndexError):
            m = None
            try:
                d = At(e.heap).obj(e.args[0])
                f = {l[1].a[0]: l[2] for l in d.layers}
                act, closing, closed, count = (at(e, f[x]) for x in ("active_workers", "closing_workers", "closed_workers", "count"))
            except (Unknown, KeyError, IndexError, AttributeError) as u:
                c.fail("CATEGORY", where(e), f"the message does not name the workers of each category ({u})", key="shape")
                continue
        there = {"w" + x for x in w.conn}
        now = f"with {sorted(there)} connected, {sorted(w.owed)} closed since the last accepted heartbeat and {w.count} requested"
        c.require(count == w.count, "COUNT", where(e), f"{now}: the count reported is {count!r}", key="count")
        c.require(len(act) == len(set(act)) and set(act) | set(closing) == there and not set(act) & set(closing), "CATEGORY", where(e),
                  f"{now}: active are {sorted(act)}, closing {sorted(closing)}", key="live")
        c.require(not set(closed) & there, "CATEGORY", where(e), f"{now}: a connected worker is reported closed ({sorted(closed)})", key="closed")
        c.require(w.owed <= set(closed), "CLOSED", where(e), f"{now}: closed are {sorted(closed)}", key="owed")
        c.require(not closing or len(there) > w.count, "CATEGORY", where(e), f"{now}: {sorted(closing)} are reported closing", key="spare")
        if pick == "all" and len(there) > w.count:
            c.require(len(closing) == len(there) - w.count, "SPARE", where(e), f"{now}: of the {len(there) - w.count} workers too many {sorted(closing)} are closed", key="spare")
        ret = [x for x in evs if x.kind == "call" and x.get("name") == "retire_workers"]
        posted = not any(x.kind == "callraised" and x.call is e for x in evs)
        if not posted:
            c.require(not ret, "RETIRE", where(ret[0]) if ret else q, "workers are retired although the gateway was not told that they close", key="early")
            c.require(o.kind != "ret", "LOUD", where(e), "a heartbeat that failed looks like one that was accepted", key="quiet")
        else:
            names = []
            for x in ret:
                try:
                    names += at(x, (x.get("kwargs") or {}).get("names", x.args[0] if x.args else None))
                except (Unknown, AttributeError):
                    names.append(show(x.result))
            c.require(sorted(names) == sorted(closing), "RETIRE", where(ret[0]) if ret else q, f"{sorted(closing)} are reported closing, but {sorted(map(str, names))} are retired", key="which")
            for x in ret:
                kw = x.get("kwargs") or {}
                c.require(kw.get("close_workers") is const(True) and kw.get("remove", const(True)) is const(True), "RETIRE", where(x), "the workers are not closed after they were retired", key="close")
        conn = p.connected(o.st)
        gone = {"w" + x for x in w.conn - conn}
        if during and during[1][0] == "remove" and posted:
            # left while the heartbeat was under way: the message sent did not say so
            gone |= {"w" + during[1][1]}
        owed = (set() if posted else set(w.owed)) | gone
        owed -= {"w" + x for x in conn}
        if o.kind == "ret" or True:
            yield World(o.st, conn, frozenset(owed), w.count)


def explore(c, addrs, limit):
    p = Plugin(c, addrs)
    start = World(p.st)
    seen = {start.key(p)}
    todo = [start]
    n = 0
    while todo and n < limit:
        w = todo.pop(0)
        n += 1
        nxt = []
        for a in addrs:
            if a in w.conn:
                for o in p.op(w.st, "remove", a):
                    c.require(o.kind == "ret", "CATEGORY", p.k.qual, "the departure of a worker fails", key="remove")
                    if o.kind == "ret":
                        nxt.append(World(o.st, w.conn - {a}, w.owed | {"w" + a}, w.count))
            else:
                for o in p.op(w.st, "add", a):
                    c.require(o.kind == "ret", "CATEGORY", p.k.qual, "the arrival of a worker fails", key="add")
                    if o.kind == "ret":
                        nxt.append(World(o.st, w.conn | {a}, w.owed - {"w" + a}, w.count))
        for k in range(0, len(addrs) + 1):
            if k != w.count:
                for o in p.op(w.st, "scale", (k,)):
                    if o.kind == "ret":
                        nxt.append(World(o.st, w.conn, w.owed, k))
        for fail, pick, during in heartbeats(w, addrs):
            nxt += list(heartbeat(c, p, w, fail, pick, during))
        for x in nxt:
            k = x.key(p)
            if k not in seen:
                seen.add(k)
                todo.append(x)
    c.paths += n
    c.analysed(*p.I.inlined)
    c.notes.append(f"{n} states of the plugin with {len(addrs)} workers visited, {len(todo)} left")
    c.require(n > 20, "CATEGORY", p.k.qual, "the plugin has almost no states", key="states")


def heartbeats(w, addrs):
    yield None, "all", None
    yield "heartbeat", "all", None
    if len(w.conn) > w.count:
        yield None, "first", None
        yield None, "none", None
        yield "retire_workers", "all", None
    for a in addrs:
        yield None, "all", ("heartbeat", ("remove" if a in w.conn else "add", a))


def loop(c):
    """the loop of heartbeats: failures, requests while it waits, requests while a heartbeat is under way"""
    q = MOD + ".GatewaySchedulerService.heartbeat_loop"
    for period in (15, 0):
        top = period or 3600
        for fails in ((), (1,), (2,), (1, 2), (2, 3, 4), tuple(range(1, 8))):
            n = 0
            for o, log in _logs(c, period=period, beats={k: "fail" for k in fails}, steps=8):
                n += 1
                beats = [e for e in log if e[0] == "beat"]
                c.require(len(beats) >= 8, "LOOP", q, f"after failures of the heartbeats {fails} the loop ends", key="ends")
                k = 0
                for e, nxt in zip(log, log[1:]):
                    if e[0] == "beat":
                        k += 1
                        c.require(nxt[0] == "wait" and nxt[1] is not None and 0 < nxt[1] <= top, "LOOP", q,
                                  f"after heartbeat {k} ({'failed' if k in fails else 'accepted'}) the loop waits {nxt[1:]} with a period of {period}", key="wait")
                    else:
                        c.require(nxt[0] == "beat", "LOOP", q, f"the loop does not send a heartbeat after it waited ({nxt[0]})", key="beat")
            c.require(n, "LOOP", q, "the loop has no outcome", key="none")
        for waits, beats in (({2: "cancel"}, {}), ({1: "cancel"}, {}), ({}, {2: "cancel"})):
            for o, log in _logs(c, period=period, waits=waits, beats=beats, steps=5):
                c.require(len([e for e in log if e[0] == "beat"]) <= 2, "STOP", q, "the loop goes on after it was cancelled", key="cancel")
        for what, waits, beats in (("while the loop waits", {2: ("scale", (3,))}, {}), ("while the loop waits for the first heartbeat", {1: ("scale", (3,))}, {}),
                                   ("while a heartbeat is under way", {}, {2: ("scale", (3,))}), ("while a heartbeat is under way", {}, {1: ("scale", (3,))}),
                                   ("twice while the loop waits", {2: ("scale", (3,)), 3: ("scale", (4,))}, {}),
                                   ("during a wait and the heartbeat after it", {2: ("scale", (3,))}, {2: ("scale", (4,))}),
                                   ("during a heartbeat and the wait after the next", {3: ("scale", (4,))}, {2: ("scale", (3,))})):
            for o, log in _logs(c, period=period, waits=waits, beats=beats, steps=6):
                ops = 0
                for i, e in enumerate(log):
                    if e[0] != "op":
                        continue
                    ops += 1
                    rest = log[i + 1:]
                    k = next((j for j, x in enumerate(rest) if x[0] == "beat"), len(rest))
                    c.require(e[-1] == "ret", "WAKE", q, f"a scale request {what} fails", key="fails")
                    c.require(k < len(rest) and not [x for x in rest[:k] if x[0] == "wait" and x[1] != 0], "WAKE", q,
                              f"a count requested {what} is reported only after another {[x[1] for x in rest[:k] if x[0] == 'wait']} seconds (period {period})", key="late " + what)
                    if k < len(rest):
                        c.require(rest[k][1] == e[2][0], "WAKE", q, f"after a scale to {e[2][0]} the next heartbeat reports {rest[k][1]}", key="count")
                    for x, y in zip(rest[k + 1:], rest[k + 2:]):
                        c.require(not (x[0] == y[0] == "beat"), "WAKE", q, "heartbeats follow each other without a wait after one scale request", key="busy") if not [z for z in rest if z[0] == "op"] else None
                c.require(ops == len(waits) + len(beats), "WAKE", q, "the loop does not get to the requests", key="ops")


def _logs(c, **kw):
    L = Loop(c, **kw)
    r = L.run()
    c.paths += len(r)
    c.analysed(*L.p.I.inlined)
    return r


def notices(c):
    """a worker that dies, or one too many, is noticed within seconds: the waiting loop is woken"""
    for period in (15, 0):
        p = Plugin(c, "ab", period)
        st = p.op(p.st, "scale", (1,))[0].st
        a = [o.st for o in p.op(st, "add", "a") if o.kind == "ret"]
        for s in a:
            for what, op, need in (("a worker too many arrives", ("add", "b"), True), ("a worker dies", ("remove", "a"), bool(period))):
                old = len(events(s.trace))
                for o in p.op(s, *op):
                    c.paths += 1
                    soon = [e for e in events(o.st.trace)[old:] if e.kind == "call" and e.get("name") in ("interrupt_soon", "ensure_future", "create_task", "interrupt")]
                    c.require(soon or not need, "SOON", p.k.qual, f"when {what} nothing makes the plugin report before the period ends", key=op[0])


def posts(c):
    """what GatewayClient sends"""
    k = c.prog.cls(MOD, "GatewayClient")
    I = Interp(c.prog, c.types)
    st = I.new_state()
    from .optw import make
    N, T, U = V("param", "cluster"), V("param", "token"), V("param", "url")
    ok, bad = make(I, st, k.qual, [N, T, U], {})
    f = k.find_method("heartbeat")
    M = V("param", "msg")
    n = 0
    for s, g in ok:
        for o in I.run_function(f, [M], selfv=g, st=s.fork()):
            if o.kind != "ret":
                continue
            n += 1
            c.paths += 1
            evs = events(o.st.trace)
            reqs = [e for e in evs if e.kind == "call" and e.get("name") == "fetch"]
            c.require(len(reqs) == 1, "SENT", f.qual, "a heartbeat returns without a single request to the gateway", key="one")
            for e in reqs:
                h = [x for x in evs if x.kind == "call" and x.get("name") == "HTTPRequest"]
                r = e.args[0] if e.args else None
                raw = {**(e.get("kwargs") or {})}
                for x in h:
                    if x.result is r or contains(r, lambda y: y is x.result):
                        raw = {**raw, **(x.get("kwargs") or {})}
                        if x.args:
                            raw.setdefault("url", x.args[0])
                c.require(raw.get("raise_error", const(True)) is const(True), "SENT", where(e), "an error reply of the gateway is taken for an acceptance", key="raise")
                c.require(raw.get("method") is const("POST"), "SENT", where(e), "the heartbeat is not a POST", key="method")
                url = raw.get("url", r)
                c.require(url is not None and contains(url, lambda y: y is N, e.heap) and contains(url, lambda y: y is U, e.heap) and contains(url, lambda y: y.k == "const" and isinstance(y.a[0], str) and "heartbeat" in y.a[0], e.heap),
                          "SENT", where(e), "the heartbeat does not go to the cluster's address", key="url")
                c.require("body" in raw and contains(raw["body"], lambda y: y is M, e.heap), "SENT", where(e), "the body is not the message", key="body")
                c.require("headers" in raw and contains(raw["headers"], lambda y: y is T, e.heap), "SENT", where(e), "the token is not sent", key="token")
    c.require(n, "SENT", f.qual, "a heartbeat never returns", key="none")
    c.analysed(*I.inlined)


def run(c):
    c.rule("LOOP", "the loop sends one heartbeat after each wait, survives any sequence of failures, and never waits longer than the heartbeat period")
    c.rule("STOP", "cancelling the loop ends it")
    c.rule("WAKE", "a changed count is reported by the next heartbeat, which is sent at once whether the loop waits or a heartbeat is under way, and then the loop waits again")
    c.rule("SOON", "an unexpected departure (when liveness is tracked), or a worker too many, makes the plugin report soon")
    c.rule("SENT", "a heartbeat is one authenticated POST of the message to the cluster's own address, and an error reply is a failure")
    c.rule("ONE", "a heartbeat sends one message")
    c.rule("COUNT", "in every reachable state a heartbeat reports the requested count")
    c.rule("CATEGORY", "in every reachable state the connected workers are each reported exactly once, as active or as closing, closing only when there are more than requested, and none of them as closed")
    c.rule("CLOSED", "every worker that has left since the last accepted heartbeat, and not returned, is reported closed")
    c.rule("RETIRE", "exactly the workers the gateway accepted as closing are retired and closed, and none when the heartbeat failed")
    c.rule("SPARE", "when more workers are connected than requested, those that the scheduler proposes to close are reported closing")
    c.rule("LOUD", "a heartbeat that was not accepted fails")
    explore(c, "abc" if c.tier == "quick" else "abcd", 6000)
    loop(c)
    notices(c)
    posts(c)
    for r, k in (("ONE", 500), ("COUNT", 500), ("CATEGORY", 1000), ("CLOSED", 500), ("RETIRE", 500), ("LOUD", 100), ("SPARE", 100), ("LOOP", 100), ("STOP", 6), ("WAKE", 40), ("SOON", 4), ("SENT", 6)):
        c.floor(r, k)
