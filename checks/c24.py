"""C24: per-item serialisation, no lost items and no lost wakeups in the work queue.

Every operation is followed from every kind of state it can meet (an item that
is new, queued, being handled, or being handled and added again; another item
queued or not; waiters asleep, already woken or none; open or closed), and must
keep the invariant that makes the statement true:

  the queue holds, once each, exactly the dirty items that are not being
  handled; and either nobody is asleep or at least as many woken consumers
  are about to run as there are items in the queue.
"""
import ast
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show

SELF = V("param", "self")
X, Y = const("x"), const("y")
MOD = "dask_gateway_server.workqueue"


def w(i):
    return V("call", V("builtin", "waiter"), (), (), i)


class World:
    def __init__(self, c, k, dirty=(), processing=(), queue=(), waiting=(), closed=False, timers=None, awaits=None):
        self.c, self.k = c, k
        self.done = {}
        I = self.I = Interp(c.prog, c.types, results=self.result, raises=self.raised)
        I.unroll = 4
        I.awaits = awaits
        I.asks = self.ask
        I.term_types[SELF] = k.qual
        st = self.st = I.new_state()
        self.pre = dict(dirty=set(dirty), processing=set(processing), queue=list(queue), waiting=[x for x, _ in waiting], closed=closed)
        self.sleeping = [x for x, d in waiting if not d]
        self.ref = {}
        for name, kind, xs in (("_dirty", "set", dirty), ("_processing", "set", processing), ("_queue", "list", queue), ("_waiting", "list", [x for x, _ in waiting])):
            self.put(name, st.alloc(Obj("list", lk=kind, segs=tuple(("one", x) for x in xs))))
        self.put("_timers", st.alloc(Obj("dict", layers=tuple(("kv", a, b) for a, b in (timers or {}).items()))))
        self.put("closed", const(closed))
        for x, d in waiting:
            self.know(st, x, d)

    def put(self, name, v):
        self.ref[name] = v
        self.st.store = {**self.st.store, (SELF, name): v}

    def know(self, st, x, done, cancelled=False):
        """the state of a waiter, which is no other waiter"""
        others = {t[1] for t in st.ghost if t[0] == "done"} - {x}
        f = st.facts.copy()
        for y in others:
            f.tr[V("cmp", "==", *sorted((x, y)))] = False
        st.facts = f
        st.ghost = {**st.ghost, ("done", x): done, ("cancelled", x): cancelled}

    def result(self, I, st, name, func, args, kw):
        fv = I.callee
        if fv.k in ("attr", "bm") and name in ("done", "cancelled"):
            return self.ask(I, st, fv.a[0], name)
        if fv.k in ("attr", "bm") and name == "set_result":
            if st.ghost.get(("done", fv.a[0])):
                st.ghost = {**st.ghost, ("bad", fv.a[0]): True}
            self.know(st, fv.a[0], True)
        if name == "create_future":
            r = V("call", V("builtin", "waiter"), (), (), 100 + st.fresh())
            self.know(st, r, False)
            return r
        return None

    def ask(self, I, st, base, name):
        if name in ("done", "cancelled"):
            d = st.ghost.get((name, base))
            if d is not None:
                return const(d)
        return None

    def raised(self, I, st, ev):
        fv = ev.get("callee")
        if ev.get("name") == "set_result" and fv is not None and fv.k in ("attr", "bm") and (st.ghost or {}).get(("bad", fv.a[0])):
            return ["InvalidStateError"]
        return None

    def run(self, name, *args):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.name} has no {name}")
        outs = self.I.run_function(f, list(args), selfv=SELF, st=self.st)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        self.where = f"{f.module.rel()}:{f.line} ({self.k.name}.{name})"
        for o in outs:
            yield o, After(self, o)


class After:
    def __init__(self, world, o):
        st = self.st = o.st
        self.world = world
        self.o = o

        def items(name):
            r = st.store.get((SELF, name))
            ob = st.heap.get(r.a[0]) if r is not None and r.k == "ref" else None
            if ob is None:
                return None
            if ob.kind == "dict":
                return {l[1]: l[2] for l in ob.layers} if all(l[0] == "kv" for l in ob.layers) else None
            return [g[1] for g in ob.segs] if all(g[0] == "one" for g in ob.segs) else None
        self.dirty, self.processing, self.queue, self.waiting, self.timers = (items(n) for n in ("_dirty", "_processing", "_queue", "_waiting", "_timers"))
        self.closed = st.store.get((SELF, "closed"))
        evs = self.evs = list(walk_events(events(st.trace)))
        self.woken = [e.callee.a[0] for e in evs if e.kind == "call" and e.get("name") == "set_result"]

    def known(self):
        return None not in (self.dirty, self.processing, self.queue, self.waiting)


def invariant(c, a, text, key):
    """the queue is what it has to be"""
    ws = a.world.where
    if not c.require(a.known(), "STATE", ws, f"what the queue holds is not determined ({text})", key=f"{key} known"):
        return False
    want = {x for x in a.dirty if x not in a.processing}
    c.require(len(a.queue) == len(set(a.queue)), "ONCE", ws, f"an item is queued twice ({text})", key=f"{key} twice")
    c.require(not set(a.queue) & set(a.processing), "SERIAL", ws, f"an item that is being handled can be handed out ({text})", key=f"{key} serial")
    c.require(want <= set(a.queue), "LOST", ws, f"an item that was added is never handed out ({text})", key=f"{key} lost")
    c.require(set(a.queue) <= want, "ONCE", ws, f"an item is handed out again although it was not added again ({text})", key=f"{key} stale")
    return True


def awake(c, a, text, key):
    """nobody sleeps while there are more items than consumers about to run"""
    wd = a.world
    if a.closed == const(True) and not wd.pre["closed"]:
        return
    before = wd.pre
    sleepers = [x for x in wd.sleeping if x not in a.woken]
    if not sleepers:
        return
    # before: sleepers imply woken >= len(queue); the least favourable case is equality
    more = len(a.queue) - len(before["queue"])
    got = len([x for x in a.woken if x in wd.sleeping])
    c.require(got >= more, "WAKE", wd.where, f"an item is available but no waiting consumer is woken ({text})", key=f"{key} wake")
    c.require(all(x in a.waiting for x in sleepers), "WAKE", wd.where, f"a waiting consumer is forgotten ({text})", key=f"{key} forgotten")


STATES = {"new": ((), ()), "queued": ((X,), ()), "handled": ((), (X,)), "handled and added again": ((X,), (X,))}


def worlds(c, k, closed=(False,), waits=None):
    """every kind of state an operation on x can meet"""
    for (sx, (d, p)), other, wt, cl in itertools.product(STATES.items(), (False, True), waits or waiters(), closed):
        q = [x for x in d if x not in p] + ([Y] if other else [])
        for qq in {tuple(q), tuple(reversed(q))}:
            yield f"item {sx}, {'another queued' if other else 'no other'}, {len([1 for _, z in wt if not z])} asleep", sx, dict(
                dirty=d + ((Y,) if other else ()), processing=p, queue=qq, waiting=wt, closed=cl)


def waiters():
    return ((), ((w(1), False),), ((w(1), True), (w(2), False)), ((w(1), False), (w(2), False)))


def ops(c, k):
    for text, sx, cfg in worlds(c, k, closed=(False, True)):
        for o, a in follow(c, k, cfg, "put", X):
            if not finished(c, o, a, "put", text):
                continue
            if invariant(c, a, f"put, {text}", "put"):
                c.require(X in a.dirty, "LOST", a.world.where, f"an item that is put is dropped ({text})", key="put drop")
                rest(c, a, {X}, "put", text)
                awake(c, a, f"put, {text}", "put")
        if sx.startswith("handled"):
            for o, a in follow(c, k, cfg, "task_done", X):
                if not finished(c, o, a, "task_done", text):
                    continue
                if invariant(c, a, f"task_done, {text}", "done"):
                    c.require(X not in a.processing, "LOST", a.world.where, f"an item stays marked as being handled ({text})", key="done mark")
                    c.require((X in a.dirty) == (X in a.world.pre["dirty"]), "LOST", a.world.where, f"finishing an item changes whether it is to be handed out again ({text})", key="done dirty")
                    rest(c, a, {X}, "task_done", text)
                    awake(c, a, f"task_done, {text}", "done")
        for o, a in follow(c, k, cfg, "close"):
            if not finished(c, o, a, "close", text):
                continue
            if invariant(c, a, f"close, {text}", "close"):
                c.require(a.closed == const(True), "CLOSE", a.world.where, "closing does not mark the queue as closed", key="close mark")
                c.require(set(a.world.sleeping) <= set(a.woken), "CLOSE", a.world.where, "closing does not wake every waiting consumer", key="close wake")


def rest(c, a, mine, op, text):
    b = a.world.pre
    for name in ("dirty", "processing", "queue"):
        c.require([x for x in getattr(a, name) if x not in mine] == [x for x in b[name] if x not in mine], "LOST", a.world.where, f"{op} changes another item ({text})", key=f"{op} other")
    c.require(a.closed == const(b["closed"]), "CLOSE", a.world.where, f"{op} opens or closes the queue", key=f"{op} closed")


def follow(c, k, cfg, name, *args, **kw):
    yield from World(c, k, **cfg, **kw).run(name, *args)


def finished(c, o, a, op, text):
    twice = [x for x in a.woken if a.woken.count(x) > 1 or x in a.world.pre["waiting"] and x not in a.world.sleeping]
    c.require(not twice, "WAKE", a.world.where, f"{op} wakes a consumer that is gone, which fails ({text})", key=f"{op} woken twice")
    return c.require(o.kind == "ret" or bool(twice), "LOST", a.world.where, f"{op} fails ({text})", key=f"{op} raises") and o.kind == "ret"


def gets(c, k):
    """taking an item at once"""
    n = 0
    for text, sx, cfg in worlds(c, k):
        if not cfg["queue"]:
            continue
        for o, a in follow(c, k, cfg, "get", awaits=lambda I, st, v: [(None, None)]):
            n += 1
            taken(c, o, a, cfg["queue"], f"get, {text}")
    for text, sx, cfg in worlds(c, k, closed=(True,)):
        for o, a in follow(c, k, cfg, "get", awaits=lambda I, st, v: [(None, None)]):
            n += 1
            refuse(c, o, a, f"get, {text}")
    c.require(n > 0, "STATE", k.qual, "get never returns", key="n")


def taken(c, o, a, queue, text):
    if not c.require(o.kind == "ret" and o.val in queue, "LOST", a.world.where, f"get does not hand out an item that is queued ({text})", key="get none"):
        return
    c.require(not any(e.kind in ("await", "suspend") for e in a.evs[-1:]), "STATE", a.world.where, "get waits", key="get waits")
    if invariant(c, a, text, "get"):
        b = a.world.pre
        c.require(o.val in a.processing, "SERIAL", a.world.where, f"an item that is handed out is not marked as being handled ({text})", key="get mark")
        c.require(o.val not in a.dirty and o.val not in a.queue, "ONCE", a.world.where, f"an item that is handed out stays queued ({text})", key="get stays")
        c.require(o.val == queue[0], "LOST", a.world.where, f"get does not hand out the item that waited longest ({text})", key="get order")
        c.require([x for x in a.queue] == [x for x in queue if x != o.val] and set(a.processing) - {o.val} == b["processing"], "LOST", a.world.where, f"get changes another item ({text})", key="get other")


def ended(a, o, name):
    if o.kind != "raise":
        return False
    ob = o.st.heap.get(o.val.a[0]) if o.val.k == "ref" else None
    return name in (ob.cls if ob is not None else show(o.val))


def refuse(c, o, a, text):
    c.require(ended(a, o, "WorkQueueClosed"), "CLOSE", a.world.where, f"get does not end with WorkQueueClosed on a closed queue ({text})", key="closed")


def waits(c, k):
    """a consumer that has to wait: what can have happened when it runs again"""
    def setup(queue, closed, woken, other):
        def effect(st, wd, me):
            add = lambda n, f: st.setobj(wd.ref[n], st.obj(wd.ref[n]).replace(segs=f(st.obj(wd.ref[n]).segs)))
            if queue:
                add("_queue", lambda s: (("one", Y),))
                add("_dirty", lambda s: (("one", Y),))
            if other:
                add("_waiting", lambda s: s + (("one", w(1)),))
                wd.know(st, w(1), False)
            if woken:
                add("_waiting", lambda s: tuple(g for g in s if g[1] is not me))
            if closed:
                st.store = {**st.store, (SELF, "closed"): const(True)}
        return effect

    for queue, closed, other, how in itertools.product((False, True), (False, True), (False, True), ("woken", "woken, then cancelled", "cancelled")):
        text = f"{how}, {'an item' if queue else 'nothing'} queued, {'closed' if closed else 'open'}, {'another asleep' if other else 'alone'}"
        eff = setup(queue, closed, how != "cancelled", other)
        box = {}

        def awaits(I, st, v, eff=eff, how=how, box=box):
            wd = box["w"]
            if sum(1 for e in walk_events(events(st.trace)) if e.kind == "await"):
                return [(None, "CancelledError")]

            def act(s):
                # it was registered before it went to sleep
                ob = s.obj(wd.ref["_waiting"])
                box.setdefault("registered", []).append(any(g[1] is v for g in ob.segs) and (s.ghost or {}).get(("done", v)) is False)
                box["me"] = v
                eff(s, wd, v)
                wd.know(s, v, True, how == "cancelled")
            return [(act, "CancelledError" if how != "woken" else None)]

        wd = box["w"] = World(c, k, awaits=awaits)
        n = 0
        for o, a in wd.run("get"):
            n += 1
            me = box.get("me")
            again = sum(1 for e in a.evs if e.kind == "await") > 1
            c.require(bool(box.get("registered")) and all(box["registered"]), "WAKE", wd.where, "a consumer goes to sleep without being registered as waiting", key="register")
            if me is None:
                continue
            if how == "woken":
                if closed:
                    refuse(c, o, a, f"get, {text}")
                elif queue:
                    a.world.pre = dict(a.world.pre, dirty={Y}, queue=[Y])
                    taken(c, o, a, [Y], f"get, {text}")
                else:
                    c.require(again, "LOST", wd.where, f"get does not wait again when the item is gone ({text})", key="again")
                continue
            c.require(ended(a, o, "CancelledError"), "STATE", wd.where, f"a cancelled get does not end ({text})", key="cancel")
            twice = [x for x in a.woken if x is me]
            c.require(not twice, "WAKE", wd.where, f"a cancelled consumer is woken, which fails ({text})", key="cancel twice")
            if queue and other and not closed and how != "cancelled":
                c.require(w(1) in a.woken, "WAKE", wd.where, "a consumer that is cancelled after it was woken does not wake another one for the item", key="handover")
            if a.known():
                c.require((Y in a.queue) == queue and not a.processing, "LOST", wd.where, f"a cancelled get takes an item ({text})", key="cancel takes")
        c.require(n > 0, "STATE", wd.where, f"get is not followed ({text})", key="followed")


def delayed(c, k):
    """put_after: an item that is scheduled is not lost"""
    for sx, (d, p), old in ((s, x, t) for s, x in STATES.items() for t in (False, True)):
        q = [x for x in d if x not in p]
        delay, H, T = V("param", "delay"), w(7), V("param", "when")
        cfg = dict(dirty=d, processing=p, queue=q, waiting=((w(1), False),), timers={X: V("tuple", H, T)} if old else {})
        text = f"item {sx}, {'already scheduled' if old else 'not scheduled'}"
        for o, a in follow(c, k, cfg, "put_after", X, delay):
            if not finished(c, o, a, "put_after", text):
                continue
            if not invariant(c, a, f"put_after, {text}", "after"):
                continue
            timer(c, k, o, a, text, old, delay, H, T)
            awake(c, a, f"put_after, {text}", "after")
    # the timer goes off
    for text, sx, cfg in worlds(c, k, waits=(((w(1), False),),)):
        cfg["timers"] = {X: V("tuple", w(7), V("param", "when"))}
        f = callback(c, k)
        if f is None:
            return
        for o, a in follow(c, k, cfg, f, X):
            if finished(c, o, a, "the timer", text) and invariant(c, a, f"timer, {text}", "timer"):
                c.require(X in a.dirty, "LOST", a.world.where, "an item is not put when its delay is over", key="timer put")
                c.require(a.timers is not None and X not in a.timers, "LOST", a.world.where, "a delay that is over still counts as scheduled, so that later ones are ignored", key="timer entry")
                awake(c, a, f"timer, {text}", "timer")


def calls_at(a):
    return [e for e in a.evs if e.kind == "call" and e.get("name") in ("call_at", "call_later")]


def callback(c, k):
    for o, a in follow(c, k, {}, "put_after", X, V("param", "delay")):
        for e in calls_at(a):
            m = [y.a[1] for y in e.args if y.k == "bound"]
            if m and m[0] in c.prog.funcs:
                return c.prog.funcs[m[0]].name
    c.fail("LOST", k.qual, "put_after never schedules anything", key="schedule")
    return None


def timer(c, k, o, a, text, old, delay, H, T):
    ws = a.world.where
    new = calls_at(a)
    cancelled = any(e.kind == "call" and e.get("name") == "cancel" and e.callee.a[0] is H for e in a.evs)
    put = [e for e in a.evs if X in a.dirty and X not in a.world.pre["dirty"]]
    now = X in a.dirty
    live = a.timers is not None and X in a.timers and (any(e.result in set(subterms(a.timers[X])) for e in new) or (a.timers[X].k == "tuple" and a.timers[X].a[0] is H and not cancelled))
    c.require(len(new) <= 1, "ONCE", ws, f"an item is scheduled {len(new)} times ({text})", key="timer twice")
    c.require(live or put or now and not new, "LOST", ws, f"an item that is put with a delay is neither queued nor scheduled ({text})", key="timer lost")
    if a.timers is not None and X in a.timers:
        c.require(not (a.timers[X].k == "tuple" and a.timers[X].a[0] is H and cancelled), "LOST", ws, f"a cancelled delay still counts as scheduled ({text})", key="timer dead")
    F = o.st.facts
    if new:
        e = new[0]
        at = e.args[0]
        base = [x for x in subterms(at) if x.k == "call" and "time" in show(x.a[0])]
        want = delay in set(subterms(at)) and (e.name == "call_later" and at is delay or e.name == "call_at" and bool(base))
        c.require(want, "LOST", ws, f"an item is scheduled for {show(at)[:50]}", key="timer when")
        c.require(e.args[-1] == X or any(X in set(subterms(y)) for y in e.args), "LOST", ws, "another item is scheduled", key="timer item")
        c.require(a.timers is not None and X in a.timers and e.result in set(subterms(a.timers[X])), "LOST", ws, f"the delay is not recorded ({text})", key="timer record")
        if old:
            c.require(cancelled, "ONCE", ws, "the later delay of an item stays scheduled", key="timer old")
            c.require(any(s and l.get(T) == -1 and l.get(delay) == 1 for l, s in bounds(F)), "LOST", ws, "an item is rescheduled although it was due earlier", key="timer later")
        c.require(not put, "ONCE", ws, "an item is queued before its delay is over", key="timer early")
    elif old and not put and not cancelled:
        if live:
            c.require(any(l.get(T) == 1 and l.get(delay) == -1 for l, s in bounds(F)) or now, "LOST", ws, "an item that is due sooner is left to its later schedule", key="timer keep")
    elif put:
        c.require(any(l.get(delay) == 1 and set(l) <= {delay, None} and l.get(None, 0) >= 0 for l, s in bounds(F)), "ONCE", ws, "an item is queued before its delay is over", key="put early")
        if old:
            c.require(a.timers is not None and X not in a.timers, "LOST", ws, "a delay that is over still counts as scheduled", key="put entry")


def backoff(c, k):
    f = k.find_method("put_backoff")
    if f is None:
        raise Broken("no put_backoff")
    n = 0
    for o, a in follow(c, k, {}, "put_backoff", X):
        n += 1
        c.require(o.kind == "ret" and a.known() and (X in a.dirty or calls_at(a)), "LOST", a.world.where, "an item put with a backoff is neither queued nor scheduled", key="backoff")
    c.require(n > 0, "STATE", k.qual, "put_backoff", key="backoff n")
    b = c.prog.cls(MOD, "Backoff")
    for g in b.methods.values():
        c.analysed(g)
        for x in ast.walk(g.node):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Pow):
                c.require(guarded(g.node, x), "BACKOFF", f"{g.module.rel()}:{x.lineno} ({b.name}.{g.name})", "the backoff overflows after enough failures, and the item is not put", key=f"pow {g.name}")


def guarded(fn, x):
    """the power cannot overflow, or the overflow is handled"""
    for t in ast.walk(fn):
        if isinstance(t, ast.Try) and any(x is y for s in t.body for y in ast.walk(s)):
            for h in t.handlers:
                names = {y.id for y in ast.walk(h.type) if isinstance(y, ast.Name)} if h.type is not None else {"Exception"}
                if names & {"OverflowError", "ArithmeticError", "Exception", "BaseException"}:
                    return True
    e = x.right
    names = {e.id} if isinstance(e, ast.Name) else set()
    if isinstance(e, ast.Constant) or small(e):
        return True
    asg = [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in s.targets)]
    return bool(asg) and all(small(s.value) or isinstance(s.value, ast.Constant) for s in asg[-1:])


def small(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "min" and any(isinstance(a, ast.Constant) and isinstance(a.value, int) and a.value <= 1000 for a in e.args)


def initial(c, k):
    f = k.find_method("__init__")
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = k.qual
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        c.analysed(f)
        for n in ("_waiting", "_queue", "_processing", "_dirty", "_timers"):
            v = o.st.store.get((SELF, n))
            ob = o.st.heap.get(v.a[0]) if v is not None and v.k == "ref" else None
            c.require(ob is not None and not (ob.segs if ob.kind == "list" else ob.layers), "STATE", f"{f.module.rel()}:{f.line} (__init__)", f"{n} does not start empty", key=f"init {n}")
            if n in ("_waiting", "_queue") and ob is not None:
                c.require(ob.kind == "list" and ob.lk == "list", "STATE", f"{f.module.rel()}:{f.line} (__init__)", f"{n} is not ordered", key=f"init kind {n}")
        c.require(o.st.store.get((SELF, "closed")) == const(False), "CLOSE", f"{f.module.rel()}:{f.line} (__init__)", "a new queue is not open", key="init closed")


def consumers(c, k):
    """every loop that takes items ends the processing of each"""
    n = 0
    for f in c.prog.funcs.values():
        if "dask_gateway_server" not in f.module.name or f.cls is k:
            continue
        def isq(x):
            return isinstance(x, ast.Attribute) and x.attr == "queue"

        names = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isq(x.value) for t in x.targets if isinstance(t, ast.Name)}
        got = [x for x in ast.walk(f.node) if isinstance(x, ast.Await) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "get"
               and (isq(x.value.func.value) or isinstance(x.value.func.value, ast.Name) and x.value.func.value.id in names) and not x.value.args]
        if not got or f.cls is None:
            continue
        n += 1
        consumer(c, f)
    c.require(n >= 3, "DONE", k.qual, f"only {n} consumers of work queues are found", key="n")


def consumer(c, f):
    bodies = []

    def seen(st, e):
        if e.kind == "loop" and e.func is f:
            bodies[:] = [e] if not bodies or e.node is bodies[0].node else bodies + [e]

    def ends(g):
        return any(isinstance(x, ast.Attribute) and x.attr in ("task_done", "reset_backoff", "put_backoff") for x in ast.walk(g.node))

    def opaque(g, r):
        # helpers that a part of the loop was moved to are followed
        return g is not f and (g.module is not f.module or not ends(g))

    def raises(I, st, ev):
        if ev.get("name") == "get" and "queue" in show(ev.callee):
            return ["CancelledError"] + (["WorkQueueClosed"] if True else [])
        if ev.get("awaited"):
            return ["Exception", "CancelledError"]
        return None
    I = Interp(c.prog, c.types, opaque=opaque, raises=raises, on_event=seen)
    I.term_types[SELF] = f.cls.qual
    I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
    c.analysed(f)
    w0 = f"{f.module.rel()}:{f.line} ({f.cls.name}.{f.name})"
    if not c.require(bool(bodies), "DONE", w0, "the loop over the work queue is not found", key=f"loop {f.cls.name}"):
        return
    m = fresh = 0
    for e in bodies:
        for b in e.bodies:
            evs = list(b.events)
            got = [i for i, x in enumerate(evs) if x.kind == "call" and x.get("name") == "get" and "queue" in show(x.callee)]
            failed = [x for x in evs if x.kind == "callraised" and x.call.get("name") == "get" and "queue" in show(x.call.callee)]
            if not got or failed:
                continue
            m += 1
            c.paths += 1
            r = evs[got[0]].result
            done = [x for x in evs[got[0]:] if x.kind == "call" and x.get("name") == "task_done" and x.args and x.args[0] == r]
            c.require(len(got) == 1 and len(done) == 1, "DONE", w0, f"an item taken from the queue is marked done {len(done)} times", key=f"done {f.cls.name}")
            tail = evs[got[0] + 1:]
            at = lambda *names: [x for x in tail if x.kind == "call" and x.get("name") in names and x.args and x.args[0] == r]
            bad = any(x.kind == "callraised" for x in tail)
            if bad:
                c.require(not at("reset_backoff"), "FRESH", w0, "the delay of an item whose handling failed starts anew, and so does not grow", key=f"grows {f.cls.name}")
            elif not at("put", "put_after", "put_backoff"):
                fresh += 1
                c.require(bool(at("reset_backoff")), "FRESH", w0, "an item whose handling succeeded is still delayed for its earlier failures", key=f"fresh {f.cls.name}")
    c.require(m > 0, "DONE", w0, "no path takes an item", key=f"paths {f.cls.name}")
    c.require(fresh > 0, "FRESH", w0, "no item is ever handled for good", key=f"good {f.cls.name}")


def run_all(c):
    k = c.prog.cls(MOD, "WorkQueue")
    initial(c, k)
    ops(c, k)
    gets(c, k)
    waits(c, k)
    delayed(c, k)
    backoff(c, k)
    consumers(c, k)


def run(c):
    c.rule("STATE", "the operations keep the bookkeeping of the queue determined")
    c.rule("SERIAL", "an item being handled is not in the queue")
    c.rule("ONCE", "an item is in the queue at most once, and only if it was added")
    c.rule("LOST", "an item that was added, or scheduled, stays so until it is handed out")
    c.rule("WAKE", "nobody sleeps while more items are queued than woken consumers are about to run")
    c.rule("CLOSE", "closing wakes everybody, and get on a closed queue ends")
    c.rule("BACKOFF", "the backoff of an item can always be computed")
    c.rule("DONE", "every consumer ends the processing of each item it takes")
    c.rule("FRESH", "the delays of an item grow while its handling fails, and start anew once it has succeeded")
    run_all(c)
    c.assumptions += ["asyncio: code between two suspension points is not interrupted; a cancelled wait leaves its future done.",
                      "task_done is called only for items that were handed out (rule DONE)."]
