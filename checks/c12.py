"""C12: every goal change is queued, failures are retried, background tasks survive every failure."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import is_log, subterms, where
from sa.state import events, walk_events
from sa.values import Facts, V, show
from .dblife import DB, SELF, Life, nm, qcall, weaker

TRIGGERS = {"Cluster": ("target", "scheduler_address", "count"), "Worker": ("target",)}
PUTS = ("put", "put_after", "put_backoff")


def elems(v):
    return {x for x in subterms(v) if x.k == "elem"}


def fresh(e):
    """an initial value of an object under construction"""
    return e.obj.k == "ref" and e.func is not None and e.func.name == "__init__"


def restrict(facts, mine):
    """the facts about the elements of one loop"""
    if facts is None:
        return None

    def about(k):
        return any(x in mine for x in subterms(k))
    return Facts(dom={k: v for k, v in facts.dom.items() if about(k)}, ne={k: v for k, v in facts.ne.items() if about(k)},
                 tr={k: v for k, v in facts.tr.items() if about(k)}, rel={k: v for k, v in facts.rel.items() if about(k)})


class Pending:
    """obligations of one path: objects whose goal changed and that have not been queued"""

    def __init__(self, L, I):
        self.L, self.I = L, I

    def scan(self, evs, held=frozenset()):
        """-> (pending [(obj, event)], puts [(obj, facts)])"""
        pend, seg, fin, allputs = [], [], set(), []

        def put(y, facts):
            seg.append((y, facts))
            allputs.append((y, facts))
            pend[:] = [(x, e) for x, e in pend if not (x is y and weaker(facts, e.facts))]
        for e in evs:
            if e.kind == "suspend":
                del seg[:]
            elif e.kind == "loop":
                bodies = [(b, *self.scan(b.events, held | elems(b.elem) if b.elem is not None else held)) for b in e.bodies]
                for b, ps, _ in bodies:
                    # a path that leaves the loop goes on in the enclosing path
                    if b.kind in ("next", "cont"):
                        for x, ev in ps:
                            if not any(x is y and weaker(f, ev.facts) for y, f in seg):
                                pend.append((x, ev))
                # an element queued in every body that runs for it
                by = {}
                for b, _, puts in bodies:
                    if b.elem is not None:
                        by.setdefault(b.elem, []).append((b, {y for y, _ in puts}))
                seg0 = e.seg
                for el, lst in by.items():
                    mine = elems(el) - held
                    entries = self.entry_facts(seg0, el)
                    common = None
                    for b, ys in lst:
                        if b.kind == "raise":
                            continue
                        ys = {y for y in ys if elems(y) & mine or y is el}
                        common = ys if common is None else common & ys
                    for y in common or ():
                        for fa in entries:
                            put(y, restrict(fa, mine))
            elif e.kind == "store" and e.get("attr") in ("target", "scheduler_address", "count") and e.obj is not None and not fresh(e):
                k = e.get("xkind")
                if k and e.attr in TRIGGERS[k] and not any(x is e.obj and weaker(f, e.facts) for x, f in seg):
                    pend.append((e.obj, e))
            elif e.kind == "store" and e.get("attr") == "status" and nm(e.value) in ("STOPPED", "FAILED"):
                fin.add(e.obj)
            elif e.kind == "new" and e.get("xnew"):
                pend.append((e.get("result"), e))
            elif qcall(e) in PUTS and e.kind == "call" and e.args:
                put(e.args[0], None)
        pend[:] = [(x, e) for x, e in pend if x not in fin]
        return pend, allputs

    def entry_facts(self, seg, el):
        if seg[0] == "rep":
            return [f for v, f in seg[1] if v is el] or [None]
        return [None]


def queue_rule(c, L):
    for m in L.roots:
        loops = {}

        def on_event(st, ev):
            if ev.kind == "loop" and ev.seg[0] == "while":
                loops[id(ev)] = ev
            if ev.kind == "store" and ev.get("attr") in ("target", "scheduler_address", "count"):
                ev.a["xkind"] = L.kind(I, ev.obj, st)
            if ev.kind == "new":
                kw = ev.get("kwargs") or {}
                if nm(kw.get("status")) and nm(kw.get("target")):
                    ev.a["xnew"] = True
        I = L.interp(on_event, use_rely=False)
        outs = I.run_function(m, L.params(m), selfv=SELF)
        P = Pending(L, I)
        c.paths += len(outs)
        n = [0]

        def judge(evs):
            pend, _ = P.scan(evs)
            bad = {id(e) for _, e in pend}
            for e in walk_events(evs):
                if e.kind == "store" and e.get("xkind") and e.attr in TRIGGERS[e.xkind] and not fresh(e) or e.kind == "new" and e.get("xnew"):
                    n[0] += 1
                    if id(e) not in bad:
                        c.require(True, "QUEUE", where(e), "")
            for x, e in pend:
                what = "is created" if e.kind == "new" else f"gets a new {e.attr}"
                fn = [s for s in e.stack if isinstance(s, str) and ".DataManager." not in s]
                c.fail("QUEUE", where(e), f"{show(x)[:80]} {what} (called from {fn[-1].split('.')[-1] if fn else m.name}, reached from {m.name}) and is not queued afterwards",
                       key=f"{fn[-1] if fn else m.name} {what}")
        for o in outs:
            if o.kind == "raise" and "Cancelled" in show(o.val):
                continue
            judge(events(o.st.trace))
        for ev in loops.values():
            for b in ev.bodies:
                if b.kind in ("next", "cont"):
                    judge(b.events)
        if n[0]:
            c.analysed(m)


def task_rules(c, L):
    tasks = L.tasks()
    if len(tasks) < 4:
        raise Broken(f"background tasks found: {sorted(tasks)}")

    def handler(fn, r):
        """does not itself acknowledge queue items"""
        if fn.cls is not L.base or fn.name in tasks:
            return False
        return fn.is_async and L.touches(fn, L.base.methods, set()) and not acks(fn, set())

    import ast

    def acks(fn, seen):
        if fn.name in seen:
            return False
        seen.add(fn.name)
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Attribute) and x.attr in ("task_done", "put_backoff", "reset_backoff"):
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in L.base.methods and acks(L.base.methods[x.attr], seen):
                return True
        return False

    SAFE = ("len", "list", "zip", "set", "timestamp", "time", "isinstance")

    def rs(I, st, ev):
        if ev.kind != "call" or is_log(ev):
            return None
        q = qcall(ev)
        n = ev.get("name")
        if q == "get":
            return ["dask_gateway_server.workqueue.WorkQueueClosed", "asyncio.CancelledError"]
        if q is not None or n in SAFE:
            return None
        if n == "sleep":
            return ["asyncio.CancelledError"]
        return ["Exception", "asyncio.CancelledError"]

    for n, m in sorted(tasks.items()):
        reads = any(isinstance(x, ast.Attribute) and x.attr == "get" and isinstance(x.value, ast.Attribute) and x.value.attr == "queue" for x in ast.walk(m.node))
        # the reconciler is examined with its handlers abstract, the loops with the data manager abstract
        I = L.interp(opaque=(lambda fn, r: handler(fn, r) or fn.cls is not None and fn.cls.name == "DataManager"), raises=rs, use_rely=False)
        outs = I.run_function(m, L.params(m), selfv=SELF)
        c.analysed(m)
        c.paths += len(outs)
        bodies = {}
        for o in outs:
            for e in events(o.st.trace):
                if e.kind == "loop" and e.seg[0] == "while":
                    for b in e.bodies:
                        bodies[id(b)] = b
        handled = False
        for o in outs:
            if o.kind == "raise":
                c.require("CancelledError" in show(o.val), "SURVIVE", f"{m.module.rel()}:{m.line} ({n})",
                          f"an exception ({show(o.val)[:60]}) raised in {last(o)} ends the task", key=f"{n} {show(o.val)[:30].split(',')[0]}")
            elif o.kind == "ret":
                evs = list(events(o.st.trace))
                closed = any(e.kind == "except" and "WorkQueueClosed" in show(e.get("exc")) for e in evs)
                c.require(closed, "SURVIVE", f"{m.module.rel()}:{m.line} ({n})", "the task can end before shutdown", key=f"{n} ends")
        # cancellation is not swallowed
        for b in bodies.values():
            evs = list(walk_events(b.events))
            if b.kind in ("next", "cont"):
                c.require(not any(e.kind == "callraised" and "Cancelled" in str(e.get("exc")) for e in b.events), "SURVIVE",
                          f"{m.module.rel()}:{m.line} ({n})", "the cancellation at shutdown is swallowed", key=f"{n} cancel")
            got = [e for e in evs if qcall(e) == "get" and e.kind == "call"]
            if not got:
                continue
            handled = True
            i = evs.index(got[-1])
            after = evs[i + 1:]
            if any(e.kind == "callraised" and qcall_raised(e, after, got[-1]) for e in after[:2]):
                continue        # nothing was taken from the queue
            item = got[-1].get("result")
            w = where(got[-1])
            done = [e for e in after if qcall(e) == "task_done" and e.args and e.args[0] is item]
            c.require(done, "DONE", w, f"an item taken from the queue is not marked as done on a path of {n} ({b.kind})", key=f"{n} {b.kind}")
            failed = [e for e in after if e.kind == "callraised" and "Cancelled" not in str(e.get("exc"))]
            if failed:
                again = [e for e in after if qcall(e) == "put_backoff" and e.args and e.args[0] is item]
                c.require(again, "RETRY", w, f"an item whose handling failed is not queued again with a delay in {n}", key=n)
                reset = [e for e in after if qcall(e) == "reset_backoff" and e.args and e.args[0] is item]
                c.require(not reset, "RETRY", w, f"the delay of an item whose handling failed is reset in {n}", key=n + " reset")
            elif b.kind in ("next", "cont"):
                calls = [e for e in after if e.kind == "call" and item in (e.get("args") or ()) and not is_log(e) and qcall(e) is None]
                c.require(calls, "DONE", w, f"an item taken from the queue is dropped by {n}", key=n + " dropped")
        if reads and not handled:
            raise Broken(f"{n} takes nothing from the queue")
    c.floor("RETRY", 2)
    c.floor("DONE", 4)
    c.floor("SURVIVE", 8)

    # started at set-up, ended only at clean-up
    f = L.base.find_method("setup")
    I = L.interp(opaque=lambda fn, r: fn.cls is not None and fn.cls.name == "DataManager", raises=lambda *a: None, do_raises=False, use_rely=False)
    c.analysed(f)
    n = 0
    for o in I.run_function(f, L.params(f), selfv=SELF):
        if o.kind != "ret":
            continue
        n += 1
        started = {}
        for e in walk_events(events(o.st.trace)):
            if e.kind == "spawn":
                ob = e.heap.get(e.coro.a[0]) if e.coro is not None and e.coro.k == "ref" else None
                fn = getattr(ob, "func", None)
                if fn is not None:
                    started.setdefault(fn.name, e)
        for t in tasks:
            c.require(t in started, "START", f"{f.module.rel()}:{f.line} (setup)", f"the background task {t} is not started", key=t)
    if not n:
        raise Broken("setup never returns")
    c.floor("START", 4)


def qcall_raised(e, after, got):
    """the failing call is the queue's get itself"""
    return "WorkQueueClosed" in str(e.get("exc")) or after.index(e) <= 1 and "Cancelled" in str(e.get("exc"))


def last(o):
    for e in reversed(list(events(o.st.trace))):
        if e.kind == "callraised":
            return e.get("name") or where(e)
    return "?"


def backoff_rules(c):
    k = c.prog.cls("dask_gateway_server.workqueue", "WorkQueue")
    f = k.find_method("put_backoff")
    item = V("param", f.params()[1])
    I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name == "put_after")
    I.term_types[SELF] = k.qual
    for o in I.run_function(f, [item], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            c.fail("GROW", f"{f.module.rel()}:{f.line}", "queueing a failed item again can fail")
            continue
        evs = events(o.st.trace)
        calls = [e for e in evs if qcall(e) == "put_after"]
        ok = bool(calls) and all(len(e.args) >= 2 and e.args[0] is item for e in calls)
        c.require(ok, "GROW", where(calls[0]) if calls else f.qual, "a failed item is not scheduled again")
        if not ok:
            continue
        sets = [e for e in evs if e.kind == "setitem" and e.get("key") is item]
        grown = [e for e in sets if e.value.k == "lin" and item in set(subterms(e.value)) and lin_inc(e.value)]
        c.require(grown, "GROW", where(calls[0]), "the number of failures of the item does not grow")
        d = calls[0].args[1]
        pw = [x for x in subterms(d) if x.k == "binop" and "**" in x.a or x.k == "call" and "pow" in show(x.a[0])]
        c.require(any(item in set(subterms(x)) for x in pw), "GROW", where(calls[0]), f"the delay {show(d)[:80]} does not grow with the number of failures")
    c.floor("GROW", 3)


def lin_inc(v):
    """1*x + positive"""
    nums = [x for x in v.a if isinstance(x, int)]
    return bool(nums) and all(n > 0 for n in nums) and len(nums) == 2


def run(c):
    c.rule("QUEUE", "whenever a goal changes or start information is recorded, the object is put into the work queue on the same path")
    c.rule("DONE", "every item taken from the queue is handled and marked as done on every path")
    c.rule("RETRY", "an item whose handling failed is queued again with a backoff delay, which is not reset")
    c.rule("GROW", "the delay grows with the number of failures of the item")
    c.rule("SURVIVE", "no exception of a backend, a query or the database leaves a background task; cancellation does")
    c.rule("START", "every background task is started at set-up")
    L = Life(c)
    queue_rule(c, L)
    c.floor("QUEUE", 20)
    task_rules(c, L)
    backoff_rules(c)
    c.assumptions += ["Queue operations other than get do not raise (C24).", "Logging does not raise.",
                      "A commit that fails after the in-memory update is outside the model."]
