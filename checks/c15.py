"""C15: stopping a cluster tells every worker, stops the scheduler after them, removes the routes, and completes."""
from sa.program import Broken
from sa.query import subterms, where
from sa.state import events, walk_events
from sa.values import V
from .c12 import Pending
from .dblife import ALL, DB, NAMES, RANK, SELF, Life, nm, qcall
from .recon import FINISHED, PUTS, all_at_least, calls, flat, last_facts, pair_ok, raised_by, run_from, setflag, some_below, strs, workers_of

STOPPING = [(s, t) for s in ("CREATED", "SUBMITTED", "RUNNING") for t in FINISHED]
DONE = {False: FINISHED, True: ("CLOSING",) + FINISHED}


def bulk(facts):
    """value of supports_bulk_shutdown on a path, when known"""
    for k, v in facts.tr.items():
        if k.k == "attr" and k.a[1] == "supports_bulk_shutdown":
            return v
    return None


def told(o, X, p, need):
    """on this path a worker of X with the pair p is given a goal among those needed, and queued"""
    evs = events(o.st.trace)
    for e in evs:
        if e.kind == "loop":
            by = {}
            for b in e.bodies:
                if b.elem is not None:
                    by.setdefault(b.elem, []).append(b)
            for el, bodies in by.items():
                w = next((x for x in subterms(el) if workers_of(x, X)), None)
                if w is None:
                    continue
                ents = [f for v, f in e.seg[1] if v is el] if e.seg[0] == "rep" else [None] if e.seg[0] == "sym" else []
                if not any(pair_ok(f, w, p, True) for f in ents):
                    continue
                ok = [b for b in bodies if b.kind != "raise" and pair_ok(last_facts(b), w, p, False)]
                if ok and all(b.kind in ("next", "cont") and any(
                        s.kind == "store" and s.obj is w and s.attr == "target" and nm(s.value) in need for s in walk_events(b.events)) for b in ok):
                    return True
    # the list of such workers is empty on this path
    for k, v in o.st.facts.tr.items():
        if k.k == "nonempty" and v is False:
            for f, w in listed(o, k):
                if workers_of(w, X) and pair_ok(f, w, p, True):
                    return True
    return False


def listed(o, k):
    """(facts, worker) entries of the list that is known to be empty"""
    ob = k.a[0]
    for e in walk_events(events(o.st.trace)):
        h = e.heap.get(ob.a[0]) if e.heap is not None else None
        if h is None:
            continue
        for s in getattr(h, "segs", ()):
            if s[0] == "rep":
                for v, f in s[1]:
                    for x in subterms(v):
                        if x.k == "elem":
                            yield f, x


def closing_rules(c, L):
    """from every state in which a stop is asked: tell the workers, then go to closing"""
    for pre in STOPPING:
        i, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", pre)
        for o in outs:
            if o.kind != "ret":
                continue
            fs = o.st.facts
            w = f"reconcile_cluster from {pre}"
            evs = flat(o)
            closed = [i for i, x in enumerate(evs) if x.kind == "store" and x.obj is X and x.attr == "status"]
            c.require(bool(closed), "CLOSE", w, "a cluster asked to stop does not start closing", key=str(pre))
            if not closed:
                continue
            if nm(evs[closed[-1]].value) in FINISHED:
                c.fail("CLOSE", w, "a cluster is recorded as finished without closing its workers", key=f"{pre} finished")
                continue
            for b in ([bulk(fs)] if bulk(fs) is not None else [False, True]):
                need = DONE[b]
                for p in ALL:
                    if RANK[p[0]] >= RANK["STOPPED"] or b and p[0] == "CLOSING" or p[1] in need:
                        continue
                    if (p[1] == "CLOSING") and not b:
                        continue        # only set where workers may stop with the cluster
                    c.require(told(o, X, p, need), "TELL", w, f"a worker with status {p[0]} and goal {p[1]} is not told to stop", key=f"{p[0]} {p[1]}")
            # nobody reconciles the workers before the cluster is closing
            tells = [i for i, x in enumerate(evs) if x.kind == "store" and x.attr == "target" and workers_of(x.obj, X)]
            sus = [i for i, x in enumerate(evs) if x.kind == "suspend"]
            c.require(not any(i < s < closed[-1] for i in tells for s in sus), "CLOSE", w,
                      "other tasks run between telling the workers to stop and recording the cluster as closing", key="atomic")
            again = any(qcall(x) in PUTS and x.kind == "call" and x.args and x.args[0] is X for x in evs)
            c.require(again or bool(tells) or some_told(o, X), "CLOSE", w, "a cluster with no workers to wait for is not queued again", key="requeue")
    c.floor("TELL", 30)
    c.floor("CLOSE", 12)


def some_told(o, X):
    """the path knows that some worker was told"""
    for k, v in o.st.facts.tr.items():
        if k.k == "nonempty" and v is True and any(workers_of(w, X) for f, w in listed(o, k)):
            return True
    return False


def queued_rules(c, L):
    """every worker told to stop is queued"""
    for pre in STOPPING:
        def on_event(st, ev):
            if ev.kind == "store" and ev.get("attr") == "target":
                ev.a["xkind"] = "Worker" if ev.obj.k == "elem" else None
        i, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", pre, on_event=on_event)
        P = Pending(L, i)
        for o in outs:
            if o.kind != "ret":
                continue
            pend, _ = P.scan(events(o.st.trace))
            for x, e in pend:
                c.fail("TELL", where(e), "a worker told to stop is not queued", key="queue")
            c.require(not pend, "TELL", f"reconcile_cluster from {pre}", "a worker told to stop is not queued", key="queue")


def stopping_rules(c, L):
    """the step that finishes a cluster"""
    flags = {"closing": True, "final": True}
    nfin = 0
    for pre in [("CLOSING", t) for t in FINISHED] + STOPPING:
        i, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", pre, do_raises=True)
        for o in outs:
            evs = flat(o)
            w = f"reconcile_cluster from {pre}"
            if o.kind == "raise":
                exc = [x for x in evs if raised_by(x).startswith("do_")]
                c.require(not exc, "ERROR", where(exc[0]) if exc else w, f"an error raised by {raised_by(exc[0]) if exc else ''} while stopping prevents completion", key="raise")
                continue
            stops = [k for k, x in enumerate(evs) if calls(x, "do_stop_cluster", X)]
            for k in stops:
                f = evs[k].facts
                b = bulk(f)
                ok = all_at_least(f, X, FINISHED) or b is True and all_at_least(f, X, DONE[True])
                c.require(ok, "ORDER", where(evs[k]), "the scheduler is stopped while workers may still run", key="order")
            for k, x in enumerate(evs):
                if not (x.kind == "store" and x.obj is X and x.attr == "status"):
                    continue
                d = {nm(x.value)} if nm(x.value) else {n for n in L.dom(x.value, x.facts)} & goal(pre, x.value, X)
                if not d & set(FINISHED):
                    if d == {"CLOSING"}:
                        flags["closing"] &= any(setflag(y, X, "ready") for y in evs)
                    continue
                nfin += 1
                pos = [y for y in evs[:k]]
                asked = [j for j, y in enumerate(pos) if calls(y, "do_stop_cluster", X)]
                c.require(bool(asked) or pre[0] == "CREATED", "STOP", where(x), "a cluster is recorded as finished but the backend was not asked to stop it", key="stop")
                for kind in ("PATH", "SNI"):
                    rm = [y for y in pos if calls(y, "remove_route") and kind in strs(y) and names(y, X)]
                    c.require(bool(rm) or pre[0] == "CREATED" or unrouted(x.facts, X, kind), "ROUTES", where(x), f"a cluster is recorded as finished before its {kind} route is removed", key=kind)
                st = any(y.kind == "store" and y.obj is X and y.attr == "stop_time" and (y.value.k != "const" or y.value.a[0]) for y in evs)
                c.require(st, "STOP", where(x), "a finished cluster gets no stop time", key="stop_time")
                flags["final"] &= any(setflag(y, X, "ready") for y in evs)
                c.require(any(setflag(y, X, "shutdown") for y in evs), "WAKE", where(x), "those waiting for the cluster to stop are not woken", key="shutdown")
    if not nfin:
        raise Broken("no path finishes a cluster")
    c.require(flags["closing"] or flags["final"], "WAKE", "reconcile_cluster", "those waiting for the cluster to start are not woken when it is stopped", key="ready")
    # it does finish: closing with every worker done
    for t in FINISHED:
        i, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", ("CLOSING", t), do_raises=True)
        for o in outs:
            if o.kind != "ret":
                continue
            fs = o.st.facts
            waits = some_below(fs, X, FINISHED) or any(some_below(e.facts, X, FINISHED) for e in flat(o))
            fin = any(x.kind == "store" and x.obj is X and x.attr == "status" for x in flat(o))
            c.require(fin or waits, "STOP", f"reconcile_cluster from CLOSING, {t}", "a closing cluster whose workers are done is not finished", key="finish")
    c.floor("ORDER", 4)
    c.floor("STOP", 8)
    c.floor("ROUTES", 4)
    c.floor("WAKE", 3)
    c.floor("ERROR", 0)


def goal(pre, v, X):
    """the stored value is the cluster's own goal"""
    if v.k == "attr" and v.a[0] is X and v.a[1] == "target":
        return {pre[1]} | set(FINISHED)
    return set(NAMES)


def unrouted(facts, X, kind):
    """no such route was published: the path knows that none was (C23)"""
    no = ("added_to_proxies",) + (("dashboard_address",) if kind == "PATH" else ())
    return any(v is False and k.k == "attr" and k.a[0] is X and k.a[1] in no for k, v in facts.tr.items())


def names(e, X):
    return any(y.k == "attr" and y.a[0] is X and y.a[1] == "name" for v in list(e.get("args") or ()) + list((e.get("kwargs") or {}).values()) for y in subterms(v))


def worker_rules(c, L):
    n = 0
    for s in ("CREATED", "SUBMITTED", "RUNNING", "CLOSING"):
        for t in ("CLOSING",) + FINISHED:
            i, X, outs = run_from(c, L, "reconcile_worker", "Worker", (s, t), do_raises=True)
            for o in outs:
                evs = flat(o)
                w = f"reconcile_worker from {s}, {t}"
                if o.kind == "raise":
                    exc = [x for x in evs if raised_by(x).startswith("do_")]
                    c.require(not exc, "ERROR", where(exc[0]) if exc else w, "an error raised while stopping a worker prevents completion", key="worker")
                    continue
                now = s
                for k, x in enumerate(evs):
                    if x.kind == "store" and x.obj is X and x.attr == "status":
                        d = {nm(x.value)} if nm(x.value) else {t} if x.value.k == "attr" and x.value.a[0] is X and x.value.a[1] == "target" else set(NAMES)
                        now = sorted(d, key=lambda z: RANK[z])[-1]
                        if d & set(FINISHED):
                            asked = any(calls(y, "do_stop_worker", X) for y in evs[:k])
                            c.require(asked or s == "CREATED", "STOP", where(x), "a worker is recorded as finished but the backend was not asked to stop it", key="worker")
                if t in FINISHED:
                    c.require(RANK[now] >= RANK["STOPPED"], "STOP", w, "a worker told to stop is not recorded as finished", key="worker finish")
                # the last one wakes the cluster
                put = [x for x in evs if qcall(x) in PUTS and x.kind == "call" and x.args and is_cluster(x.args[0], X)]
                n += 1
                if put:
                    c.require(True, "LAST", w, "")
                    continue
                c.require(not_ready(o, X, evs), "LAST", w, "the cluster is not queued when its last worker is done", key=f"{t}")
    c.floor("LAST", 20)


def is_cluster(v, X):
    return v.k == "attr" and v.a[0] is X and v.a[1] == "cluster"


def not_ready(o, X, evs):
    """the path knows that the cluster does not wait for this worker alone"""
    fs = o.st.facts
    cl = None
    for tab in (fs.dom, fs.tr):
        for k in tab:
            for x in subterms(k):
                if is_cluster(x, X):
                    cl = x
    if cl is None:
        return False
    for k, d in fs.dom.items():
        if k.k == "attr" and k.a[1] == "status" and k.a[0] is cl and "CLOSING" not in {nm(y) for y in d}:
            return True
    tail = []
    for e in evs:
        tail = [] if e.kind == "suspend" else tail + [e.facts]
    return any(f is not None and some_below(f, cl, DONE[bulk(fs) is not False]) for f in tail + [fs])


def request_rules(c, L):
    """stop requests"""
    f = L.base.methods.get("stop_cluster")
    if f is None:
        raise Broken("no stop_cluster")
    c.analysed(f)
    seen = 0

    def on_event(st, ev):
        if ev.kind == "store" and ev.get("attr") in ("target", "status"):
            ev.a["xkind"] = L.kind(I, ev.obj, st)
    I = L.interp(on_event, use_rely=False, opaque=("get_cluster",))
    outs = I.run_function(f, L.params(f), selfv=SELF)
    P = Pending(L, I)
    for o in outs:
        if o.kind != "ret":
            continue
        evs = flat(o)
        st = [e for e in evs if e.kind == "store" and e.get("xkind") == "Cluster" and e.attr in ("status", "target")]
        w = f"{f.module.rel()}:{f.line} (stop_cluster)"
        for e in st:
            d = None
            for k, dd in e.facts.dom.items():
                if k.k == "attr" and k.a[0] is e.obj and k.a[1] == "target":
                    d = {nm(y) for y in dd}
            c.require(d is not None and not d & {"CLOSING", "STOPPED", "FAILED"}, "REPEAT", where(e), "a repeated stop request changes a cluster that is already stopping", key="repeat")
            c.require(e.attr == "target" and {nm(v) for v in choices(e.value)} <= set(FINISHED), "REQUEST", where(e), "a stop request does not ask for the cluster to be stopped", key="goal")
        if st:
            seen += 1
            pend, _ = P.scan(events(o.st.trace))
            c.require(not pend, "REQUEST", where(st[0]), "a cluster asked to stop is not queued", key="queue")
        else:
            # nothing to do: unknown, or already stopping
            d = [{nm(y) for y in dd} for k, dd in o.st.facts.dom.items() if k.k == "attr" and k.a[1] == "target"]
            none = any(k.k == "call" and v is False or k.k == "cmp" and any(x.k == "const" and x.a[0] is None for x in k.a[1:] if isinstance(x, V)) for k, v in o.st.facts.tr.items()) \
                or any(len(dd) == 1 and next(iter(dd)).k == "const" and next(iter(dd)).a[0] is None for dd in o.st.facts.dom.values())
            ok = none or any(not x & {"CREATED", "SUBMITTED", "RUNNING"} for x in d)
            c.require(ok, "REQUEST", w, "a stop request for an active cluster does nothing", key="ignored")
    if not seen:
        c.fail("REQUEST", f"{f.module.rel()}:{f.line} (stop_cluster)", "a stop request never changes the cluster", key="none")
    # finished objects are left alone
    for fn, kind in (("reconcile_cluster", "Cluster"), ("reconcile_worker", "Worker")):
        for s in FINISHED:
            i, X, outs = run_from(c, L, fn, kind, (s, s))
            for o in outs:
                bad = [e for e in flat(o) if e.kind == "store" and e.attr in ("status", "target", "stop_time") or (e.get("name") or "").startswith("do_")]
                c.require(not bad, "REPEAT", where(bad[0]) if bad else fn, f"a finished {kind.lower()} is acted on again", key=f"{kind} {s}")
    c.floor("REPEAT", 5)
    c.floor("REQUEST", 3)


def choices(v):
    if v.k in ("phi", "ifexp"):
        return [x for x in v.a if isinstance(x, V)]
    return [v]


def run(c):
    c.rule("TELL", "when a cluster starts closing every unfinished worker is given a goal of stopping, and queued")
    c.rule("CLOSE", "a cluster asked to stop is recorded as closing with its workers told, and is looked at again")
    c.rule("ORDER", "the scheduler is stopped only when every worker is finished, or closing where the backend stops them together")
    c.rule("STOP", "an object is recorded as finished only after the backend was asked to stop it")
    c.rule("ROUTES", "a cluster is recorded as finished only after its routes are removed")
    c.rule("ERROR", "an error while stopping does not prevent completion")
    c.rule("WAKE", "waiters are woken")
    c.rule("LAST", "the last worker to finish queues the cluster")
    c.rule("REQUEST", "a stop request gives an active cluster a goal of stopping")
    c.rule("REPEAT", "repeated stop requests have no effect")
    L = Life(c)
    closing_rules(c, L)
    queued_rules(c, L)
    stopping_rules(c, L)
    worker_rules(c, L)
    request_rules(c, L)
    c.assumptions += ["Queued objects are reconciled (C12, C24).", "Statuses of workers only move forward (C11)."]
