"""C27: the controller creates exactly the missing workers and removes only surplus ones that have not started.

A reconciliation of a running cluster is followed for small concrete sets of
known workers, expectations and requested replicas, with no call failing and
with every call failing; the bookkeeping is followed for a worker in every
state it can be known in.
"""
import itertools

from sa.program import Broken
from sa.query import bounds, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from .c25 import lookup
from .kube import Kube, MOD, NAME, NS, SELF, api, evs

INFO = V("param", "info")
KEY = V("str", NS, const("."), NAME)
REC = {k: V("str", const(f"recorded {k} of "), NAME) for k in ("credentials", "schedulerPod", "service", "ingressroute", "ingressroutetcp")}
OLD = V("param", "last change")
KINDS = ("pending", "running", "succeeded", "failed")


def members(st, name):
    r = st.store.get((INFO, name))
    o = st.heap.get(r.a[0]) if r is not None and r.k == "ref" else None
    if o is None or o.kind != "list" or any(g[0] != "one" or g[1].k != "const" for g in o.segs):
        return None
    return sorted(set(g[1].a[0] for g in o.segs))


def number(st, name):
    v = st.store.get((INFO, name))
    return v.a[0] if v is not None and v.k == "const" else None


class Scale:
    def __init__(self, c, replicas, p, r, s, f, creates=0, deletes=0, fails=None, volatile=False, on_event=None):
        w = self.w = Kube(c, fails=fails, on_event=on_event)
        w.I.unroll = 5
        names = lambda k, n: tuple(f"{k}{i}" for i in range(n))
        self.pending, self.running, self.succeeded, self.failed = names("p", p), names("r", r), names("s", s), names("f", f)
        w.info(self.pending, self.running, self.succeeded, self.failed, creates, deletes)
        w.st.store[(INFO, "timestamp")] = OLD
        w.st.store[(SELF, "stopped_clusters")] = w.dict()
        cl = w.cluster({"phase": "Running", **REC}, replicas=replicas)
        w.found = {"cluster": cl, "pod": w.pod("Running", "running"), "endpoints": w.endpoints()}
        if volatile:
            w.I.volatile = lambda I, b, n, st: b is INFO and n in ("creates", "deletes")
        self.outs = w.run("reconcile_cluster", V("param", "key"))
        self.where = w.where


def pods(o, op):
    return [e for e in evs(o) if e.kind == "call" and api(e) and e.name == f"{op}_namespaced_pod"]


def victim(e):
    return [a.a[0] for a in e.args if a.k == "const" and isinstance(a.a[0], str)]


def scaling(c):
    for replicas, p, r, s, f in itertools.product(range(5), range(4), range(3), (0, 2), (0, 1)):
        if p + r > 4 or (s and f and p == 3):
            continue
        x = Scale(c, replicas, p, r, s, f)
        text = f"{replicas} replicas, {p} pending, {r} running, {s} succeeded, {f} failed"
        c.require(bool(x.outs), "UP", x.where, f"the reconciliation is not followed ({text})", key="followed")
        for o in x.outs:
            one(c, x, o, replicas, text)


def one(c, x, o, replicas, text):
    known = len(x.pending) + len(x.running)
    made, gone = pods(o, "create"), pods(o, "delete")
    want = max(0, replicas - known)
    surplus = max(0, known - replicas)
    if not c.require(o.kind == "ret", "UP", x.where, f"scaling fails ({text})", key="fails"):
        return
    c.require(len(made) == want, "UP", x.where, f"{len(made)} workers are created, {want} are missing ({text})", key="creates")
    names = [n for e in gone for n in victim(e)]
    c.require(len(names) == len(gone) == len(set(names)), "DOWN", x.where, f"a worker is removed twice ({text})", key="twice")
    c.require(not set(names) & set(x.running), "DOWN", x.where, f"a running worker is removed ({text})", key="running")
    cut = set(names) & set(x.pending)
    c.require(len(cut) <= surplus, "DOWN", x.where, f"{len(cut)} pending workers are removed, {surplus} are surplus ({text})", key="surplus")
    c.require(len(cut) >= min(surplus, len(x.pending)), "DOWN", x.where, f"surplus workers that have not started are kept ({text})", key="kept")
    c.require(set(names) <= set(x.pending) | set(x.succeeded) | set(x.failed), "DOWN", x.where, f"something else is removed ({text})", key="other")
    c.require(o.val is not None and o.val.k == "const" and not o.val.a[0], "UP", x.where, f"scaling is repeated although nothing failed ({text})", key="requeue")
    expected(c, x, o, made, gone, text)


def expected(c, x, o, made, gone, text):
    """what is created and deleted is expected before the first call, and until the watch reports it"""
    calls = [e for e in evs(o) if e.kind == "call" and api(e) and e in made + gone]
    if not calls:
        return
    first = calls[0]
    n, d = (first.store.get((INFO, k)) for k in ("creates", "deletes"))
    c.require(n is not None and n.k == "const" and n.a[0] >= len(made), "EXPECT", where(first), f"workers are created before they are expected ({text})", key="before")
    c.require(d is not None and d.k == "const" and d.a[0] >= len(gone), "EXPECT", where(first), f"workers are removed before that is expected ({text})", key="before delete")
    t = first.store.get((INFO, "timestamp"))
    c.require(t is not None and t != OLD, "EXPIRE", where(first), "the time of the expectations is not renewed", key="renew")
    n, d = number(o.st, "creates"), number(o.st, "deletes")
    lost = [e.call.name for e in evs(o) if e.kind == "callraised" and api(e)]
    mk = len(made) - lost.count("create_namespaced_pod")
    dl = len(gone) - lost.count("delete_namespaced_pod")
    c.require(n == mk, "EXPECT", x.where, f"{mk} workers were created, {n} are expected ({text})", key="creates expected")
    c.require(d == dl, "EXPECT", x.where, f"{dl} workers were removed, {d} removals are expected ({text})", key="deletes expected")


def failing(c):
    for replicas, p, s in ((2, 0, 0), (3, 0, 0), (5, 1, 2), (0, 2, 1), (1, 3, 0)):
        for op in ("create_namespaced_pod", "delete_namespaced_pod"):
            for how in (404, 409, 500, "RuntimeError"):
                for which in range(5):
                    def fails(st, ev, op=op, how=how, which=which):
                        if ev.get("name") == op and sum(1 for e in walk_events(events(st.trace)) if e.kind == "call" and e.get("name") == op) == which + 1:
                            return [how]
                    x = Scale(c, replicas, p, 0, s, 0, fails=fails)
                    for o in x.outs:
                        if o.kind == "ret" and any(e.kind == "callraised" and api(e) for e in evs(o)):
                            made, gone = pods(o, "create"), pods(o, "delete")
                            c.require(len(made) <= max(0, replicas - p), "UP", x.where, f"too many workers are created after a failure ({op})", key="fail creates")
                            expected(c, x, o, made, gone, f"{op} number {which + 1} fails with {how}, {replicas} replicas, {p} pending")


def held(c):
    """nothing is created or removed while something is expected, for ten minutes"""
    for creates, deletes in itertools.product((-1, 0, 1, 2), repeat=2):
        for replicas, p in ((3, 1), (0, 2)):
            x = Scale(c, replicas, p, 0, 1, 0, creates, deletes)
            acted = False
            for o in x.outs:
                calls = pods(o, "create") + pods(o, "delete")
                if not calls:
                    continue
                acted = True
                if creates > 0 or deletes > 0:
                    F = calls[0].facts
                    ok = False
                    for l, s in bounds(F):
                        now = [t for t in l if t is not None and t.k == "call" and "monotonic" in show(t)]
                        if l.get(OLD) == 1 and len(now) == 1 and l[now[0]] == -1 and l.get(None, 0) >= 600 and len(l) <= 3:
                            ok = True
                    c.require(ok, "HOLD", where(calls[0]), f"workers are created or removed while {creates} creations and {deletes} removals are expected", key="hold")
            c.require(acted, "HOLD", x.where, f"scaling never goes on ({creates} creations and {deletes} removals expected)", key="go on")


def races(c):
    """what the watch reports while a call is under way is not lost"""
    seen = []

    def stored(st, e):
        if e.kind == "store" and e.obj is INFO and e.attr in ("creates", "deletes") and e.value.k != "const":
            seen.append((e, st.epoch))

    for replicas, p, s in ((2, 0, 1), (0, 2, 0)):
        for op in ("create_namespaced_pod", "delete_namespaced_pod"):
            x = Scale(c, replicas, p, 0, s, 0, fails=lambda st, ev, op=op: [500] if ev.get("name") == op else None, volatile=True, on_event=stored)
            c.require(bool(x.outs), "RACE", x.where, "the reconciliation is not followed", key="race n")
    for e, epoch in seen:
        base = [t for t in subterms(e.value) if t.k == "attr" and t.a[0] is INFO and t.a[1] in ("creates", "deletes")]
        c.require(all(t == V("attr", INFO, t.a[1], epoch) for t in base), "RACE", where(e), f"{e.attr} is written from a value read before a call was waited for", key=f"race {e.attr}")
    c.notes.append(f"{len(seen)} updates of the expectations after a wait")


def bookkeeping(c):
    k = c.prog.cls(MOD, "ClusterInfo")
    X = const("x")
    for kind in KINDS + ("deleted",):
        for known in (None, "none") + KINDS:
            w = Kube(c)
            I, st = w.I, w.st
            sets = {n: ("x",) if n == known else () for n in KINDS}
            w.info()
            for n in KINDS:
                w.st.store[(INFO, n)] = w.list(*sets[n], "other" + n, kind="set")
            w.st.store[(INFO, "all_pods")] = w.list(*(("x",) if known else ()), *("other" + n for n in KINDS), kind="set")
            w.st.store[(INFO, "creates")] = const(5)
            w.st.store[(INFO, "deletes")] = const(5)
            f = k.find_method(f"on_worker_{kind}")
            if f is None:
                raise Broken(f"ClusterInfo has no on_worker_{kind}")
            c.analysed(f)
            ws = f"{f.module.rel()}:{f.line} (ClusterInfo.{f.name})"
            outs = I.run_function(f, [X], selfv=INFO, st=st)
            c.paths += len(outs)
            c.require(bool(outs), "BOOK", ws, f"{f.name} is not followed", key=f"n {kind}")
            text = f"a worker known as {known or 'nothing'} is {kind}"
            for o in outs:
                if not c.require(o.kind == "ret", "BOOK", ws, f"{f.name} fails ({text})", key=f"raise {kind}"):
                    continue
                got = {n: members(o.st, n) for n in KINDS + ("all_pods",)}
                want = {n: sorted(({"x"} if n == kind else set()) | {"other" + n}) for n in KINDS}
                want["all_pods"] = sorted({"other" + n for n in KINDS} | ({"x"} if kind != "deleted" else set()))
                for n in got:
                    c.require(got[n] == want[n], "BOOK", ws, f"afterwards the workers in {n} are {got[n]} ({text})", key=f"set {kind} {n}")
                cr, de = number(o.st, "creates"), number(o.st, "deletes")
                c.require(cr == (4 if known is None and kind != "deleted" else 5), "BOOK", ws, f"{cr} creations are expected of 5 ({text})", key=f"creates {kind}")
                c.require(de == (4 if known is not None and kind == "deleted" else 5), "BOOK", ws, f"{de} removals are expected of 5 ({text})", key=f"deletes {kind}")
                if kind == "failed":
                    c.require(o.val is not None and o.val.k == "const" and bool(o.val.a[0]) == (known != "failed"), "BOOK", ws, f"a failure is reported as {show(o.val)} ({text})", key="changed")


# pod phase, state of its container, exit code -> the kind it is counted as (None: as before)
PODS = {
    ("Pending", None, None): "pending", ("Pending", "waiting", None): "pending", ("Running", "running", None): "running", ("Succeeded", "terminated", 0): "succeeded",
    ("Succeeded", None, None): "succeeded", ("Failed", "terminated", 1): "failed", ("Failed", None, None): "failed", ("Running", "terminated", 0): "succeeded",
    ("Running", "waiting", None): None, ("Running", "terminated", 1): None, ("Running", None, None): None, ("Unknown", None, None): None, (None, None, None): None,
}


def watched(c):
    for ((phase, state, code), kind), known, stopping, exp in itertools.product(PODS.items(), (None, "pending", "running"), (False, True), ((0, 0), (1, 0), (2, 0), (0, 1))):
        deliver(c, phase, state, code, kind, known, stopping, exp, "on_pod_update")
    for known, stopping, exp in itertools.product((None,) + KINDS, (False, True), ((0, 0), (1, 0), (0, 1), (0, 2))):
        deliver(c, "Running", "running", None, "deleted", known, stopping, exp, "on_pod_delete")


def deliver(c, phase, state, code, kind, known, stopping, exp, handler):
    w = Kube(c)
    sets = {n: ("x",) if n == known else () for n in KINDS}
    w.info(sets["pending"], sets["running"], sets["succeeded"], sets["failed"], *exp)
    w.st.store[(INFO, "timestamp")] = OLD
    w.st.store[(SELF, "stopped_clusters")] = w.st.alloc(Obj("dict", layers=(("kv", KEY, const(1)),) if stopping else ()))
    labels = w.st.alloc(Obj("dict", layers=(("kv", const("gateway.dask.org/cluster"), NAME), ("kv", const("app.kubernetes.io/component"), const("dask-worker")))))
    obj = w.pod(phase, state, name=const("x"), container="dask-worker", exit=code)
    pm = lookup(w.st.heap, obj, "metadata")
    o = w.st.obj(pm)
    w.st.setobj(pm, o.replace(layers=o.layers + (("kv", const("labels"), labels),)))
    outs = w.run(handler, obj)
    text = f"a worker known as {known or 'nothing'}, phase {phase}, container {state or 'without status'}{'' if code is None else f' with {code}'}"
    c.require(bool(outs), "WATCH", w.where, f"{handler} is not followed ({text})", key="watch n")
    for o in outs:
        if not c.require(o.kind == "ret", "WATCH", w.where, f"{handler} fails ({text})", key=f"watch raise {handler}"):
            continue
        got = [n for n in KINDS if members(o.st, n) == ["x"]]
        left = kind or known
        c.require(got == ([left] if left in KINDS else []), "WATCH", w.where, f"a worker is counted as {got or 'nothing'} ({text})", key=f"watch {handler} {phase} {state}")
        put = [e for e in evs(o) if e.kind == "call" and e.get("name") in ("put", "put_after", "put_backoff")]
        c.require(all(KEY in e.args for e in put), "WATCH", w.where, "another cluster is reconciled", key="watch key")
        cr, de = number(o.st, "creates"), number(o.st, "deletes")
        if cr is not None and de is not None and cr <= 0 and de <= 0 and not stopping and (exp != (0, 0) or kind in ("failed", "deleted")) and kind is not None and kind != known:
            c.require(bool(put), "WATCH", w.where, f"the cluster is not reconciled when what was expected has been seen ({text})", key=f"watch put {handler}")
    c.analysed(*w.I.inlined)


def run(c):
    c.rule("UP", "with nothing expected, exactly the missing workers are created: requested replicas less those pending or running")
    c.rule("DOWN", "only workers that are pending (as many as are surplus) or stopped are removed, each once, and never a running one")
    c.rule("EXPECT", "before the first call everything that will be created or removed is expected; afterwards exactly what did not fail still is")
    c.rule("HOLD", "while anything is expected nothing is created or removed, until ten minutes have passed")
    c.rule("EXPIRE", "the ten minutes are counted from the last time workers were created or removed")
    c.rule("RACE", "expectations are changed relative to their current value, not one read before a wait")
    c.rule("BOOK", "a worker is known in exactly the state last reported, is counted off the expected creations when first seen and off the expected removals when a known one goes")
    c.rule("WATCH", "every event about a worker pod is counted as the state it shows, and when nothing is expected any more the cluster is reconciled")
    c.analysed()
    scaling(c)
    failing(c)
    held(c)
    races(c)
    bookkeeping(c)
    watched(c)
