"""C19: what a heartbeat does to every worker, in a cluster with two workers of unknown state."""
from itertools import product

from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, ladd, linear, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from . import c18
from .c15 import PUTS, is_cluster
from .dblife import DB, NAMES, SELF, Life, nm, qcall
from .recon import flat, run_from

LISTS = ("closing_workers", "active_workers", "closed_workers")
FIN = {"STOPPED", "FAILED"}
PENDING = {"CREATED", "SUBMITTED"}


class Scene:
    def __init__(self, c, L, f):
        self.c, self.L, self.f = c, L, f
        self.C = V("param", "c1")
        self.W = [V("param", "w1"), V("param", "w2")]

    def run(self, name):
        c, L, f = self.c, self.L, self.f
        I = L.interp(None, use_rely=False, do_raises=False, opaque={"put", "put_after", "put_backoff"})
        I.term_types[self.C] = DB + ".Cluster"
        for w in self.W:
            I.term_types[w] = DB + ".Worker"
        st = I.new_state()
        db = V("attr", SELF, "db", 0)
        store = dict(st.store)

        def table(xs):
            return st.alloc(Obj("dict", layers=tuple(("kv", const(x.a[0]), x) for x in xs)))
        for x in [self.C] + self.W:
            store[(x, "name")] = const(x.a[0])
        store[(db, "name_to_cluster")] = table([self.C])
        store[(self.C, "workers")] = table(self.W)
        for w in self.W:
            store[(w, "cluster")] = self.C
        st.store = store
        outs = I.run_function(f, [const(name), V("param", "msg")], st=st, selfv=SELF)
        c.paths += len(outs)
        return outs


def values(F, x, attr):
    out = set(NAMES)
    for k, d in F.dom.items():
        if k.k == "attr" and k.a[0] is x and k.a[1] == attr:
            out &= {nm(y) for y in d}
    for k, d in F.ne.items():
        if k.k == "attr" and k.a[0] is x and k.a[1] == attr:
            out -= {nm(y) for y in d}
    return out


def reported(F, w, which):
    """the facts say whether w is in the list of the heartbeat"""
    got = None
    for t, b in F.tr.items():
        if t.k == "cmp" and t.a[0] in ("in", "not in") and t.a[1] == const(w.a[0]) and any(x == const(which) for x in subterms(t.a[2])) or t.k == "oneof" and t.a[0] == const(w.a[0]) and any(x == const(which) for x in subterms(t)):
            got = b if t.k == "oneof" or t.a[0] == "in" else not b
    return got


def flag(F, w, attr):
    for t, b in F.tr.items():
        if t.k == "attr" and t.a[0] is w and t.a[1] == attr:
            return b
    for t, d in F.dom.items():
        if t.k == "attr" and t.a[0] is w and t.a[1] == attr and len(d) == 1 and list(d)[0].k == "const":
            return bool(list(d)[0].a[0])
    return None


def tri(b):
    return (True, False) if b is None else (b,)


def states(F, w):
    """concrete states of w that the facts allow: (status, goal is to run, report, closing was announced)"""
    S, T = values(F, w, "status"), values(F, w, "target")
    # a goal is to run, to stop or to fail (C11); closing is one only in a cluster that stops
    T = {"RUNNING" if t == "RUNNING" else "STOPPED" for t in T if t in FIN or t == "RUNNING"}
    m = [tri(reported(F, w, x)) for x in LISTS]
    reps = [None if not any(x) else LISTS[x.index(True)] for x in product(*m) if sum(x) <= 1]
    return list(product(sorted(S), sorted(T), reps, tri(flag(F, w, "close_expected"))))


def loops(o):
    return [e for e in events(o.st.trace) if e.kind == "loop"]


def judge(c, s, o):
    F = o.st.facts
    f = s.f
    w0 = f"{f.module.rel()}:{f.line} ({f.cls.name}.{f.name})"
    evs = flat(o)
    if o.kind != "ret":
        # a running worker is always in one of the scheduler's lists
        odd = any(all(st[0] in ("RUNNING", "CLOSING") and st[2] is None for st in states(F, w)) for w in s.W)
        c.require(odd, "TOTAL", w0, f"a heartbeat fails with {show(o.val)[:60]}", key="fails")
        return
    wr = {w: [e for e in evs if e.kind == "store" and e.obj is w] for w in s.W}
    parts = [e for e in loops(o) if e.seg[0] == "part"]
    cancels = []
    for w in s.W:
        for e in wr[w]:
            if e.attr == "status":
                c.require(nm(e.value) == "RUNNING", "RUN", where(e), f"a heartbeat sets the status of a worker to {show(e.value)[:30]}")
            elif e.attr not in ("target", "close_expected"):
                c.fail("RUN", where(e), f"a heartbeat sets {e.attr} of a worker", key=e.attr)
        runs = any(e.attr == "status" and nm(e.value) == "RUNNING" for e in wr[w])
        exp = [e for e in wr[w] if e.attr == "close_expected"]
        goal = [nm(e.value) for e in wr[w] if e.attr == "target"]
        for S, T, rep, ce in states(F, w):
            d = f"a {S.lower()} worker that is " + ({None: "in no list", "active_workers": "reported active", "closing_workers": "reported closing", "closed_workers": "reported closed"}[rep])
            if S in FIN:
                c.require(not wr[w], "DONE", w0, f"{d}: it has finished, but is changed", key="done")
                continue
            conn = rep in ("active_workers", "closing_workers")
            if conn and S in PENDING:
                c.require(runs, "RUN", w0, f"{d}: it is not recorded as running", key=f"run {rep}")
            else:
                c.require(not runs, "RUN", w0, f"{d}: it is recorded as running", key=f"norun {rep} {S}")
            if rep == "closing_workers" and ce:
                c.require(all(e.value == const(True) for e in exp), "EXPECT", w0, f"{d}: its announced closing is forgotten", key="forgotten")
            elif rep == "closing_workers":
                c.require(any(e.value == const(True) for e in exp), "EXPECT", w0, f"{d}: its closing is not noted", key="noted")
            else:
                c.require(not exp, "EXPECT", w0, f"{d}: it is noted as closing", key=f"unannounced {rep}")
            if rep == "closed_workers":
                want = "STOPPED" if ce else "FAILED"
                c.require(goal == [want], "CLOSED", w0, f"{d} {'as announced' if ce else 'unannounced'}: its goal becomes {goal or 'nothing new'}", key=f"closed {ce}")
            elif rep is None and S in PENDING and T == "RUNNING":
                c.require(set(goal) <= {"STOPPED"}, "CANCEL", w0, f"{d}: its goal becomes {goal}", key="pending goal")
            else:
                c.require(not goal, "CANCEL", w0, f"{d}{'' if T == 'RUNNING' else ' and already being stopped'}: its goal is changed to {goal}", key=f"cancel {rep} {S} {T}")
    trim(c, s, o, wr, parts, w0)
    count(c, s, o, evs, w0)


def pending(s, F):
    """workers that are surely waiting to connect, and those for which it is not known"""
    sure, maybe = [], []
    for w in s.W:
        st = {S in PENDING and T == "RUNNING" and rep is None for S, T, rep, ce in states(F, w)}
        if st == {True}:
            sure.append(w)
        elif True in st:
            maybe.append(w)
    return sure, maybe


def upto(v):
    """the number of elements taken from the front of a list, as a term"""
    if isinstance(v, V) and c18.builtin(v, "max"):
        xs = [x for x in c18.args(v) if x != const(0)]
        return upto(xs[0]) if len(xs) == 1 else v
    if isinstance(v, V) and v.k in ("tuple", "slice_of"):
        xs = [x for x in v.a if isinstance(x, V)]
        if len(xs) == 1:
            return upto(xs[0])
        if len(xs) == 2 and xs[0] in (const(None), const(0)):
            return upto(xs[1])
        if len(xs) == 3 and xs[0] in (const(None), const(0)) and xs[2] in (const(None), const(1)):
            return upto(xs[1])
        return v
    return v


def excess(d, n, F):
    """d is  active workers + n - requested count"""
    d = {k: v for k, v in d.items() if v}
    if d.pop(None, 0) != n or len(d) != 2:
        return False
    act = [k for k, v in d.items() if v == 1 and k.k == "len" and any(x == const("active_workers") for x in subterms(k))]
    cnt = [k for k, v in d.items() if v == -1 and (c18.is_count(k) or c18.is_limit(k))]
    return len(act) == 1 and len(cnt) == 1


def trim(c, s, o, wr, parts, w0):
    F = o.st.facts
    sure, maybe = pending(s, F)
    if maybe:
        # their state was not looked at: nothing may depend on it
        c.require(not any(e.attr == "target" and nm(e.value) == "STOPPED" and reported(F, w, "closed_workers") is not True for w in maybe for e in wr[w]), "TRIM", w0,
                  "a worker is cancelled without looking whether it still waits to connect", key="maybe")
        return
    n = len(sure)
    lins = list(bounds(F))
    none = any(excess(l, n, F) for l, _ in lins)  # excess <= 0
    cancelled = [w for w in sure if any(e.attr == "target" for e in wr[w])]
    if none:
        c.require(not cancelled, "TRIM", w0, "workers are cancelled although not more than the requested count are active or pending", key="none")
        return
    if not sure:
        return
    if parts:
        seq = [e.seg[1][1] for e in parts if e.seg[1][0] == "one"]
        if len(seq) == len(parts):
            c.require(all(excess(linear(upto(e.seg[2])), n, F) for e in parts), "TRIM", w0,
                      f"with {n} workers waiting, {show(parts[0].seg[2])[:90]} of them are cancelled", key="amount")
            some = any(excess({k: -v for k, v in l.items()}, n, F) for l, _ in lins)
            c.require(some or all(any(c18.builtin(x, "max") for x in subterms(e.seg[2])) for e in parts), "TRIM", w0,
                      "workers are cancelled although fewer than the requested count may be active or pending", key="negative")
            c.require(set(seq) == set(sure) and len(seq) == len(set(seq)), "TRIM", w0, "some of the workers that wait to connect are not considered for cancelling", key="all")
            sts = [values(F, w, "status") for w in seq]
            bad = any("SUBMITTED" in a and "CREATED" in b for i, a in enumerate(sts) for b in sts[i + 1:])
            c.require(not bad, "ORDER", w0, "a worker that was submitted is cancelled before one that was not", key="order")
            # a path on which the chosen workers turned out to be none is not feasible, as some are chosen
            empty = not cancelled and any(t.k == "nonempty" and b is False for t, b in F.tr.items())
            c.require(empty or set(cancelled) == set(sure), "TRIM", w0, "the workers chosen are not cancelled", key="chosen")
            return
        c.fail("TRIM", w0, "the workers to cancel are not resolved", key="unresolved")
        return
    # one decision per worker: k cancelled means that the excess is k, or at least k if all are cancelled
    k = len(cancelled)

    def least(j):  # excess >= j
        return any(excess_shift(l, n, j, st) for l, st in lins)
    c.require(k == 0 or least(k), "TRIM", w0, f"{k} workers are cancelled, which may be more than are in excess", key="too many")
    if k < n:
        c.require(any(excess_most(l, n, k, st) for l, st in lins), "TRIM", w0, f"only {k} of {n} waiting workers are cancelled, which may be fewer than are in excess", key="too few")
    rest = [w for w in sure if w not in cancelled]
    c.require(not any("SUBMITTED" in values(F, a, "status") and "CREATED" in values(F, b, "status") for a in cancelled for b in rest), "ORDER", w0,
              "a worker that was submitted is cancelled before one that was not", key="order")


def shape(l, sign):
    """constant part of a linear form  sign*(active - count) + const"""
    d = {k: v * sign for k, v in l.items() if v}
    k0 = d.pop(None, 0)
    if len(d) != 2:
        return None
    act = [k for k, v in d.items() if v == 1 and k.k == "len" and any(x == const("active_workers") for x in subterms(k))]
    cnt = [k for k, v in d.items() if v == -1 and (c18.is_count(k) or c18.is_limit(k))]
    return k0 * sign if len(act) == 1 and len(cnt) == 1 else None


def excess_shift(l, n, j, strict):
    """l <= 0 says that excess = active - count + n is at least j"""
    k0 = shape(l, -1)
    if k0 is None:
        return False
    # l = -(active-count) + k0 <= 0: active - count >= k0 (> k0)
    return k0 + n + (1 if strict else 0) >= j


def excess_most(l, n, k, strict):
    k0 = shape(l, 1)
    if k0 is None:
        return False
    # l = active - count + k0 <= 0
    return -k0 + n - (1 if strict else 0) <= k


def count(c, s, o, evs, w0):
    F = o.st.facts
    st = [e for e in evs if e.kind == "store" and e.obj is s.C and e.attr == "count"]
    cnt = V("attr", s.C, "count", 0)
    if st:
        for e in st:
            c.require(c18.is_count(e.value) or c18.is_limit(e.value) or c18.builtin(e.value, "min"), "COUNT", where(e), f"the count recorded is {show(e.value)[:50]}")
        put = any(e.kind == "call" and (e.get("name") or "").startswith("put") and s.C in list(e.args) for e in evs)
        c.require(put, "COUNT", w0, "the requested count changes without the cluster being queued to act on it", key="put")
        return
    same = any({a, b} & {cnt} and r == {"="} and any(c18.is_count(x) or c18.is_limit(x) for x in (a, b)) for (a, b), r in F.rel.items()) or any(
        t.k == "cmp" and t.a[0] == "==" and b and cnt in t.a for t, b in F.tr.items())
    c.require(same, "COUNT", w0, "a changed count is not recorded", key="recorded")


def heartbeat(c, L):
    f = L.base.methods.get("on_cluster_heartbeat")
    if f is None:
        raise Broken("no on_cluster_heartbeat")
    c.analysed(f)
    s = Scene(c, L, f)
    w0 = f"{f.module.rel()}:{f.line} ({f.cls.name}.{f.name})"
    n = 0
    for o in s.run("c1"):
        stop = values(o.st.facts, s.C, "target")
        active = {"CREATED", "SUBMITTED", "RUNNING"}
        eff = [e for e in flat(o) if e.kind == "store" or e.kind == "call" and ((e.get("name") or "").startswith("put") or e.get("name") in ("execute", "begin"))]
        if stop - active and goals_over(o.st.facts, s.C):
            c.require(not eff, "IGNORE", where(eff[0]) if eff else w0, "the heartbeat of a cluster that is stopping is acted on", key="stopping")
            if not eff:
                continue
        n += 1
        if o.kind == "ret":
            c.require(bool(eff), "IGNORE", w0, "the heartbeat of a cluster that is to run is ignored", key="ignored")
        if eff or o.kind != "ret":
            judge(c, s, o)
    if not n:
        raise Broken("no path through the heartbeat handler")
    for o in s.run("other"):
        eff = [e for e in flat(o) if e.kind == "store" or e.kind == "call" and (e.get("name") or "").startswith("put")]
        c.require(o.kind == "ret" and not eff, "IGNORE", w0, "the heartbeat of an unknown cluster is acted on or fails", key="unknown")


def goals_over(F, C):
    """the facts leave the possibility that the goal of the cluster is to stop"""
    goal = V("attr", C, "target", 0)
    for (a, b), r in F.rel.items():
        for x, y, rr in ((a, b, r), (b, a, {{"<": ">", ">": "<"}.get(z, z) for z in r})):
            if x == goal and nm(y):
                rr = set(rr)
                order = {q: i for i, q in enumerate(("CREATED", "SUBMITTED", "RUNNING", "CLOSING", "STOPPED", "FAILED"))}
                ok = {q for q in order if ("<" if order[q] < order[nm(y)] else ">" if order[q] > order[nm(y)] else "=") in rr}
                if not ok & {"CLOSING", "STOPPED", "FAILED"}:
                    return False
    return bool(values(F, C, "target") & {"CLOSING", "STOPPED", "FAILED"})


def creation(c, L):
    c18.creation(c, L)
    # the scale check runs for a running cluster, and creates whenever workers are missing
    I, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", ("RUNNING", "RUNNING"), opaque={"_check_cluster_scale"})
    w = outs and f"{L.base.methods['reconcile_cluster'].module.rel()}:{L.base.methods['reconcile_cluster'].line} (reconcile_cluster)"
    for o in outs:
        if o.kind == "ret":
            c.require(any(e.kind == "call" and e.get("name") == "_check_cluster_scale" for e in flat(o)), "CREATE", w, "a running cluster is not scaled", key="scaled")
    I, X, outs = run_from(c, L, "_check_cluster_scale", "Cluster", ("RUNNING", "RUNNING"), opaque={"create_worker", "active_workers", "put", "update_cluster"})
    f = L.base.methods["_check_cluster_scale"]
    w = f"{f.module.rel()}:{f.line} ({f.name})"
    for o in outs:
        evs = flat(o)
        if o.kind != "ret" or any(e.kind == "call" and e.get("name") == "update_cluster" for e in evs):
            continue
        made = [e for e in evs if e.kind == "call" and e.get("name") == "create_worker"]
        if not made:
            enough = any(c18.missing(l, X) == 1 for l, _ in bounds(o.st.facts))
            c.require(enough, "CREATE", w, "no worker is created although some may be missing", key="missing")
            continue
        put = {r for e in evs if e.kind == "call" and (e.get("name") or "").startswith("put") for r in e.args}
        for e in made:
            c.require(e.result in put, "CREATE", where(e), "a worker is created without being queued to be started", key="queued")
    # who counts as active
    k = c.prog.cls("dask_gateway_server.backends.db_base", "Cluster")
    g = k.find_method("active_workers")
    if g is None:
        raise Broken("Cluster has no active_workers")
    c.analysed(g)
    C, W = V("param", "c1"), [V("param", "w1"), V("param", "w2")]
    I = L.interp(None, use_rely=False)
    I.term_types[C] = k.qual
    for x in W:
        I.term_types[x] = DB + ".Worker"
    st = I.new_state()
    st.store = {**st.store, (C, "workers"): st.alloc(Obj("dict", layers=tuple(("kv", const(x.a[0]), x) for x in W)))}
    w = f"{g.module.rel()}:{g.line} (Cluster.active_workers)"
    for o in I.run_function(g, [], st=st, selfv=C):
        c.paths += 1
        got = {q[1] for q in I.segs_of(o.val, o.st)} if o.kind == "ret" else None
        if got is None or any(q[0] != "one" for q in I.segs_of(o.val, o.st)):
            # decided inside a comprehension: each element carries its condition
            segs = I.segs_of(o.val, o.st) if o.kind == "ret" else ()
            ok = bool(segs)
            for q in segs:
                for x, F in (q[1] if q[0] == "rep" else ()):
                    ok = ok and not (values(F, x, "target") & FIN)
            c.require(ok, "ACTIVE", w, "the active workers are not resolved", key="resolved")
            continue
        for x in W:
            T = values(o.st.facts, x, "target")
            if x in got:
                c.require(not T & FIN, "ACTIVE", w, "a worker that is to stop counts as active", key="stopped")
            else:
                c.require(not T & {"RUNNING"}, "ACTIVE", w, "a worker that is to run does not count as active", key="running")


def replacement(c, L):
    """a worker of a running cluster that stops without the scheduler having announced it is replaced"""
    n = 0
    for s in ("CREATED", "SUBMITTED", "RUNNING"):
        for t in sorted(FIN):
            I, X, outs = run_from(c, L, "reconcile_worker", "Worker", (s, t))
            w = f"reconcile_worker from {s}, {t}"
            for o in outs:
                if o.kind != "ret":
                    continue
                if any(qcall(e) in PUTS and e.kind == "call" and e.args and is_cluster(e.args[0], X) for e in flat(o)):
                    n += 1
                    c.require(True, "REPLACE", w, "")
                    continue
                F = o.st.facts
                cls = {x for tab in (F.dom, F.tr, F.ne) for k in tab for x in subterms(k) if is_cluster(x, X)}
                runs = all("RUNNING" in values(F, k, "target") and "RUNNING" in values(F, k, "status") for k in cls)
                c.require(not runs or flag(F, X, "close_expected") is True, "REPLACE", w,
                          "a worker of a running cluster is stopped without the cluster being looked at again, so that it is not replaced", key="replace")
    if not n:
        raise Broken("no stopped worker queues its cluster")
    c.floor("REPLACE", 6)


def run(c):
    c.rule("REPLACE", "when a worker stops whose closing was not announced, its running cluster is queued to replace it")
    c.rule("RUN", "exactly the workers reported active or closing that had not connected become running")
    c.rule("EXPECT", "exactly the workers reported closing are noted as closing")
    c.rule("CLOSED", "a worker reported closed gets a goal of stopped if its closing was noted, else of failure")
    c.rule("DONE", "a finished worker is not changed")
    c.rule("IGNORE", "the heartbeat of a stopping or unknown cluster has no effect, that of a running one has")
    c.rule("CANCEL", "otherwise a goal is changed only for workers that wait to connect")
    c.rule("TRIM", "as many waiting workers are cancelled as exceed the requested count")
    c.rule("ORDER", "workers not submitted yet are cancelled first")
    c.rule("COUNT", "a changed count is recorded and acted on")
    c.rule("TOTAL", "the handler fails for no report that a scheduler can send")
    c.rule("CREATE", "new workers are created exactly up to the requested count, and queued")
    c.rule("ACTIVE", "the workers counted as active are those with a goal of running")
    L = Life(c)
    heartbeat(c, L)
    creation(c, L)
    replacement(c, L)
    c.assumptions += ["The scheduler plugin reports each worker that ever connected in exactly one list (C36).",
                      "Two workers of unknown state represent any number: the handler treats workers alike (each of its loops ranges over all of them)."]
