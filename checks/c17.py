"""C17: unhealthy clusters and workers are detected, failed and queued; nothing else is failed in the background."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, linear, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from . import c17b
from .dblife import DB, NAMES, RANK, SELF, Life, nm, qcall
from .recon import PUTS, raised_by, run_from

ACTIVE = {"CREATED", "SUBMITTED", "RUNNING", "CLOSING"}  # a goal is running, stopped or failed (C11)
DEADLINES = {("Cluster", "SUBMITTED"): ("start_time", "cluster_start_timeout"),
             ("Cluster", "RUNNING"): ("last_heartbeat", "cluster_heartbeat_timeout"),
             ("Worker", "SUBMITTED"): ("start_time", "worker_start_timeout")}


def is_now(t):
    s = show(t.a[0]) if t.k == "call" else ""
    if "timestamp" in s:
        return 1
    return 1 if t.k == "call" and s.endswith("int") and "time.time()" in show(t) and "1000" in show(t) else 0


def past(d, X, attr, setting):
    """d is a multiple of  now - 1000*setting - X.attr: +1, of its opposite: -1, of neither: 0"""
    d = dict(d)
    d.pop(None, None)
    at = [t for t in d if t.k == "attr" and t.a[0] is X and t.a[1] == attr]
    now = [t for t in d if is_now(t)]
    rest = [t for t in d if t not in at and t not in now]
    if len(at) != 1 or len(now) != 1 or len(rest) != 1:
        return 0
    s = -d[at[0]]
    if d[now[0]] != s:
        return 0
    lim = [x for x in subterms(rest[0]) if x.k == "attr" and x.a[0] is SELF and x.a[1] == setting]
    if not lim:
        return 0
    r = rest[0]
    scale = d[r] if r is lim[0] else d[r] * linear(r).get(lim[0], 0)
    if scale != -1000 * s:
        return 0
    return 1 if s > 0 else -1


def expired(facts, X, attr, setting):
    """True: the facts say the deadline has passed; False: they say it has not; None: neither"""
    for l, _ in bounds(facts):
        k = past({t: -v for t, v in l.items()}, X, attr, setting)
        if k:
            return k > 0
    return None


def doms(facts, X, attr):
    """possible names, at the last reading and over all readings"""
    got = {}
    for k, d in facts.dom.items():
        if k.k == "attr" and k.a[0] is X and k.a[1] == attr:
            got[k.a[2]] = {nm(x) for x in d}
    last = got[max(got)] if got else set(NAMES)
    every = set(NAMES)
    for d in got.values():
        every &= d
    return last, every


class World:
    """two clusters with three workers, whose status and goal are unknown"""

    def __init__(self, c, L):
        self.c, self.L = c, L
        self.C = [V("param", "c1"), V("param", "c2")]
        self.W = [V("param", "w1"), V("param", "w2"), V("param", "w3")]
        self.home = {self.W[0]: self.C[0], self.W[1]: self.C[0], self.W[2]: self.C[1]}

    def kind(self, X):
        return "Cluster" if X in self.C else "Worker"

    def ok(self, X, F):
        """what the backend reported about X: True, False, or None if it was not asked, and when"""
        for k, b in F.tr.items():
            if k.k == "alive" and k.a[0] is X:
                return b, k.a[1]
        return None, 0

    def build(self, I):
        for x in self.C:
            I.term_types[x] = DB + ".Cluster"
        for x in self.W:
            I.term_types[x] = DB + ".Worker"
        st = I.new_state()
        db = V("attr", SELF, "db", 0)
        store = dict(st.store)

        def table(xs, key="name"):
            return st.alloc(Obj("dict", layers=tuple(("kv", V("attr", x, key, 0), x) for x in xs)))
        store[(db, "name_to_cluster")] = table(self.C)
        store[(db, "id_to_cluster")] = table(self.C, "id")
        for x in self.C:
            store[(x, "workers")] = table([w for w in self.W if self.home[w] is x])
        for w in self.W:
            store[(w, "cluster")] = self.home[w]
        st.store = store
        return st

    def results(self, I, st, name, func, args, kw):
        if name not in ("do_check_clusters", "do_check_workers") or not args:
            return None
        segs = I.segs_of(args[0], st)
        if any(g[0] != "one" for g in segs):
            raise Broken(f"{name}: the list of objects is not resolved: {show(args[0])[:80]}")
        lst = st.alloc(Obj("list", lk="list", segs=tuple(("one", V("alive", g[1], st.epoch)) for g in segs)))
        return st.alloc(Obj("waiter", mode="given", args=(lst,)))


class Row:
    """one pass of a background loop"""

    def __init__(self, f, evs, facts, raised):
        self.f, self.evs, self.facts, self.raised = f, evs, facts, raised


def passes(c, L, w, f):
    """the passes of the outermost endless loop of a background task"""
    loops, depth = [], {}

    def on_event(st, ev):
        if ev.kind == "loop" and ev.seg[0] == "while" and ev.func is f:
            loops.append(ev)

    def rs(I, st, ev):
        if ev.get("name") == "execute":
            return ["Exception"]
        return None
    I = L.interp(on_event, use_rely=False, do_raises=True, raises=rs, opaque=("timestamp", "reconcile_cluster", "reconcile_worker", "cleanup_expired"))
    I.results = w.results
    st = w.build(I)
    outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], st=st, selfv=SELF)
    rows = []
    for ev in loops[-1:]:
        for b in ev.bodies:
            top = list(b.events)
            rows.append(Row(f, top, b.facts, any(e.kind == "callraised" for e in walk_events(top))))
    c.paths += len(rows)
    return rows, outs


def wrote(row, X):
    """the event that gives X a goal of failure"""
    for e in walk_events(row.evs):
        if e.kind == "store" and e.obj is X and e.attr == "target" and nm(e.value) == "FAILED":
            return e
    return None


def reason(w, X, F):
    """why X may be failed, from the facts at the write"""
    k = w.kind(X)
    sl, sa = doms(F, X, "status")
    tl, _ = doms(F, X, "target")
    if not tl <= ACTIVE:
        return None, "its goal may already be to stop"
    alive, asked = w.ok(X, F)
    if alive is False and sl <= {"SUBMITTED"}:
        if any(not any(k.k == "attr" and k.a[0] is X and k.a[1] == a and k.a[2] > asked for k in F.dom) for a in ("status", "target")):
            return None, "it may have moved on while the backend was asked"
        return "report", None
    for s in sl:
        if (k, s) not in DEADLINES:
            return None, f"its status may be {s.lower()}"
        if expired(F, X, *DEADLINES[k, s]) is not True:
            return None, "no deadline of its own has passed and the backend does not report it dead"
    if k == "Worker" and "SUBMITTED" not in sl:
        return None, "it is not starting"
    return "deadline", None


def judge(c, w, f, rows):
    """soundness of each write, then completeness for the kinds of detection the loop implements"""
    impl = set()
    bad = False
    for r in rows:
        for e in walk_events(r.evs):
            if e.kind == "store" and e.attr in ("target", "status") and (e.obj in w.C or e.obj in w.W):
                if e.attr == "status" or nm(e.value) != "FAILED":
                    c.fail("ONLY", where(e), f"{f.name}: a background check sets {e.attr} to {show(e.value)[:40]}", key=f"{f.name} {e.attr}")
                    bad = True
                    continue
                X = e.obj
                why, msg = reason(w, X, e.facts)
                c.require(why is not None, "ONLY", where(e), f"{f.name}: a {w.kind(X).lower()} is failed although {msg}", key=f"{f.name} {w.kind(X)} {msg}")
                if why == "deadline":
                    for s in doms(e.facts, X, "status")[0]:
                        impl.add((w.kind(X), s))
                elif why:
                    impl.add((w.kind(X), "report"))
    for r in rows:
        if r.raised:
            continue
        for X in w.C + w.W:
            k = w.kind(X)
            e = wrote(r, X)
            if e is not None:
                q = any(x.kind == "call" and qcall(x) in PUTS and x.args and x.args[0] is X for x in after(r.evs, e))
                c.require(q, "QUEUE", where(e), f"{f.name}: a {k.lower()} given a goal of failure is not queued", key=f"{f.name} {k}")
                if k == "Worker" and (k, "report") in impl and w.ok(X, e.facts)[0] is False:
                    home = w.home[X]
                    inc = any(x.kind == "store" and x.attr == "worker_start_failure_count" and plus_one(x, home) for x in walk_events(r.evs))
                    c.require(inc, "COUNT", where(e), f"{f.name}: a worker that died while starting does not count as a failed start of its cluster", key=f.name)
                continue
            for why in impl:
                if why[0] != k:
                    continue
                if not refuted(w, r, X, why[1]):
                    c.fail("DETECT", f"{f.module.rel()}:{f.line} ({f.name})", f"a {k.lower()} that {TEXT[why]} is not always failed (one pass leaves {X.a[0]} alone: {why_text(r.facts, X)})", key=f"{f.name} {why}")
                else:
                    c.require(True, "DETECT", f.name, "")
    return impl


TEXT = {("Cluster", "SUBMITTED"): "is submitted and past its start timeout", ("Cluster", "RUNNING"): "is running and past its heartbeat timeout",
        ("Worker", "SUBMITTED"): "is submitted and past its start timeout", ("Cluster", "report"): "is reported dead while it starts",
        ("Worker", "report"): "is reported dead while it starts"}


def why_text(F, X):
    return ", ".join(f"{a} in {'/'.join(sorted(d))}" for a in ("status", "target") for d in [doms(F, X, a)[1]] if len(d) < 6) or "nothing known"


def after(evs, e):
    out, on = [], False
    for x in walk_events(evs):
        if on:
            out.append(x)
        if x is e:
            on = True
    return out


def plus_one(e, home):
    o = e.obj
    if o is not home and not (o.k == "attr" and o.a[1] == "cluster"):
        return False
    l = linear(e.value)
    t = [x for x in l if x is not None]
    return l.get(None) == 1 and len(t) == 1 and l[t[0]] == 1 and t[0].k == "attr" and t[0].a[1] == "worker_start_failure_count"


def refuted(w, r, X, why):
    """the facts of the pass exclude that X had to be failed"""
    F = r.facts
    k = w.kind(X)
    s, t = doms(F, X, "status")[1], doms(F, X, "target")[1]
    need = "SUBMITTED" if why == "report" else why
    if need not in s or "RUNNING" not in t:
        return True
    if k == "Worker":
        h = w.home[X]
        if "RUNNING" not in doms(F, h, "status")[1] or "RUNNING" not in doms(F, h, "target")[1] or wrote(r, h):
            return True
    if why == "report":
        return w.ok(X, F)[0] is True
    return expired(F, X, *DEADLINES[k, why]) is False


def loop_rules(c, L):
    w = World(c, L)
    impl = {}
    for n, f in sorted(L.tasks().items()):
        c.analysed(f)
        rows, outs = passes(c, L, w, f)
        got = judge(c, w, f, rows)
        if got:
            impl[n] = got
            esc = [o for o in outs if o.kind == "raise" and not (o.val is not None and o.val.k == "exc" and "Cancelled" in str(o.val.a[0]))]
            c.require(not esc, "SURVIVE", f"{f.module.rel()}:{f.line} ({n})", "a failure during one pass ends the loop, and nothing is detected any more", key=n)
            c.require(not [o for o in outs if o.kind == "ret"], "SURVIVE", f"{f.module.rel()}:{f.line} ({n})", "the loop can end", key=f"{n} end")
    have = set().union(*impl.values()) if impl else set()
    for why in TEXT:
        c.require(why in have, "DETECT", L.base.qual, f"no background task fails a {why[0].lower()} that {TEXT[why]}", key=f"none {why}")
    # the loops are started
    f = L.base.methods["setup"]
    c.analysed(f)
    I = L.interp(use_rely=False, do_raises=False, opaque=lambda g, r: g.name not in ("setup",))
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        if o.kind != "ret":
            continue
        on = spawned(o)
        for n in impl:
            c.require(n in on, "STARTED", f"{f.module.rel()}:{f.line} (setup)", f"{n} is not started", key=n)
    c.floor("DETECT", 20)
    c.floor("ONLY", 5)
    c.floor("QUEUE", 5)
    c.floor("STARTED", 1)


def spawned(o):
    out = set()
    for e in walk_events(events(o.st.trace)):
        if e.kind == "call":
            for a in e.args or ():
                ob = e.heap.get(a.a[0]) if isinstance(a, V) and a.k == "ref" else None
                if ob is not None and ob.kind == "coro":
                    out.add(ob.func.name)
                if isinstance(a, V) and a.k == "call" and a.a[0].k in ("bound", "func"):
                    out.add(show(a.a[0]).split(".")[-1])
        if e.kind == "spawn":
            ob = e.heap.get(e.coro.a[0]) if e.coro.k == "ref" else None
            if ob is not None and ob.kind == "coro":
                out.add(ob.func.name)
    return out


# ------------------------------------------------------------------ reconciliation
def over_limit(F, X):
    """count >= limit known: True / refuted: False / None"""
    for l, strict in bounds(F):
        d = {t: -v for t, v in l.items()}
        k = d.pop(None, 0)
        cnt = [t for t in d if t.k == "attr" and t.a[1] == "worker_start_failure_count" and t.a[0] is X]
        lim = [t for t in d if t.k == "attr" and t.a[0] is SELF and t.a[1] == "worker_start_failure_limit"]
        if len(cnt) != 1 or len(lim) != 1 or len(d) != 2 or d[cnt[0]] != -d[lim[0]]:
            continue
        a = d[cnt[0]]
        if a > 0 and (k <= 0):
            # count - limit + k >= 0
            return True
        if a < 0 and (k < 0 or strict and k <= 0):
            # limit - count + k >= 0, strictly below the limit
            return False
    return None


def recon_rules(c, L):
    n = 0
    for pre in ((s, t) for s in NAMES for t in NAMES):
        if RANK[pre[0]] > RANK["RUNNING"] or RANK[pre[1]] > RANK["RUNNING"] or pre[1] != "RUNNING":
            continue
        I, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", pre, do_raises=True, opaque=("timestamp",))
        for o in outs:
            top = list(walk_events(events(o.st.trace)))
            started = any(raised_by(e) == "do_start_cluster" for e in events(o.st.trace))
            fails = [e for e in top if e.kind == "store" and e.obj is X and e.attr == "target" and nm(e.value) in ("FAILED", "STOPPED")]
            for e in fails:
                n += 1
                c.require(started or over_limit(e.facts, X) is True, "ONLY", where(e), "a cluster is failed while it is reconciled although its start did not fail and its workers did start", key=f"reconcile {pre[0]}")
            if pre == ("RUNNING", "RUNNING") and o.kind == "ret" and not any(e.kind == "callraised" for e in top):
                n += 1
                ok = bool(fails) or over_limit(o.st.facts, X) is False
                c.require(ok, "LIMIT", "reconcile_cluster", "a running cluster whose workers repeatedly failed to start is not failed", key="limit")
                for e in fails:
                    q = any(x.kind == "call" and qcall(x) in PUTS and x.args and x.args[0] is X for x in after(top, e))
                    c.require(q, "QUEUE", where(e), "a cluster failed for its workers is not queued", key="limit")
    # failed starts of workers are counted
    I, X, outs = run_from(c, L, "reconcile_worker", "Worker", ("CREATED", "RUNNING"), do_raises=True, opaque=("timestamp",))
    for o in outs:
        top = list(walk_events(events(o.st.trace)))
        at = [e for e in events(o.st.trace) if raised_by(e) == "do_start_worker"]
        if at and o.kind == "ret":
            inc = any(e.kind == "store" and e.attr == "worker_start_failure_count" and plus_one(e, None) for e in top)
            c.require(inc, "COUNT", where(at[0]), "a worker whose start failed is not counted as a failed start of its cluster", key="start")
        for e in top:
            if e.kind == "store" and e.attr == "target" and e.obj is X and nm(e.value) == "FAILED":
                c.require(bool(at), "ONLY", where(e), "a worker is failed while it is reconciled although its start did not fail", key="reconcile worker")
    c.floor("LIMIT", 1)
    c.floor("COUNT", 2)


def beat_rules(c, L):
    """deadlines count from what really happened"""
    f = L.base.methods["on_cluster_heartbeat"]
    X = V("param", "cl")
    for s in ("CREATED", "SUBMITTED", "RUNNING"):
        I = L.interp(use_rely=False, do_raises=False, opaque=("timestamp",))
        I.term_types[X] = DB + ".Cluster"
        I.results = lambda I_, st, name, func, args, kw: None
        st = I.new_state()
        db = V("attr", SELF, "db", 0)
        tab = {nm(m): m for m in I.enum_tab[L.status_cls.qual]}
        store = dict(st.store)
        name = V("param", f.params()[1])
        store[(db, "name_to_cluster")] = st.alloc(Obj("dict", layers=(("kv", name, X),)))
        store[(X, "status")], store[(X, "target")] = tab[s], tab["RUNNING"]
        st.store = store
        k = 0
        for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], st=st, selfv=SELF):
            c.paths += 1
            if any(k is X for k in o.st.facts.dom):
                continue  # no such cluster
            top = list(walk_events(events(o.st.trace)))
            hb = [e for e in top if e.kind == "store" and e.obj is X and e.attr == "last_heartbeat"]
            if o.kind == "ret":
                k += 1
                c.require(bool(hb) and all(any(is_now(t) for t in subterms(e.value)) for e in hb), "BEAT", f"{f.module.rel()}:{f.line} ({f.name})", f"a heartbeat of a {s.lower()} cluster does not renew its deadline", key=s)
            for e in top:
                if e.kind == "store" and e.attr == "target" and e.obj is X:
                    c.fail("ONLY", where(e), "a heartbeat changes the goal of its cluster", key="beat")
                if e.kind == "store" and e.attr == "worker_start_failure_count":
                    up = any(x.kind == "store" and x.attr == "status" and nm(x.value) == "RUNNING" and x.obj is not X for x in top) or plus_one(e, X)
                    c.require(up, "COUNT", where(e), "the count of failed worker starts is reset although no worker started", key="reset")
        c.require(k > 0, "BEAT", f.name, "a heartbeat is never handled", key=f"{s} none")
    dm = L.prog.cls(DB, "DataManager")
    for fn in ("create_cluster", "create_worker"):
        g = dm.find_method(fn)
        c.analysed(g)
        I = Interp(c.prog, c.types, opaque=lambda h, r: h.name in ("new_keypair", "encode_tls_credentials", "encode_token", "timestamp"))
        I.term_types[SELF] = dm.qual
        for o in I.run_function(g, [V("param", x) for x in g.params()[1:]], selfv=SELF):
            if o.kind != "ret":
                continue
            for e in walk_events(events(o.st.trace)):
                if e.kind == "new" and "start_time" in (e.get("kwargs") or {}):
                    v = e.kwargs["start_time"]
                    c.require(bool(is_now(v)), "BEAT", where(e), f"{fn}: the start time of a new object is not the present: {show(v)[:60]}", key=fn)
    c.floor("BEAT", 5)


def run(c):
    c.rule("ONLY", "a goal of failure is given only for a passed deadline, a dead report, a failed start or too many failed workers")
    c.rule("DETECT", "each pass of the background checks fails every object whose deadline passed or that is reported dead")
    c.rule("QUEUE", "an object given a goal of failure is queued")
    c.rule("SURVIVE", "a failing pass does not end the checks")
    c.rule("STARTED", "the checks are started with the backend")
    c.rule("LIMIT", "a cluster whose workers repeatedly fail to start is failed")
    c.rule("COUNT", "failed worker starts are counted, and the count restarts only when a worker started")
    c.rule("BEAT", "deadlines count from the latest heartbeat and the creation time")
    c.rule("ALIGN", "a backend reports one status per object, in order, each about that object")
    c.rule("MEANING", "a backend reports dead exactly what has ended")
    L = Life(c)
    loop_rules(c, L)
    recon_rules(c, L)
    beat_rules(c, L)
    c17b.backend_rules(c, L)
    c.assumptions += ["Two clusters with three workers stand for any number: the checks treat each element of the collections alike."]
