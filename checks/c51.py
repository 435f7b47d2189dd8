"""C51: what queries about clusters are answered, for every status of the clusters and every way to ask."""
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import subterms
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, enum, show
from . import c29
from .optw import Unknown, get, put
from .recon import setflag

DB = "dask_gateway_server.backends.db_base"
MODELS = "dask_gateway_server.models"
# (status, goal): public status
PUBLIC = {("CREATED", "RUNNING"): "PENDING", ("SUBMITTED", "RUNNING"): "PENDING", ("RUNNING", "RUNNING"): "RUNNING", ("STOPPED", "STOPPED"): "STOPPED", ("FAILED", "FAILED"): "FAILED",
          **{(s, t): "STOPPING" for s in ("CREATED", "SUBMITTED", "RUNNING", "CLOSING") for t in ("STOPPED", "FAILED")}}
FIELDS = {"name": "c1", "username": "alice", "token": "tok", "options": {"a": 1}, "config": {"b": 2}, "scheduler_address": "tls://s:1", "dashboard_address": "http://s:2", "api_address": "http://s:3",
          "tls_cert": b"CERT", "tls_key": b"KEY", "start_time": 11, "stop_time": 22}
LONGEST = 60


class World:
    def __init__(self, c):
        self.c = c
        self.js = c.prog.cls(DB, "JobStatus")
        self.ck = c.prog.cls(DB, "Cluster")
        self.dm = c.prog.cls(DB, "DataManager")
        self.be = c.prog.cls(DB, "DBBackendBase")
        self.ps = c.prog.cls(MODELS, "ClusterStatus")
        self.I = I = Interp(c.prog, c.types, raises=lambda I, st, ev: None)
        I.unroll = 8
        self.st = I.new_state()

    def job(self, n):
        return enum(self.js.qual, n, self.js.enum_members()[n])

    def public(self, n):
        return enum(self.ps.qual, n, self.ps.enum_members()[n])

    def cluster(self, st, status, target, **kw):
        at = {**FIELDS, **kw}
        return st.alloc(Obj("inst", cls=self.ck.qual, attrs={**{k: put(st, v) if not isinstance(v, bytes) else const(v) for k, v in at.items()},
                                                             "status": self.job(status), "target": self.job(target), "workers": put(st, {}), "count": const(0), "state": put(st, {})}))

    def manager(self, st, clusters):
        by_name, by_user = [], {}
        for n, u, x in clusters:
            by_name.append(("kv", const(n), x))
            by_user.setdefault(u, []).append(("kv", const(n), x))
        users = tuple(("kv", const(u), st.alloc(Obj("dict", layers=tuple(ls)))) for u, ls in by_user.items())
        d = st.alloc(Obj("inst", cls=self.dm.qual, attrs={"name_to_cluster": st.alloc(Obj("dict", layers=tuple(by_name))), "username_to_clusters": st.alloc(Obj("dict", layers=users))}))
        return st.alloc(Obj("inst", cls=self.be.qual, attrs={"db": d, "log": V("param", "log")}))

    def method(self, k, n):
        f = k.find_method(n)
        if f is None:
            raise Broken(f"{k.name} has no {n}")
        self.where = f"{f.module.rel()}:{f.line} ({k.name}.{n})"
        return f

    def run(self, f, args, S, st, **kw):
        outs = self.I.run_function(f, args, selfv=S, st=st.fork(), kwargs=kw)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return outs


def attrs(w, o, v):
    x = o.st.obj(v)
    return x.attrs if x is not None and x.kind == "inst" and x.cls == MODELS + ".Cluster" else None


def known(st, v):
    if v is None:
        return "nothing"
    if v.k == "enum":
        return v.a[1]
    try:
        return get(st, v)
    except Unknown:
        return f"?{show(v)[:60]}"


def records(c):
    """a query reports what is recorded"""
    w = World(c)
    f = w.method(w.be, "get_cluster")
    for (s, t), pub in PUBLIC.items():
        for stop in (22, None):
            st = w.st.fork()
            x = w.cluster(st, s, t, stop_time=stop)
            y = w.cluster(st, "RUNNING", "RUNNING", name="c2", username="bob", token="other", tls_key=b"OTHER")
            S = w.manager(st, [("c1", "alice", x), ("c2", "bob", y)])
            for o in w.run(f, [const("c1")], S, st):
                a = attrs(w, o, o.val) if o.kind == "ret" else None
                if not c.require(a is not None, "RECORD", w.where, f"a query for a cluster with status {s} and goal {t} is not answered", key="answer"):
                    continue
                for n, v in {**FIELDS, "stop_time": stop}.items():
                    got = known(o.st, a.get(n))
                    c.require(got == v and type(got) is type(v), "RECORD", w.where, f"a query reports the {n} {got!r}, not {v!r}", key=n)
                c.require(known(o.st, a.get("status")) == pub, "STATUS", w.where, f"a cluster with status {s} and goal {t} is reported as {known(o.st, a.get('status'))}", key=f"{s} {t}")
                reply(c, w, o, pub)
    st = w.st.fork()
    S = w.manager(st, [("c1", "alice", w.cluster(st, "RUNNING", "RUNNING"))])
    for wait in (False, True):
        for o in w.run(f, [const("c9")], S, st, wait=const(wait)):
            c.require(o.kind == "ret" and o.val is NONE, "RECORD", w.where, "a query for an unknown cluster is answered", key="unknown")


def reply(c, w, o, pub):
    """what of a record is put into the reply"""
    k = c.prog.cls(MODELS, "Cluster")
    f = k.find_method("to_dict")
    if f is None:
        raise Broken("the model of a cluster has no to_dict")
    ws = f"{f.module.rel()}:{f.line} (Cluster.to_dict)"
    for full in (True, False):
        for r in w.I.run_function(f, [], selfv=o.val, st=o.st.fork(), kwargs={"full": const(full)}):
            c.analysed(f)
            d = known(r.st, r.val) if r.kind == "ret" else None
            if not c.require(isinstance(d, dict), "REPLY", ws, f"the record of a cluster is reported as {d}", key="dict"):
                continue
            a = attrs(w, o, o.val)
            want = {"name": "c1", "status": pub, "options": FIELDS["options"], "start_time": 11, "stop_time": known(o.st, a.get("stop_time"))}
            for n, v in want.items():
                c.require(d.get(n, "nothing") == v, "REPLY", ws, f"the reply reports the {n} {d.get(n, 'nothing')!r}, not {v!r}", key=n)
            c.require((d.get("dashboard_route") is not None) == (pub == "RUNNING"), "REPLY", ws, f"a {pub} cluster is reported with the dashboard {d.get('dashboard_route')}", key="dashboard")
            if full and pub == "RUNNING":
                c.require((d.get("tls_cert"), d.get("tls_key")) == ("CERT", "KEY"), "REPLY", ws, "a running cluster is reported without its credentials", key="tls")


def listings(c):
    w = World(c)
    f = w.method(w.be, "list_clusters")
    pubs = list(w.ps.enum_members())
    st = w.st.fork()
    all_, rows = [], []
    for (s, t), pub in PUBLIC.items():
        for u in ("alice", "bob"):
            n = f"{u} {s} {t}"
            all_.append((n, u, pub))
            rows.append((n, u, w.cluster(st, s, t, name=n, username=u)))
    S = w.manager(st, rows)
    asked = [None] + [list(x) for r in range(0, 3) for x in itertools.combinations(pubs, r)] + [pubs]
    for user, ask in itertools.product((None, "alice", "bob", "carol"), asked):
        a = NONE if ask is None else st.alloc(Obj("list", segs=tuple(("one", w.public(p)) for p in ask)))
        want = sorted(n for n, u, p in all_ if user in (None, u) and p in (("PENDING", "RUNNING") if ask is None else ask))
        for o in w.run(f, [], S, st, username=const(user) if user else NONE, statuses=a):
            text = f"{user or 'everybody'}'s clusters that are {'active' if ask is None else ' or '.join(ask) or 'in no status'}"
            segs = w.I.segs_of(o.val, o.st) if o.kind == "ret" else None
            if not c.require(segs is not None and all(q[0] == "one" for q in segs), "LIST", w.where, f"a listing of {text} fails", key="fails"):
                continue
            got = sorted(str(known(o.st, (attrs(w, o, q[1]) or {}).get("name"))) for q in segs)
            c.require(got == want, "LIST", w.where, f"a listing of {text} reports {sorted(set(got) - set(want)) or 'not'} {sorted(set(want) - set(got)) or ''}", key=f"list {bool(user)} {ask is None}")
    c.floor("LIST", 20)


def query(c):
    """the statuses and the wait that a request asks for are those the backend is asked for"""
    from .wire import Server
    s = Server(c)
    pubs = list(c.prog.cls(MODELS, "ClusterStatus").enum_members())
    for ask in [None] + [[p] for p in pubs] + [list(x) for x in itertools.combinations(pubs, 2)]:
        log = []
        url = "/api/v1/clusters/" + ("" if ask is None else "?status=" + ",".join(x.lower() for x in ask))
        rs = s.handle("GET", url)
        if not c.require(bool(rs), "ASK", url, "a listing is not served", key="list"):
            continue
        for status, body, calls, r in rs:
            d = [dict(a) for n, a in calls if n == "list_clusters"]
            got = [x.get("statuses") for x in d]
            c.require(len(d) == 1 and same(got[0], ask), "ASK", url, f"a listing of clusters that are {ask} asks for {got}", key="statuses")
    for flag, want in (("", False), ("?wait", True), ("?wait=1", True), ("?wait=0", False)):
        url = "/api/v1/clusters/c9" + flag
        rs = s.handle("GET", url)
        if not c.require(bool(rs), "ASK", url, "a query is not served", key="get"):
            continue
        for status, body, calls, r in rs:
            d = [dict(a) for n, a in calls if n == "get_cluster"]
            c.require(len(d) == 1 and same(d[0].get("wait", "false"), want), "ASK", url, f"a query with {flag or 'no flag'} asks to wait: {d}", key="wait")
            c.require(len(d) == 1 and same(d[0].get("cluster_name"), "c9"), "ASK", url, f"a query for c9 asks for {d}", key="name")


def same(got, want):
    import json
    try:
        x = json.loads(got) if isinstance(got, str) else got
    except ValueError:
        x = got
    if isinstance(want, list):
        return isinstance(x, list) and sorted(x) == sorted(want)
    return x == want and type(x) is type(want)


def waits(c):
    """a query that waits does so for the cluster's own start, for a bounded time, and then looks again"""
    w = World(c)
    f = w.method(w.be, "get_cluster")
    flags = {n: V("param", n) for n in ("ready", "shutdown", "ready2", "shutdown2")}
    I = w.I = Interp(c.prog, c.types, raises=lambda I, st, ev: None)
    for x in flags.values():
        I.term_types[x] = "dask_gateway_server.utils.Flag"
    st = I.new_state()
    x = V("param", "cluster")
    y = V("param", "cluster2")
    for v, names in ((x, ("ready", "shutdown")), (y, ("ready2", "shutdown2"))):
        I.term_types[v] = w.ck.qual
        st.store = {**st.store, **{(v, a): flags[b] for a, b in zip(("ready", "shutdown"), names)}}
    st.facts = st.facts.assume(V("cmp", "is", x, NONE), False)
    S = w.manager(st, [("c1", "alice", x), ("c2", "bob", y)])
    n = 0
    I.volatile = lambda I, b, a, st: b in (x, y) and a in ("status", "target")
    I.opaque = lambda g, r: g.cls is not None and g.cls.name == "Cluster" and g.name != "to_model"
    for o in w.run(f, [const("c1")], S, st, wait=const(True)):
        es = list(walk_events(events(o.st.trace)))
        if not c.require(o.kind == "ret", "WAIT", w.where, "a query that waits fails", key="fails"):
            continue
        n += 1
        on = [i for i, e in enumerate(es) if any(z == flags["ready"] for z in over(e))]
        c.require(bool(on), "WAIT", w.where, "a query that is to wait does not wait for the cluster to start", key="ready")
        for b in ("shutdown", "ready2", "shutdown2"):
            c.require(not any(z == flags[b] for e in es for z in over(e)), "WAIT", w.where, "a query waits for something else", key="other")
        c.require(any(bounded(e) for e in es), "WAIT", w.where, "a query that waits does so without a limit", key="limit")
        last = max((i for i, e in enumerate(es) if e.kind == "suspend"), default=-1)
        made = [i for i, e in enumerate(es) if e.kind == "new" and e.get("cls") == MODELS + ".Cluster"]
        c.require(bool(made) and made[-1] > last, "WAIT", w.where, "a query reports what was recorded before the wait", key="late")
    c.require(n > 0, "WAIT", w.where, "a query that waits is not followed", key="none")
    for o in w.run(f, [const("c1")], S, st):
        es = list(walk_events(events(o.st.trace)))
        c.require(o.kind == "ret" and not any(e.kind == "suspend" for e in es), "WAIT", w.where, "a query that is not to wait does", key="nowait")
    c29.waits(c)


def over(e):
    return [t for v in list(e.get("args") or ()) + list((e.get("kwargs") or {}).values()) + [x for x in (e.get("value"), e.get("timeout")) if isinstance(x, V)] if e.kind != "store" for t in subterms(v)]


def bounded(e):
    """the event limits what it waits for"""
    if e.kind not in ("timed", "wait_limit") and e.get("name") not in ("wait_for", "wait", "timeout", "timeout_at", "move_on_after"):
        return False
    return any(t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) and 0 < t.a[0] <= LONGEST for t in over(e))


def flags(c):
    """the flags that waiting queries wait for"""
    w = World(c)
    init = w.method(w.ck, "__init__")
    for s in w.js.enum_members():
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.cls is not None and g.cls.name == "Flag")
        st = I.new_state()
        X = V("param", "cluster")
        I.term_types[X] = w.ck.qual
        for o in I.run_function(init, [], selfv=X, st=st, kwargs={"name": const("c1"), "status": w.job(s), "target": w.job(s if s in ("STOPPED", "FAILED") else "RUNNING")}):
            c.paths += 1
            c.analysed(init)
            es = list(walk_events(events(o.st.trace)))
            at = {a: [e.value for e in es if e.kind == "store" and e.attr == a] for a in ("ready", "shutdown")}
            for a, on in (("ready", ("RUNNING", "CLOSING", "STOPPED", "FAILED")), ("shutdown", ("STOPPED", "FAILED"))):
                if not c.require(bool(at[a]), "FLAG", w.where, f"a cluster has no flag {a}", key="flag"):
                    continue
                F = at[a][-1]
                done = any(e.kind == "call" and e.get("name") == "set" and e.get("callee") is not None and any(t == F for t in subterms(e.callee)) for e in es)
                c.require(done == (s in on), "FLAG", w.where, f"those waiting for a cluster restored as {s} to {'start' if a == 'ready' else 'stop'} {'are not' if s in on else 'are'} woken", key=f"{a} {s}")
    from .recon import flat, run_from
    from .dblife import Life, nm
    L = Life(c)
    n = 0
    _, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", ("SUBMITTED", "RUNNING"))
    for o in outs:
        es = flat(o)
        for e in es:
            if e.kind == "store" and e.attr == "status" and nm(e.value) == "RUNNING":
                n += 1
                c.require(any(setflag(x, X, "ready") for x in es), "FLAG", "reconcile_cluster", "those waiting for a cluster to start are not woken when it has started", key="started")
    if not n:
        raise Broken("no cluster becomes running when it is reconciled")


def run(c):
    c.rule("RECORD", "a query reports the recorded attributes of the cluster it asks for, and nothing for an unknown one")
    c.rule("STATUS", "each status and goal is reported as the public status that it means")
    c.rule("REPLY", "the reply carries the reported attributes")
    c.rule("LIST", "a listing holds exactly the user's clusters in an asked status, or the active ones")
    c.rule("ASK", "the backend is asked for what the request asks for")
    c.rule("WAIT", "a query that waits does so for the cluster's start, for a bounded time, and reports the state after it")
    c.rule("FLAG", "those waiting are woken when the cluster runs, and need not wait for one that does")
    records(c)
    listings(c)
    query(c)
    waits(c)
    flags(c)
    c.assumptions += ["Two users with a cluster in every status stand for any number of them.", "A wait of up to a minute counts as bounded."]
