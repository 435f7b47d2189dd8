"""C41: the order of a shutdown, and the clean-up after a start-up that failed.

Every start-up is followed to each call in it that can fail, and the clean-up is
then run on what that start-up left behind, with every kind of cluster, with and
without the option to stop clusters."""
import itertools
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, is_log, where
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, enum, show

DB = "dask_gateway_server.backends.db_base"
BASE = "dask_gateway_server.backends.base"
UTILS = "dask_gateway_server.utils"
APP = "dask_gateway_server.app"
PARTS = ("Proxy", "WorkQueue", "TaskPool", "Informer")
STEPS = ("do_setup", "do_cleanup", "update_clusters", "update_workers", "load_database_state")


def opaque(f, recv):
    return f.cls is not None and f.cls.name in PARTS or f.name in STEPS


def is_dm(ev):
    return ev.kind == "new" and isinstance(ev.get("cls"), str) and ev.get("cls").endswith("DataManager")


class World:
    def __init__(self, c, cls, attrs=None, failing=True, op=opaque):
        self.c, self.k = c, cls
        self.failing = failing
        self.I = I = Interp(c.prog, c.types, opaque=op, raises=self.raises)
        I.unroll = 8
        st = I.new_state()
        self.S = st.alloc(Obj("inst", cls=cls.qual, attrs=dict(attrs or {})))
        self.st = st
        I.closed = (self.S,)

    def raises(self, I, st, ev):
        if not self.failing or is_log(ev) or ev.kind != "call":
            return None
        n = ev.get("name") or ""
        if n in ("close", "put", "spawn", "append", "add_routes", "create_task", "ensure_future", "get_event_loop", "get_running_loop", "exit", "_exit", "error", "critical"):
            return None
        return ["Exception"]

    def start(self, name, args=(), st=None):
        """the states a start-up may end in: (state, what it failed with or None)"""
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.qual} has no {name}")
        out, seen = [], set()
        for o in self.I.run_function(f, list(args), selfv=self.S, st=st or self.st.fork()):
            self.c.paths += 1
            evs = events(o.st.trace)
            last = [e for e in evs if e.kind == "callraised"]
            what = None if o.kind != "raise" else (show(last[-1].get("call").get("callee")) if last and last[-1].get("call") is not None and last[-1].get("call").get("callee") is not None else "a call")
            key = (what, tuple(sorted(o.st.obj(self.S).attrs)))
            if key in seen:
                continue
            seen.add(key)
            out.append((o.st, what))
        return out

    def clean(self, st, name="cleanup", args=()):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.qual} has no {name}")
        self.failing, before = False, self.failing
        n = len(events(st.trace))
        try:
            outs = self.I.run_function(f, list(args), selfv=self.S, st=st.fork())
        finally:
            self.failing = before
        for o in outs:
            self.c.paths += 1
            yield f, o, events(o.st.trace)[n:]


def values(st, v):
    o = st.obj(v) if v is not None else None
    if o is None:
        return [v] if v is not None else []
    if hasattr(o, "segs"):
        return [g[1] for g in o.segs]
    return [v]


def steps(I, S, st, evs, clusters=()):
    """the effects of a shutdown in their order, named after the parts they concern"""
    parts = {v: n for n, v in st.obj(S).attrs.items() if isinstance(v, V)}
    recs = {v: "reconcilers" for n in ("reconcilers",) for v in values(st, st.obj(S).attrs.get(n))}
    if "sync_task" in st.obj(S).attrs:
        recs[st.obj(S).attrs["sync_task"]] = "sync_task"
    flags = {f: name for name, r, f in clusters}
    tasks, out = {}, []
    for e in evs:
        if e.kind == "spawn":
            if e.get("coro") in flags:
                tasks[e.get("task")] = flags[e.get("coro")]
        elif e.kind == "await":
            v = e.get("value")
            if v in recs:
                out.append(("await", recs[v], v, e))
            elif v in tasks or v in flags:
                out.append(("down", tasks.get(v, flags.get(v)), v, e))
        elif e.kind == "call" and not is_log(e):
            r = e.get("recv")
            n = e.get("name")
            if r is not None and r is S:
                out.append(("self", n, e.args, e))
            elif r in parts:
                out.append((parts[r], n, e.args, e))
            elif r is not None:
                near = next((p for v, p in parts.items() if contains(r, lambda y: y is v)), None)
                out.append((near or show(r), n, e.args, e))
    return out


def index(ss, *what):
    """the positions of steps (part, name)"""
    return [i for i, x in enumerate(ss) if x[:2] == what]


def worlds(c, I, st):
    """clusters of every status and goal"""
    cl = c.prog.cls(DB, "Cluster")
    js = c.prog.cls(DB, "JobStatus")
    mem = dict(js.enum_members())
    order = sorted(mem, key=lambda n: mem[n])
    E = {n: enum(js.qual, n, mem[n]) for n in order}
    kinds = [(s, t) for s in order for t in ("RUNNING", "CLOSING", "STOPPED", "FAILED") if mem[t] >= 0 and (t == "RUNNING" or mem[s] <= mem[t] or s == "FAILED")]
    sets = [()] + [(k,) for k in kinds] + [tuple(x) for x in itertools.combinations(kinds, 2)]
    for ks in sets:
        s = st.fork()
        cs, layers = [], []
        for i, (a, t) in enumerate(ks):
            flag = s.alloc(Obj("inst", cls=UTILS + ".Flag", attrs={}))
            r = s.alloc(Obj("inst", cls=cl.qual, attrs={"name": const(f"c{i}"), "status": E[a], "target": E[t], "shutdown": flag, "workers": s.alloc(Obj("dict", layers=()))}))
            cs.append((f"c{i}", r, flag))
            layers.append(("kv", const(f"c{i}"), r))
        d = s.alloc(Obj("dict", layers=tuple(layers)))
        yield s, ks, cs, d, mem


def named(c, st, v, what):
    for x in values(st, v):
        if x is not None and x.k == "tuple":
            yield x.a


def database(c):
    """the backends that keep their clusters in a database"""
    k = c.prog.cls(DB, "DBBackendBase")
    w = World(c, k, {"parallelism": const(2)})
    q = k.qual + ".cleanup"
    starts = w.start("setup", [V("param", "app")])
    c.require(any(x is None for _, x in starts), "ORDER", k.qual + ".setup", "the start-up never succeeds", key="start")
    c.require(len(starts) >= 5, "PARTIAL", k.qual + ".setup", f"only {len(starts)} ways to end the start-up are found", key="starts")
    complete = None
    for st, failed in starts:
        attrs = st.obj(w.S).attrs
        for opt in (True, False):
            s0 = st.fork()
            o = s0.obj(w.S)
            s0.setobj(w.S, o.replace(attrs={**o.attrs, "stop_clusters_on_shutdown": const(opt)}))
            cases = worlds(c, w.I, s0) if "db" in attrs and (failed is None or opt) else [(s0, (), [], None, {})]
            for s, ks, cs, d, mem in cases:
                if failed is not None and len(ks) > 1:
                    continue
                if d is not None:
                    b = s.obj(attrs["db"])
                    if b is not None:
                        s.setobj(attrs["db"], b.replace(attrs={**b.attrs, "name_to_cluster": d}))
                    else:
                        s.store = {**s.store, (attrs["db"], "name_to_cluster"): d}
                shut(c, w, s, attrs, opt, ks, cs, mem, failed, q)
    # what start-ups that got so far leave
    full = [st for st, x in starts if x is None]
    for st in full:
        have = set(st.obj(w.S).attrs)
        for need in ("task_pool", "db", "queue", "reconcilers", "proxy", "session"):
            c.require(need in have, "ORDER", k.qual + ".setup", f"a start-up sets no {need}", key=f"part {need}")
    c.analysed(*w.I.inlined)


def shut(c, w, s, attrs, opt, ks, cs, mem, failed, q):
    what = f"{'clusters ' + ', '.join(f'{a} (goal {t})' for a, t in ks) if ks else 'no cluster'}, {'stopping' if opt else 'keeping'} clusters" + (f", after a start-up that failed in {failed}" if failed else "")
    rid = "PARTIAL" if failed else "ORDER"
    active = [i for i, (a, t) in enumerate(ks) if mem[t] < mem["STOPPED"]]
    unfinished = [i for i, (a, t) in enumerate(ks) if mem[a] < mem["STOPPED"]]
    n = 0
    for f, o, evs in w.clean(s):
        n += 1
        if not c.require(o.kind == "ret", rid, q, f"{what}: the clean-up fails with {show(o.val) if o.val is not None else o.kind}", key="fails"):
            continue
        ss = steps(w.I, w.S, o.st, evs, cs)
        order = []      # the positions each stage takes
        pools = index(ss, "task_pool", "close")
        if "task_pool" in attrs:
            c.require(len(pools) == 1, rid, q, f"{what}: the background checks are ended {len(pools)} times", key="pool")
            order.append(("the background checks end", pools))
        goals = [i for i, x in enumerate(ss) if x[1] == "update_clusters"]
        puts = {i: x for i, x in enumerate(ss) if x[0] == "queue" and x[1] == "put"}
        downs = {}
        for i, x in enumerate(ss):
            if x[0] == "down":
                downs.setdefault(x[1], []).append(i)
        if not opt or "db" not in attrs:
            c.require(not goals and not puts and not downs, "OPTION", q, f"{what}: clusters are given goals or awaited without the option", key="untouched")
        else:
            given = {}
            for i in goals:
                ev = ss[i][3]
                for row in values_at(ev):
                    if row.k != "tuple" or len(row.a) != 2:
                        continue
                    t = target(ev, row.a[1])
                    given.setdefault(row.a[0], []).append(t)
            refs = [r for _, r, _ in cs]
            for j, r in enumerate(refs):
                if j in active:
                    g = given.get(r, [])
                    c.require(len(g) == 1 and g[0] is not None and g[0].k == "enum" and g[0].a[1] == "FAILED", "STOP", q, f"{what}: the goal of an active cluster ({ks[j]}) becomes {[show(x) if x else None for x in g]}", key="goal")
                    p = [i for i, x in puts.items() if x[2] and x[2][0] is r]
                    c.require(p and max(goals or [0]) < min(p), "STOP", q, f"{what}: an active cluster ({ks[j]}) is not queued after it got its goal", key="queued")
                else:
                    c.require(r not in given, "STOP", q, f"{what}: a cluster that is already stopping ({ks[j]}) gets another goal", key="regoal")
                d = downs.get(cs[j][0], [])
                if j in unfinished:
                    c.require(d, "STOP", q, f"{what}: the shutdown of an unfinished cluster ({ks[j]}) is not awaited", key="awaited")
                    p = [i for i, x in puts.items() if x[2] and x[2][0] is r]
                    c.require(not d or not p or max(p) < min(d), "STOP", q, f"{what}: a cluster is queued only after its shutdown was awaited", key="order")
                else:
                    c.require(not d or ks[j][0] in ("STOPPED", "FAILED"), "STOP", q, f"{what}: the clean-up waits for {ks[j]}", key="waits")
            st_ = goals + list(puts) + [i for v in downs.values() for i in v]
            if st_:
                order.append(("the clusters are stopped", st_))
        closed = index(ss, "queue", "close")
        waited = [i for i, x in enumerate(ss) if x[:2] == ("await", "reconcilers")]
        if "reconcilers" in attrs:
            want = set(values(s, attrs["reconcilers"]))
            c.require(closed, rid, q, f"{what}: the queue of the reconcilers is not closed", key="queue")
            c.require({ss[i][2] for i in waited} >= want and want, rid, q, f"{what}: the end of the reconcilers is not awaited", key="reconcilers")
            order.append(("the queue is closed", closed))
            order.append(("the reconcilers end", waited))
        hook = index(ss, "self", "do_cleanup")
        c.require(len(hook) == 1, rid, q, f"{what}: the backend's own clean-up runs {len(hook)} times", key="hook")
        order.append(("the backend is cleaned up", hook))
        if "proxy" in attrs:
            p = index(ss, "proxy", "cleanup")
            c.require(len(p) == 1, rid, q, f"{what}: the proxy is cleaned up {len(p)} times", key="proxy")
            order.append(("the proxy is cleaned up", p))
        if "session" in attrs:
            p = index(ss, "session", "close")
            c.require(len(p) == 1, rid, q, f"{what}: the HTTP session is closed {len(p)} times", key="session")
            order.append(("the session is closed", p))
        for (a, x), (b, y) in zip(order, order[1:]):
            c.require(not x or not y or max(x) < min(y), rid, q, f"{what}: {b} before {a}", key=f"{a} {b}")
    c.require(n, rid, q, f"{what}: the clean-up never ends", key="none")


def obj_at(ev, v):
    return ev.heap.get(v.a[0]) if v is not None and v.k == "ref" else None


def values_at(ev):
    out = []
    for a in ev.args:
        o = obj_at(ev, a)
        if o is not None and hasattr(o, "segs"):
            out.extend(g[1] for g in o.segs if g[0] == "one")
    return out


def target(ev, v):
    o = obj_at(ev, v)
    if o is None or not hasattr(o, "layers"):
        return None
    got = [l[2] for l in o.layers if l[0] == "kv" and l[1] is const("target")]
    return got[-1] if got else None


def hooks(c):
    """the clean-up of every backend, after every way its own set-up can end"""
    base = c.prog.cls(DB, "DBBackendBase")
    n = 0
    for k in sorted([base] + list(base.subclasses()), key=lambda k: k.qual):
        w = World(c, k, op=lambda f, r: False)
        closes(c, w, k, [(w.st, "everything before it")] + w.start("do_setup"), "do_cleanup", "PARTIAL")
        n += 1
    c.require(n >= 5, "PARTIAL", base.qual, f"only {n} backends are found", key="backends")


def opened(st, S):
    """the attributes that hold something a library opened"""
    for n, v in sorted(st.obj(S).attrs.items()):
        if isinstance(v, V) and v.k in ("call", "threadval"):
            t = show(v)
            if any(x in t for x in ("Client(", "ClientSession(", "ApiClient(")):
                yield n, v


def closes(c, w, k, starts, name, rid, args=()):
    for st, failed in starts:
        what = "after a complete set-up" if failed is None else f"after a set-up that failed in {failed}"
        n = 0
        for f, o, evs in w.clean(st, name):
            n += 1
            if not c.require(o.kind == "ret", rid, f"{k.qual}.{name}", f"{what}: the clean-up of the {k.name} fails with {show(o.val) if o.val is not None else o.kind}", key=f"{k.name} fails"):
                continue
            for a, v in opened(st, w.S):
                got = [e for e in evs if e.kind == "call" and e.get("name") in ("close", "shutdown", "stop") and e.get("recv") is not None and contains(e.get("recv"), lambda y: y is v)]
                c.require(len(got) == 1, rid, f"{k.qual}.{name}", f"{what}: the {a} of the {k.name} is closed {len(got)} times", key=f"{k.name} {a}")
        c.require(n, rid, f"{k.qual}.{name}", f"{what}: the clean-up of the {k.name} never ends", key=f"{k.name} none")


def authenticators(c):
    base = c.prog.cls("dask_gateway_server.auth", "Authenticator")
    for k in sorted([base] + list(base.subclasses()), key=lambda k: k.qual):
        w = World(c, k, op=lambda f, r: False)
        closes(c, w, k, [(w.st, "everything before it")] + w.start("setup", [V("param", "app")]), "cleanup", "PARTIAL")
        c.analysed(*w.I.inlined)


def kubernetes(c):
    k = c.prog.cls("dask_gateway_server.backends.kubernetes.backend", "KubeBackend")
    w = World(c, k)
    starts = w.start("setup", [V("param", "app")])
    c.require(len(starts) >= 4 and any(x is None for _, x in starts), "PARTIAL", k.qual + ".setup", "the start-up of the Kubernetes backend is not followed", key="kube starts")
    q = k.qual + ".cleanup"
    for st, failed in starts:
        attrs = st.obj(w.S).attrs
        rid = "PARTIAL" if failed else "ORDER"
        what = "the Kubernetes backend" + (f", after a start-up that failed in {failed}" if failed else "")
        for f, o, evs in w.clean(st):
            if not c.require(o.kind == "ret", rid, q, f"{what}: the clean-up fails with {show(o.val) if o.val is not None else o.kind}", key="kube fails"):
                continue
            ss = steps(w.I, w.S, o.st, evs)
            order = []
            for a, name, text in (("informer", "stop", "the informer stops"), ("queue", "close", "the queue is closed"), ("sync_task", None, "the reconciler ends"), ("api_client", "close", "the API client is closed"), ("session", "close", "the session is closed")):
                if name is None:
                    at = [i for i, x in enumerate(ss) if x[:2] == ("await", a)]
                else:
                    at = [i for i, x in enumerate(ss) if x[0] == a and x[1] == name]
                need = a in attrs and (a != "queue" or "sync_task" in attrs)
                if need:
                    c.require(len(at) == 1, rid, q, f"{what}: {text} {len(at)} times", key=f"kube {a}")
                order.append((text, at))
            for (a, x), (b, y) in zip(order, order[1:]):
                c.require(not x or not y or max(x) < min(y), rid, q, f"{what}: {b} before {a}", key=f"kube {a} {b}")
    c.analysed(*w.I.inlined)


def loops(c):
    """closing the queue ends the loops that wait for it"""
    for mod, cls, name in ((DB, "DBBackendBase", "reconciler_loop"), ("dask_gateway_server.backends.kubernetes.backend", "KubeBackend", "sync_clusters_loop")):
        k = c.prog.cls(mod, cls)
        f = k.find_method(name)
        if f is None:
            raise Broken(f"{k.qual} has no {name}")
        I = Interp(c.prog, c.types, opaque=opaque, raises=lambda I, st, ev: [("dask_gateway_server.workqueue.WorkQueueClosed", True)] if ev.get("name") == "get" else None,
                   results=lambda I, st, n, func, a, kw: V("never") if n == "get" else None)
        I.unroll = 2
        st = I.new_state()
        Q = st.alloc(Obj("inst", cls="dask_gateway_server.workqueue.WorkQueue", attrs={}))
        outs = I.run_function(f, [], selfv=st.alloc(Obj("inst", cls=k.qual, attrs={"queue": Q})), st=st)
        c.require(outs and all(o.kind == "ret" for o in outs), "ORDER", f.qual, f"closing the queue does not end it: {sorted({o.kind for o in outs})}", key="loop")
        c.paths += len(outs)
        c.analysed(*I.inlined)


def pool(c):
    """ending a pool cancels all of its tasks and waits for them; the proxy's process ends after what would restart it"""
    k = c.prog.cls(UTILS, "TaskPool")
    I = Interp(c.prog, c.types)
    for n in (0, 1, 3):
        st = I.new_state()
        T = [V("param", f"task {i}") for i in range(n)]
        S = st.alloc(Obj("inst", cls=k.qual, attrs={"tasks": st.alloc(Obj("list", lk="set", segs=tuple(("one", t) for t in T))), "closed": const(False)}))
        for o in I.run_function(k.find_method("close"), [], selfv=S, st=st):
            c.paths += 1
            evs = events(o.st.trace)
            c.require(o.kind == "ret", "POOL", k.qual + ".close", "ending a pool fails", key="fails")
            for t in T:
                stop = [i for i, e in enumerate(evs) if e.kind == "call" and e.get("name") == "cancel" and e.get("recv") is t]
                wait = [i for i, e in enumerate(evs) if e.kind == "await" and e.get("value") is t]
                c.require(stop and wait and min(stop) < max(wait), "POOL", k.qual + ".close", "a task of the pool is not cancelled and then awaited", key="task")
    for f in k.methods.values():
        if f.name == "spawn":
            st = I.new_state()
            C = V("param", "coroutine")
            tasks = st.alloc(Obj("list", lk="set", segs=()))
            S = st.alloc(Obj("inst", cls=k.qual, attrs={"tasks": tasks, "closed": const(False)}))
            for o in I.run_function(f, [C], selfv=S, st=st):
                t = [e.get("task") for e in events(o.st.trace) if e.kind == "spawn"]
                have = values(o.st, tasks)
                c.require(o.kind == "ret" and len(t) == 1 and t[0] in have, "POOL", f.qual, "a task that is spawned is not kept in the pool", key="kept")
    c.analysed(*I.inlined)
    k = c.prog.cls("dask_gateway_server.proxy.core", "Proxy")
    for managed in (True, False):
        w = World(c, k, {"externally_managed": const(managed)}, op=lambda f, r: f.cls is not None and f.cls.name == "TaskPool" or f.name in ("add_route", "get_start_command", "get_start_env"))
        for st, failed in w.start("setup", [V("param", "app")]):
            attrs = st.obj(w.S).attrs
            what = ("externally managed" if managed else "own process") + (f", after a start-up that failed in {failed}" if failed else "")
            c.require(managed == ("proxy_process" not in attrs) or (failed and not managed), "POOL", k.qual + ".setup", f"{what}: the proxy's process is {'' if 'proxy_process' in attrs else 'not '}started", key="process")
            for f, o, evs in w.clean(st):
                if not c.require(o.kind == "ret", "PARTIAL", k.qual + ".cleanup", f"{what}: the clean-up of the proxy fails", key="proxy fails"):
                    continue
                ss = steps(w.I, w.S, o.st, evs)
                a, b = index(ss, "task_pool", "close"), index(ss, "proxy_process", "terminate") + index(ss, "proxy_process", "kill")
                if "task_pool" in attrs:
                    c.require(len(a) == 1, "POOL", k.qual + ".cleanup", f"{what}: the proxy's own tasks are not ended", key="proxy pool")
                if "proxy_process" in attrs:
                    c.require(len(b) == 1, "POOL", k.qual + ".cleanup", f"{what}: the proxy's process is ended {len(b)} times", key="proxy process")
                    c.require(not a or not b or max(a) < min(b), "POOL", k.qual + ".cleanup", f"{what}: the proxy's process is ended while it may still be restarted", key="proxy order")
        c.analysed(*w.I.inlined)


def streams(c):
    """a watch that is open when the server shuts down is ended by the shutdown"""
    k = c.prog.cls("dask_gateway_server.proxy.core", "Proxy")
    h, su = k.find_method("routes_handler"), k.find_method("setup")
    if h is None or su is None:
        raise Broken("Proxy has no routes_handler or setup")
    q = f"{h.module.rel()}:{h.line} (Proxy.routes_handler)"
    from .wire import REQ
    seen = []
    me = V("param", "the task of the watch")

    def results(I, st, name, func, args, kw):
        if name == "current_task":
            return me
        if name == "get" and func is None and I.callee.k == "attr" and I.callee.a[0].k in ("call", "new", "param") and "Queue" in show(I.callee.a[0]) or name == "get" and func is None and "Queue" in show(I.callee):
            seen.append(st.fork())
            return V("never")
    app = V("param", "app")
    I = Interp(c.prog, c.types, opaque=lambda f, r: f.cls is not None and f.cls.name in ("TaskPool", "Flag") or f.name in ("add_route", "start_proxy_process", "monitor_proxy_process"), results=results,
               raises=lambda I, st, ev: [("asyncio.CancelledError", True)] if ev.get("result") == V("never") else None)
    I.unroll = 4
    st = I.new_state()
    S = st.alloc(Obj("inst", cls=k.qual, attrs={"externally_managed": const(True), "api_token": const("tok"), "log": V("param", "log"), "gateway_url": const("http://g")}))
    starts = [o for o in I.run_function(su, [app], selfv=S, st=st) if o.kind == "ret"]
    if not starts:
        raise Broken("the proxy's setup is not followed")
    o = starts[0]
    hooks = [e.args[0] for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.get("name") == "append" and e.args and "on_shutdown" in show(e.get("callee"))]
    st = o.st.fork()
    d = lambda x: st.alloc(Obj("dict", layers=tuple(("kv", const(a), const(b)) for a, b in x.items())))
    st.facts = st.facts.assume(V("cmp", "is", me, NONE), False)
    st.store = {**st.store, (REQ, "headers"): d({"Authorization": "token tok"}), (REQ, "query"): d({"watch": "1", "last_id": "0"})}
    I.run_function(h, [REQ], selfv=S, st=st)
    c.analysed(h, su, *I.inlined)
    c.require(bool(seen), "STREAM", q, "a watch does not wait for changes", key="waits")
    for st in seen:
        done = [st]
        for b in hooks:
            nxt = []
            for s in done:
                nxt += [r.st for r in I.run_value(b, [app], s.fork(), {}, awaited=True) if r.kind == "ret"]
            done = nxt
        c.require(bool(done), "STREAM", q, "what the proxy does at shutdown fails", key="fails")
        for s in done:
            es = list(walk_events(events(s.trace)))
            cut = [i for i, e in enumerate(es) if e.kind == "call" and e.get("name") == "cancel" and contains(e.get("callee"), lambda t: t is me)]
            c.require(bool(cut), "STREAM", q, "a watch that is open at shutdown is not ended", key="ended")
    c.floor("STREAM", 2)


def application(c):
    k = c.prog.cls(APP, "DaskGateway")
    A, B = V("param", "authenticator"), V("param", "backend")

    def results(I, st, name, func, args, kw):
        if name in ("exit", "_exit") and func is None:
            return V("never")

    class AppWorld(World):
        def raises(self, I, st, ev):
            if ev.kind == "call" and ev.get("name") in ("exit", "_exit"):
                return [("SystemExit", True, {"code": ev.args[0] if ev.args else NONE})]
            if ev.kind == "call" and ev.get("name") == "sleep" and ev.args and ev.args[0] is not const(0):
                return [("asyncio.CancelledError", True)]
            if self.only is not None and ev.kind == "call" and ev.get("recv") is self.only and ev.get("name") in ("cleanup",):
                return ["Exception"]
            return super().raises(I, st, ev) if ev.get("name") != "cleanup" else None
    w = AppWorld(c, k, {"authenticator": A, "backend": B, "app": V("param", "app"), "address": const("127.0.0.1:8000")}, op=lambda f, r: f.name in ("handle_shutdown_signal",))
    w.I.results = results
    w.only = None
    for v in (A, B):
        w.st.facts = w.st.facts.assume(V("cmp", "is", v, NONE), False)
    starts = w.start("setup")
    c.require(len(starts) >= 4, "APP", k.qual + ".setup", "the start-up of the application is not followed", key="starts")
    q = k.qual + ".cleanup"
    for st, failed in starts:
        attrs = st.obj(w.S).attrs
        what = f"after a start-up that failed in {failed}" if failed else "after a complete start-up"
        for f, o, evs in w.clean(st):
            c.require(o.kind == "ret", "APP", q, f"{what}: the clean-up fails", key="fails")
            at = {}
            for i, e in enumerate(evs):
                if e.kind == "call" and e.get("name") == "cleanup":
                    at.setdefault(e.get("recv"), []).append(i)
            order = [("the HTTP server", at.get(attrs.get("runner"), [])), ("the backend", at.get(B, [])), ("the authenticator", at.get(A, []))]
            for name, x in order:
                c.require(len(x) == 1 or (name == "the HTTP server" and "runner" not in attrs), "APP", q, f"{what}: {name} is cleaned up {len(x)} times", key=name)
            for (a, x), (b, y) in zip(order, order[1:]):
                c.require(not x or not y or max(x) < min(y), "APP", q, f"{what}: {b} is cleaned up before {a}", key=f"{a} {b}")
    # main: the clean-up runs in any case, and a start-up that failed ends in a non-zero status
    f = k.find_method("main")
    if f is None:
        raise Broken("the application has no main")
    seen = set()
    for failing in (True, False):
        for only in (None, B):
            w.failing, w.only = failing, only
            w.I.unroll = 3
            for o in w.I.run_function(f, [], selfv=w.S, st=w.st.fork()):
                c.paths += 1
                evs = events(o.st.trace)
                up = [e for e in evs if e.kind == "call" and e.get("name") == "sleep" and e.args and e.args[0] is not const(0)]
                broke = not up
                # a start-up is over when the application sleeps, or when it failed
                x = show(o.val) if o.val is not None else ""
                b = [e for e in evs if e.kind == "call" and e.get("recv") is B and e.get("name") == "cleanup"]
                c.require(len(b) == 1, "APP", f.qual, f"the backend is cleaned up {len(b)} times when the {'start-up fails' if broke else 'application ends'}", key="main cleanup")
                seen.add(broke)
                if broke:
                    code = status(o, evs)
                    c.require(code not in (None, 0), "APP", f.qual, f"a start-up that fails ends the application with {o.kind} {x}, status {code}", key="status")
    g = k.find_method("start")
    fails = Interp(c.prog, c.types, opaque=lambda f, r: f.name in ("run_main", "main"), results=lambda I, st, n, func, a, kw: V("never") if n == "run_main" else None,
                   raises=lambda I, st, ev: [("SystemExit", True, {"code": const(1)})] if ev.get("name") == "run_main" else None)
    st = fails.new_state()
    outs = fails.run_function(g, [], selfv=st.alloc(Obj("inst", cls=k.qual, attrs={"subapp": NONE})), st=st)
    c.require(outs and all(status(o, ()) == 1 for o in outs), "APP", g.qual, "the exit status of a start-up that failed is lost", key="lost")
    c.require(seen == {True, False}, "APP", f.qual, "main is not followed", key="main")
    c.analysed(*w.I.inlined)


def status(o, evs):
    """the exit status of a path that ends the application"""
    if o.kind != "raise":
        return 0
    v = o.val
    if v.k == "exc":
        if v.a[0] == "SystemExit":
            code = o.st.store.get((v, "code"), NONE)
        else:
            return 0 if any(x in v.a[0] for x in ("KeyboardInterrupt", "GracefulExit")) else 1
    else:
        text = show(v)
        if "SystemExit(" not in text:
            return 0 if any(x in text for x in ("KeyboardInterrupt", "GracefulExit")) else 1
        code = v.a[1][0] if len(v.a) > 1 and isinstance(v.a[1], tuple) and v.a[1] else NONE
    return None if code is NONE else code.a[0] if code.k == "const" else show(code)


def run(c):
    c.rule("ORDER", "the background checks end first, then the clusters are stopped, then the reconcilers end, then the backend, the proxy and the session are cleaned up, each exactly once")
    c.rule("STOP", "with the option every active cluster gets failure for a goal and is queued, and every unfinished one's shutdown is awaited; no other gets a goal")
    c.rule("OPTION", "without it no cluster is touched")
    c.rule("PARTIAL", "after a start-up that failed the same is done for whatever had been started")
    c.rule("POOL", "ending a pool cancels its tasks and waits for them; the proxy's process ends after what would restart it")
    c.rule("STREAM", "a watch of the routes that is open is ended when the server shuts down")
    c.rule("APP", "the HTTP server stops before the backend and the authenticator are cleaned up; a start-up that fails is cleaned up too and ends in a non-zero status")
    database(c)
    hooks(c)
    authenticators(c)
    kubernetes(c)
    loops(c)
    pool(c)
    streams(c)
    application(c)
    for r, n in (("POOL", 8), ("APP", 20), ("ORDER", 500), ("STOP", 300), ("OPTION", 100), ("PARTIAL", 300)):
        c.floor(r, n)
