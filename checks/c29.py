"""C29: the Kubernetes API server's view of clusters mirrors the cluster objects.

Sequences of synchronisations are followed, each for one of three clusters of
two users in any of the states its object can be in; after each, the listings
and lookups the backend offers are compared with what was last synchronised.
"""
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, where
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show
from .c25 import lookup

MOD = "dask_gateway_server.backends.kubernetes.backend"
SELF = V("self", "KubeBackend")
KEYS = ("ns.a", "ns.b", "other.a")
OWNER = {"ns.a": "u", "ns.b": "u", "other.a": "v"}
STATES = (None, "new", "Pending", "Running", "Stopped", "Failed")
ACTIVE = ("new", "Pending", "Running")
APIEXC = "kubernetes_asyncio.client.rest.ApiException"


class World:
    def __init__(self, c):
        self.c = c
        self.k = c.prog.cls(MOD, "KubeBackend")
        self.fails = False
        I = self.I = Interp(c.prog, c.types, opaque=self.opq, raises=self.raised, results=self.result)
        I.term_types[SELF] = self.k.qual
        st = self.st = I.new_state()
        self.flags = {}
        flag = c.prog.cls("dask_gateway_server.utils", "Flag")
        for k in KEYS:
            f = self.flags[k] = V("param", f"waiter of {k}")
            I.term_types[f] = flag.qual
            st.facts = st.facts.assume(V("cmp", "is", f, NONE), False)
        self.objs = {(k, s): self.obj(k, s) for k in KEYS for s in STATES if s}
        mk = lambda **kw: st.alloc(Obj("dict", **kw))
        waiters = mk(layers=tuple(("kv", const(k), self.flags[k]) for k in KEYS), default=Obj("inst", cls=flag.qual, attrs=(), args=()))
        st.store = {**st.store, (SELF, "clusters"): mk(layers=()), (SELF, "username_to_clusters"): mk(layers=(), default=Obj("dict", layers=())), (SELF, "cluster_waiters"): waiters}

    def dict(self, **kv):
        return self.st.alloc(Obj("dict", layers=tuple(("kv", const(k), v if isinstance(v, V) else const(v)) for k, v in kv.items())))

    def obj(self, key, s):
        ns, name = key.split(".")
        meta = self.dict(namespace=ns, name=name, creationTimestamp=V("param", f"creation time of {key}"))
        spec = self.dict(username=OWNER[key], options=self.dict(what=f"options of {key}"), config=self.dict(what=f"config of {key}"))
        kw = {}
        if s != "new":
            kw = {"phase": s}
            if s in ("Pending", "Running"):
                kw["credentials"] = f"secret-{name}"
            if s != "Pending":
                kw["service"] = f"service-{name}"
            if s in ("Stopped", "Failed"):
                kw["completionTime"] = V("param", f"end of {key}")
            return self.dict(metadata=meta, spec=spec, status=self.dict(**kw))
        return self.dict(metadata=meta, spec=spec)

    def opq(self, f, recv):
        return f.cls is not None and f.cls.name in ("Flag", "Informer", "WorkQueue") or f.name == "parse_k8s_timestamp"

    def result(self, I, st, name, func, args, kw):
        if name == "get" and func is not None and func.cls is not None and func.cls.name == "Informer":
            return st.ghost["obj"]
        if name == "b64decode":
            return const(show(args[0]).encode())
        if name == "get" and func is None and "informer" in show(I.callee):
            return st.ghost["obj"]
        return None

    def raised(self, I, st, ev):
        if ev.get("name") == "read_namespaced_secret" and self.fails:
            return [APIEXC, "RuntimeError"]

    def call(self, st, name, *args, **kw):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"KubeBackend has no {name}")
        outs = self.I.run_function(f, list(args), selfv=SELF, st=st, kwargs=kw)
        self.c.paths += len(outs)
        self.c.analysed(f)
        self.where = f"{f.module.rel()}:{f.line} (KubeBackend.{name})"
        return outs

    def sync(self, st, key, state):
        st = st.fork()
        st.ghost = {**st.ghost, "obj": self.objs[(key, state)] if state else NONE}
        return self.call(st, "sync_cluster", const(key))


def attr(o, ref, name):
    x = o.st.obj(ref)
    if x is None or x.kind != "inst":
        return None
    v = o.st.store.get((ref, name))
    return v if v is not None else dict(x.attrs).get(name)


def cv(v):
    return v.a[0] if v is not None and v.k == "const" else None


def listing(w, st, *args, **kw):
    """names of the clusters listed"""
    got = set()
    for o in w.call(st, "list_clusters", *args, **kw):
        if o.kind != "ret":
            got.add("an error")
            continue
        x = o.st.obj(o.val)
        if x is None or x.kind != "list" or any(g[0] != "one" for g in x.segs):
            got.add("something unknown")
            continue
        got.add(tuple(sorted(str(cv(attr(o, g[1], "name"))) for g in x.segs)))
    return got


def consistent(c, w, st, known, text):
    for user in ("u", "v", "nobody", None):
        mine = [k for k in known if user is None or OWNER[k] == user]
        args = [] if user is None else [const(user)]
        want = tuple(sorted(k for k in mine if known[k] in ACTIVE))
        got = listing(w, st, *args)
        whose = "all users" if user is None else f"user {user}"
        c.require(got == {want}, "LIST", w.where, f"the active clusters listed for {whose} are {got}, they are {want} ({text})", key=f"active {'all' if user is None else 'user'}")
        st2 = st.fork()
        sts = st2.alloc(Obj("list", lk="list", segs=tuple(("one", s) for s in w.statuses)))
        want = tuple(sorted(mine))
        got = listing(w, st2, *args, **{"statuses": sts})
        c.require(got == {want}, "LIST", w.where, f"the clusters listed for {whose} in any state are {got}, they are {want} ({text})", key=f"any {'all' if user is None else 'user'}")
    for k in KEYS:
        for o in w.call(st, "get_cluster", const(k)):
            ok = o.kind == "ret" and (o.val == NONE if k not in known else cv(attr(o, o.val, "name")) == k)
            c.require(ok, "LIST", w.where, f"{k} is not found as it is ({text})", key="get")


def view(c, w, o, key, state, text):
    for r in w.call(o.st, "get_cluster", const(key)):
        if r.kind != "ret" or r.val == NONE:
            continue
        x = r.val
        st = attr(r, x, "status")
        want = {"new": "PENDING", "Pending": "PENDING", "Running": "RUNNING", "Stopped": "STOPPED", "Failed": "FAILED"}[state]
        c.require(st == w.status(want), "VIEW", w.where, f"the status of a cluster is {show(st) if st else None} instead of {want} ({text})", key="status")
        c.require(cv(attr(r, x, "username")) == OWNER[key], "VIEW", w.where, f"a cluster belongs to {show(attr(r, x, 'username'))} ({text})", key="username")
        for a in ("options", "config"):
            v = attr(r, x, a)
            got = lookup(r.st.heap, v, "what")
            c.require(got == const(f"{a} of {key}"), "VIEW", w.where, f"the {a} of a cluster are {show(got) if got else None} ({text})", key=a)
        ns, name = key.split(".")
        for a, p in (("scheduler_address", "tls://service-{}.{}:8786"), ("dashboard_address", "http://service-{}.{}:8787"), ("api_address", "http://service-{}.{}:8788")):
            v = cv(attr(r, x, a))
            c.require(v == (p.format(name, ns) if state == "Running" else ""), "VIEW", w.where, f"the {a} of a cluster is {v!r} ({text})", key=a)
        end = attr(r, x, "stop_time")
        c.require((end is not None and contains(end, lambda t: t == V("param", f"end of {key}"))) if state in ("Stopped", "Failed") else end == NONE, "VIEW", w.where, f"the end of a cluster is {show(end) if end else None} ({text})", key="stop_time")
        start = attr(r, x, "start_time")
        c.require(start is not None and contains(start, lambda t: t == V("param", f"creation time of {key}")), "VIEW", w.where, f"the start of a cluster is {show(start) if start else None} ({text})", key="start_time")
        tok, crt, pem = (attr(r, x, n) for n in ("token", "tls_cert", "tls_key"))
        if state in ("Pending", "Running"):
            ok = all(cv(v) and all(x in str(cv(v)) for x in (n, f"secret-{name}")) for v, n in ((tok, "api-token"), (crt, "dask.crt"), (pem, "dask.pem")))
            c.require(ok, "VIEW", w.where, f"the credentials of a cluster are not those of its secret ({text})", key="credentials")


def chain(c, w, st, known, steps, depth, states, done=()):
    if depth == 0:
        return
    for key, state in itertools.product(KEYS, states):
        if state is None and key not in known and depth < steps:
            continue
        text = ", ".join(f"{k} is {s or 'deleted'}" for k, s in done + ((key, state),))
        outs = w.sync(st, key, state)
        here = w.where
        c.require(bool(outs), "LIST", here, f"a synchronisation is not followed ({text})", key="none")
        for o in outs:
            if not c.require(o.kind == "ret", "LIST", here, f"a synchronisation fails ({text})", key="fails"):
                continue
            both(c, w, o, text)
            if state is None or state in ("Running", "Stopped", "Failed"):
                woken = [e for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.get("name") == "set" and e.get("recv") == w.flags[key]]
                done_before = any(k == key and (s is None) for k, s in done)
                c.require(bool(woken) or done_before, "WAKE", here, f"requests waiting for a cluster that is {state or 'deleted'} are not woken ({text})", key=f"wake {state}")
            now = {k: v for k, v in known.items() if k != key}
            if state:
                now[key] = state
                view(c, w, o, key, state, text)
            consistent(c, w, o.st, now, text)
            st2 = o.st.fork()
            st2.trace = st.trace
            chain(c, w, st2, now, steps, depth - 1, states, done + ((key, state),))


def both(c, w, o, text):
    """nothing else runs between the updates of the two indexes"""
    idx = []
    roots = [o.st.store.get((SELF, n)) for n in ("clusters", "username_to_clusters")]
    seq = [e for e in walk_events(events(o.st.trace)) if e.kind in ("setitem", "suspend", "delitem") or e.kind == "call" and e.get("name") in ("pop", "setdefault")]
    started = False
    for e in seq:
        if e.kind == "suspend":
            if started:
                idx.append(e)
            continue
        if e.get("obj") in roots:
            started = True
    c.require(not idx, "TOGETHER", where(idx[0]) if idx else w.where, f"something is waited for between the updates of the two indexes ({text})", key="together")


def failing(c):
    """a failing lookup of the credentials leaves the indexes as they agree, and is tried again"""
    for before, state in itertools.product((None, "new"), ("Pending", "Running")):
        w = world(c)
        st = w.st
        known = {}
        if before:
            st = [o for o in w.sync(st, "ns.a", before) if o.kind == "ret"][0].st
            known = {"ns.a": before}
        w.fails = True
        outs = w.sync(st, "ns.a", state)
        n = 0
        for o in outs:
            if o.kind != "raise":
                continue
            n += 1
            w.fails = False
            consistent(c, w, o.st, known, f"reading the secret fails")
            for o2 in w.sync(o.st, "ns.a", state):
                if c.require(o2.kind == "ret", "RETRY", w.where, "a second synchronisation fails", key="second"):
                    consistent(c, w, o2.st, {"ns.a": state}, "after reading the secret failed once")
            w.fails = True


def loop(c):
    """every event is queued under the cluster's key, and a failing synchronisation is tried again"""
    k = c.prog.cls(MOD, "KubeBackend")
    w = world(c)
    for kw in ({"old": NONE}, {"old": V("param", "old")}, {}):
        for o in w.call(w.st, "on_cluster_event", w.objs[("ns.a", "Running")], **kw):
            put = [e for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.get("name") == "put" and e.target is not None and e.target.cls.name == "WorkQueue"]
            c.require(o.kind == "ret" and [list(e.args) for e in put] == [[const("ns.a")]], "QUEUE", w.where, "an event about a cluster is not queued under its key", key="put")
    names = [const(n) for n in KEYS]
    for fails in itertools.product((False, True), repeat=3):
        log = []

        def result(I, st, name, func, args, kw):
            if func is not None and func.cls is not None and func.cls.name == "WorkQueue" and name == "get":
                n = st.ghost.get("n", 0)
                st.ghost = {**st.ghost, "n": n + 1, "closed": n >= 3}
                return names[n] if n < 3 else V("never")
            if name == "sync_cluster":
                st.ghost = {**st.ghost, "fail": fails[st.ghost["n"] - 1]}
                return V("never") if st.ghost["fail"] else None

        def raised(I, st, ev):
            if ev.get("result") == V("never"):
                return [("dask_gateway_server.workqueue.WorkQueueClosed", True)] if ev.name == "get" else [("RuntimeError", True)]

        I = Interp(c.prog, c.types, opaque=lambda f, r: f.name == "sync_cluster" or f.cls is not None and f.cls.name == "WorkQueue", raises=raised, results=result)
        I.term_types[SELF] = k.qual
        I.unroll = 6
        f = k.find_method("sync_clusters_loop")
        if f is None:
            raise Broken("KubeBackend has no sync_clusters_loop")
        ws = f"{f.module.rel()}:{f.line} (KubeBackend.sync_clusters_loop)"
        outs = I.run_function(f, [], selfv=SELF, st=I.new_state())
        c.paths += len(outs)
        c.analysed(f)
        c.require(bool(outs), "RETRY", ws, "the loop is not followed", key="loop")
        for o in outs:
            n = o.st.ghost.get("n", 0)
            c.require(o.kind == "ret" and n > 3, "RETRY", ws, f"a failing synchronisation ends the loop ({fails})", key="ends")
            calls = [(e.name, tuple(e.args)) for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.target is not None and e.target.cls is not None and (e.target.cls.name == "WorkQueue" or e.name == "sync_cluster")]
            for i, (name, bad) in enumerate(zip(names, fails)):
                if n <= i:
                    continue
                c.require(("sync_cluster", (name,)) in calls, "RETRY", ws, "a queued cluster is not synchronised", key="sync")
                c.require(calls.count(("task_done", (name,))) == 1, "RETRY", ws, f"a cluster is not released after its synchronisation ({'failed' if bad else 'succeeded'})", key="done")
                again = any(x in calls for x in (("put_backoff", (name,)), ("put", (name,)))) or any(a[0] == "put_after" and a[1][0] == name for a in calls)
                c.require(again == bad, "RETRY", ws, "a failed synchronisation is not tried again" if bad else "a synchronisation that succeeded is repeated", key=f"again {bad}")


def waits(c):
    """a request that waits looks the cluster up after waiting, whether it was woken or gave up"""
    k = c.prog.cls(MOD, "KubeBackend")
    f = k.find_method("get_cluster")
    I = Interp(c.prog, c.types, volatile=lambda I, b, n, st: b is SELF and n == "clusters", raises=lambda I, st, ev: None)
    I.term_types[SELF] = k.qual
    st = I.new_state()
    flag = c.prog.cls("dask_gateway_server.utils", "Flag")
    fl = V("param", "waiter")
    I.term_types[fl] = flag.qual
    st.store = {**st.store, (SELF, "cluster_waiters"): st.alloc(Obj("dict", layers=(("kv", const("ns.a"), fl),)))}
    ws = f"{f.module.rel()}:{f.line} (KubeBackend.get_cluster)"
    n = 0
    outs = I.run_function(f, [const("ns.a")], selfv=SELF, st=st, kwargs={"wait": const(True)})
    c.paths += len(outs)
    c.analysed(f)
    for o in outs:
        if not c.require(o.kind == "ret", "WAIT", ws, "a waiting request fails", key="fails"):
            continue
        susp = [e for e in walk_events(events(o.st.trace)) if e.kind == "suspend"]
        c.require(bool(susp), "WAIT", ws, "a request that is to wait does not", key="waits")
        n += 1
        last = sum(e.kind == "suspend" for e in walk_events(events(o.st.trace)))
        late = contains(o.val, lambda t: t.k == "attr" and t.a[:2] == (SELF, "clusters") and t.a[2] >= last)
        c.require(late, "WAIT", ws, "the cluster is looked up before the wait", key="late")
    c.require(n > 0, "WAIT", ws, "a waiting request is not followed", key="none")
    I = Interp(c.prog, c.types)
    I.term_types[fl] = flag.qual
    I.shield = lambda v: V("shielded", v)
    g = flag.find_method("__await__")
    c.require(g is not None, "WAIT", ws, "a flag cannot be waited for", key="await")
    for o in I.run_function(g, [], selfv=fl, st=I.new_state()) if g is not None else ():
        ok = o.kind == "ret" and contains(o.val, lambda t: t.k == "shielded")
        c.require(ok, "WAIT", f"{g.module.rel()}:{g.line} (Flag.__await__)", "a waiter that gives up takes the flag's future with it", key="shield")
        c.analysed(g)
    g = flag.find_method("set")
    I = Interp(c.prog, c.types)
    I.term_types[fl] = flag.qual
    outs = I.run_function(g, [], selfv=fl, st=I.new_state())
    gets = [any(e.kind == "call" and e.get("name") == "set_result" for e in walk_events(events(o.st.trace))) for o in outs]
    c.require(any(gets), "WAIT", f"{g.module.rel()}:{g.line} (Flag.set)", "setting a flag wakes nobody", key="set")
    c.analysed(g)


def world(c):
    w = World(c)
    k = c.prog.cls("dask_gateway_server.models", "ClusterStatus")
    w.status = lambda n: V("enum", k.qual, n, k.enum_members()[n])
    w.statuses = [w.status(n) for n in ("PENDING", "RUNNING", "STOPPED", "FAILED")]
    return w


def run(c):
    c.rule("LIST", "after any synchronisations, listings and lookups show exactly the clusters that exist, each to its user")
    c.rule("VIEW", "each is shown with its object's user, options, configuration, state, times, addresses (only while running) and credentials")
    c.rule("TOGETHER", "the two indexes are updated without anything else running in between")
    c.rule("WAKE", "requests waiting for a cluster are woken once it is running, has ended or is deleted")
    c.rule("WAIT", "a waiting request looks up the cluster after the wait, and one that gives up does not disturb others")
    c.rule("QUEUE", "every event about a cluster queues it for synchronisation")
    c.rule("RETRY", "a failing synchronisation is tried again, without ending the loop or leaving the indexes in disagreement")
    c.analysed()
    w = world(c)
    if c.tier == "thorough":
        chain(c, w, w.st, {}, 3, 3, STATES)
    else:
        chain(c, w, w.st, {}, 2, 2, STATES)
        w = world(c)
        chain(c, w, w.st, {}, 3, 3, (None, "Pending", "Running", "Failed"))
    failing(c)
    loop(c)
    waits(c)
    c.floor("LIST", 1000)
