"""Lifecycle analysis of the database-backed backends, shared by several properties.

Every entry point (request, heartbeat, background loop, reconciler) is run abstractly. At each
write of a status or target the domain of (status, target) possible at that instant is known from
the path's facts; across suspension points the facts are widened by the transitions that other
tasks can make (rely), which is iterated to a fixpoint."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import subterms, where
from sa.state import events
from sa.values import V, is_const

DB = "dask_gateway_server.backends.db_base"
SELF = V("param", "self")
OPAQUE = ("WorkQueue", "Proxy", "Flag", "TaskPool", "Backoff", "LRUCache")
VOLATILE = ("status", "target", "close_expected", "state", "scheduler_address", "dashboard_address", "api_address",
            "last_heartbeat", "count", "worker_start_failure_count", "added_to_proxies", "stop_time")
NAMES = ("CREATED", "SUBMITTED", "RUNNING", "CLOSING", "STOPPED", "FAILED")
RANK = {n: i for i, n in enumerate(("CREATED", "SUBMITTED", "RUNNING", "CLOSING", "STOPPED"))}
RANK["FAILED"] = RANK["STOPPED"]
ALL = [(s, t) for s in NAMES for t in NAMES]


def nm(v):
    """JobStatus constant -> its name"""
    if v is not None and v.k == "enum":
        return v.a[1]
    return None


class Life:
    def __init__(self, c):
        self.c = c
        self.prog, self.types = c.prog, c.types
        self.base = c.prog.cls(DB, "DBBackendBase")
        self.status_cls = c.prog.cls(DB, "JobStatus")
        members = {n for n in NAMES}
        have = self.enum_names()
        if have != members:
            raise Broken(f"JobStatus has members {sorted(have)}")
        self.reach = {"Cluster": set(), "Worker": set()}
        self.T = {"Cluster": {}, "Worker": {}}       # (entry, own) -> {(pre, post): site}
        self.created = {"Cluster": {}, "Worker": {}}
        self.roots = self.find_roots()
        self.sites = set()
        self.runs = 0

    def enum_names(self):
        I = Interp(self.prog, self.types)
        return {nm(m) for m in I.enum_tab[self.status_cls.qual]}

    # ---------------------------------------------------------------- roots
    def find_roots(self):
        meths = dict(self.base.methods)
        called = set()
        for name, m in meths.items():
            spawned = {id(a.func) for x in ast.walk(m.node) if isinstance(x, ast.Call) for a in list(x.args) + [k.value for k in x.keywords]
                       if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in meths
                       and isinstance(meths[a.func.attr].node, ast.AsyncFunctionDef)}
            for x in ast.walk(m.node):
                if id(x) in spawned:
                    continue
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in meths and x.attr != name:
                    called.add(x.attr)
        roots = [m for n, m in meths.items() if n not in called and not n.startswith("__")]
        out = [m for m in roots if self.touches(m, meths, set())]
        # writers outside the class
        for q, f in self.prog.funcs.items():
            if f.cls is self.base or (f.cls is not None and f.cls.qual.startswith(DB + ".")):
                continue
            if not f.module.name.startswith("dask_gateway_server.backends") or ".kubernetes" in f.module.name:
                continue
            if self.writes(f):
                out.append(f)
        return out

    def writes(self, m):
        for x in ast.walk(m.node):
            if isinstance(x, ast.Attribute) and x.attr in ("update_cluster", "update_clusters", "update_worker", "update_workers", "create_cluster", "create_worker"):
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr in ("status", "target"):
                return True
        return False

    def touches(self, m, meths, seen):
        if m.name in seen:
            return False
        seen.add(m.name)
        if self.writes(m):
            return True
        return any(self.touches(meths[x.attr], meths, seen) for x in ast.walk(m.node)
                   if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in meths)

    # ----------------------------------------------------------------- run
    def kind(self, I, v, st):
        for k in I.classes_of(v, st):
            if k.module.name == DB and k.name in ("Cluster", "Worker"):
                return k.name
        return None

    def dom(self, v, facts):
        if v is None:
            return frozenset(NAMES)
        if nm(v):
            return frozenset([nm(v)])
        d = facts.dom.get(v)
        if d is None:
            return frozenset(NAMES)
        names = frozenset(n for n in (nm(x) for x in d) if n)
        return names if names or not d else frozenset(NAMES)

    def current(self, b, attr, st_store, facts, epoch):
        v = st_store.get((b, attr))
        if v is None:
            v = V("attr", b, attr, epoch)
        d = self.dom(v, facts)
        ne = facts.ne.get(v) if hasattr(facts, "ne") else None
        if ne:
            d = frozenset(x for x in d if x not in {nm(y) for y in ne})
        return d

    def pairs(self, kind, b, store, facts, epoch):
        S, T = self.current(b, "status", store, facts, epoch), self.current(b, "target", store, facts, epoch)
        return {p for p in self.reach[kind] if p[0] in S and p[1] in T}

    def env(self, kind, own):
        out = set()
        for (e, o), ts in self.T[kind].items():
            if own and o:
                continue
            out |= set(ts)
        return out

    def closure(self, kind, pairs, own):
        tr = self.env(kind, own)
        out, todo = set(pairs), list(pairs)
        while todo:
            p = todo.pop()
            for a, b in tr:
                if a == p and b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def interp(self, on_event=None, opaque=(), raises=None, volatile=VOLATILE, do_raises=True, use_rely=True):
        life = self

        def opq(fn, r):
            return fn.cls is not None and fn.cls.name in OPAQUE or (opaque(fn, r) if callable(opaque) else fn.name in opaque)

        def vol(I, b, n, st):
            return n in volatile

        def rely(I, st, b, n, d):
            if n not in ("status", "target"):
                return None
            k = life.kind(I, b, st)
            if k is None:
                return None
            ps = life.pairs(k, b, st.store, st.facts, st.epoch - 1)
            ps = life.closure(k, ps, life.owned(b))
            i = 0 if n == "status" else 1
            vals = {p[i] for p in ps}
            return frozenset(m for m in I.enum_tab[life.status_cls.qual] if nm(m) in vals)

        def rs(I, st, ev):
            if raises is not None:
                r = raises(I, st, ev)
                if r:
                    return r
            if do_raises and (ev.get("name") or "").startswith("do_") and (ev.get("name") or "") not in ("do_setup", "do_cleanup"):
                return ["Exception"]
            return None
        I = Interp(self.prog, self.types, opaque=opq, volatile=vol, rely=rely if use_rely else None, raises=rs, on_event=on_event,
                   hints={("Worker", "cluster", 0): DB + ".Cluster"})
        I.term_types[SELF] = self.base.qual
        I.term_types[V("param", "cluster")] = DB + ".Cluster"
        I.term_types[V("param", "worker")] = DB + ".Worker"
        return I

    def params(self, m):
        return [V("param", x) for x in m.params()[1:]]

    def owned(self, X):
        """taken from the work queue, which hands an object to one worker at a time (C24)"""
        for x in subterms(X):
            if x.k in ("call", "item") and self.from_queue(x):
                return x is X
        return False

    def from_queue(self, x):
        f = x.a[0]
        if f.k == "func":
            q = f.a[0] if isinstance(f.a[0], str) else getattr(f.a[0], "qual", "")
        elif f.k == "bound":
            q = str(f.a[1])
        else:
            return False
        return q.endswith("WorkQueue.get")

    def run_entry(self, m, sink):
        """sink(kind, X, own, pre pairs, post pairs, first event, last event) for each atomic transition"""
        entry = m.name
        life = self

        def on_event(st, ev):
            ev.a["epoch"] = st.epoch
            if ev.kind == "store" and ev.attr in ("status", "target"):
                ev.a["xkind"] = life.kind(I, ev.obj, st)
            if ev.kind == "loop":
                for b in ev.bodies:
                    process(b.events)

        def process(evs):
            pend = {}

            def flush():
                for X, (k, pre, post, e0, e1) in pend.items():
                    sink(k, X, life.owned(X), pre, post, e0, e1, m)
                pend.clear()
            for e in evs:
                if e.kind == "suspend":
                    flush()
                elif e.kind == "store" and e.attr in ("status", "target") and e.get("xkind") and e.obj.k != "ref":
                    X, k = e.obj, e.xkind
                    if X not in pend:
                        # the snapshot of the event may already include this store
                        st = dict(e.store)
                        if e.prev is not None:
                            st[(X, e.attr)] = e.prev
                        else:
                            st.pop((X, e.attr), None)
                        pre = life.pairs(k, X, st, e.facts, e.epoch)
                        pend[X] = (k, pre, {(p, p) for p in pre}, e, e)
                    k, pre, post, e0, _ = pend[X]
                    new = set()
                    for p, q in post:
                        for v in life.values(e.value, X, q, e.facts):
                            new.add((p, (v, q[1]) if e.attr == "status" else (q[0], v)))
                    pend[X] = (k, pre, new, e0, e)
                elif e.kind == "new" and e.get("kwargs") and {"status", "target"} <= set(e.kwargs):
                    s, t = nm(e.kwargs["status"]), nm(e.kwargs["target"])
                    if s and t:
                        q = e.get("cls") or ""
                        k = "Worker" if "Worker" in str(q) else "Cluster" if "Cluster" in str(q) else None
                        if k:
                            life.created[k].setdefault((s, t), e)
            flush()
        I = self.interp(on_event)
        outs = I.run_function(m, self.params(m), selfv=SELF)
        for o in outs:
            process(events(o.st.trace))
        self.runs += 1
        return I, outs

    # ------------------------------------------------------------- helpers
    def tasks(self):
        """methods with an endless loop: the background tasks"""
        out = {}
        for n, m in self.base.methods.items():
            if isinstance(m.node, ast.AsyncFunctionDef) and any(
                    isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value for x in ast.walk(m.node)):
                out[n] = m
        return out

    def values(self, v, X, pair, facts):
        """possible names of the stored value, given the object's pair before"""
        if nm(v):
            return [nm(v)]
        if v.k == "attr" and v.a[0] is X and v.a[1] in ("status", "target"):
            return [pair[0] if v.a[1] == "status" else pair[1]]
        return self.dom(v, facts)

    def fixpoint(self):
        dm = self.prog.cls(DB, "DataManager")
        for k, name in (("Cluster", "create_cluster"), ("Worker", "create_worker")):
            f = dm.find_method(name)
            I = Interp(self.prog, self.types, opaque=lambda g, r: g.name in ("new_keypair", "encode_tls_credentials", "encode_token", "timestamp"))
            I.term_types[SELF] = dm.qual
            for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
                for e in events(o.st.trace):
                    if e.kind == "new" and {"status", "target"} <= set(e.get("kwargs") or ()):
                        s, t = nm(e.kwargs["status"]), nm(e.kwargs["target"])
                        if not s or not t:
                            raise Broken(f"{name}: initial status unknown")
                        self.created[k].setdefault((s, t), e)
            if not self.created[k]:
                raise Broken(f"{name} creates nothing")
            self.reach[k] |= set(self.created[k])
        self.final = {}
        for rnd in range(12):
            changed = False
            self.final = {}

            def sink(k, X, own, pre, trans, e0, e1, m):
                nonlocal changed
                key = (m.name, own)
                tab = self.T[k].setdefault(key, {})
                for p, q in trans:
                    self.final.setdefault((k, key, p, q), (X, e0, e1, m))
                    if p != q and (p, q) not in tab:
                        tab[(p, q)] = e1
                        changed = True
                    if q not in self.reach[k]:
                        self.reach[k].add(q)
                        changed = True
            for m in self.roots:
                self.run_entry(m, sink)
            if not changed:
                return rnd + 1
        raise Broken("lifecycle analysis does not converge")

    def status_map(self):
        """the pairs of Cluster._status_map"""
        k = self.prog.cls(DB, "Cluster")
        f = k.find_method("model_status")
        out = set()
        for p in ALL:
            I = Interp(self.prog, self.types)
            I.term_types[SELF] = k.qual
            st = I.new_state()
            tab = {nm(m): m for m in I.enum_tab[self.status_cls.qual]}
            st.store = {**st.store, (SELF, "status"): tab[p[0]], (SELF, "target"): tab[p[1]]}
            outs = I.run_function(f, [], st=st, selfv=SELF)
            vals = [o.val for o in outs if o.kind == "ret"]
            if vals and all(v.k == "enum" for v in vals):
                out.add((p, vals[0].a[1]))
        return dict(out)


def qcall(e, cls="WorkQueue"):
    """name of the method of the given class that this call event calls, or None"""
    if e.kind not in ("call", "callraised"):
        return None
    f = e.get("callee")
    if f is None or f.k not in ("bound", "bm"):
        return None
    q = str(f.a[1])
    return q.rsplit(".", 1)[1] if f".{cls}." in q else None


def weaker(a, b):
    """every fact of a is also in b"""
    if a is None:
        return True
    if b is None:
        return not (a.dom or a.ne or a.tr or a.rel)
    for k, d in a.dom.items():
        if k not in b.dom or not b.dom[k] <= d:
            return False
    for k, v in a.tr.items():
        if b.tr.get(k) != v:
            d = b.dom.get(k)
            if d is None:
                return False
    for k, n in a.ne.items():
        if not n <= (b.ne.get(k) or frozenset()):
            d = b.dom.get(k)
            if d is None or d & n:
                return False
    for k, r in a.rel.items():
        if k not in b.rel or not b.rel[k] <= r:
            return False
    return True


def elem_entries(seg):
    """(value, facts) pairs a loop runs over"""
    if seg[0] == "rep":
        return list(seg[1])
    return []
