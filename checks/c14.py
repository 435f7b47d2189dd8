"""C14: a restarted gateway loads every row with all its attributes and resumes what was not finished."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import subterms, where
from sa.state import events, walk_events
from sa.values import NONE, V, show
from .c13 import columns, lookup_maps, st_attrs, statements, chain
from .dblife import ALL, DB, RANK, SELF, Life, nm, qcall

UNFINISHED = [p for p in ALL if RANK[p[0]] < RANK["STOPPED"]]
HOLDS = {"token": ("token",), "tls_credentials": ("tls_cert", "tls_key")}


# ------------------------------------------------------------------ loading
def load_rules(c):
    dm = c.prog.cls(DB, "DataManager")
    f = dm.methods["__init__"]
    cols = columns(c.prog)
    maps = lookup_maps(c, dm)
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("timestamp", "decode_tls_credentials", "decode_token") or g.cls is not None and g.cls.name == "Flag")
    I.term_types[SELF] = dm.qual
    outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
    c.analysed(f)
    good = [o for o in outs if o.kind == "ret"]
    if not good:
        raise Broken("the data manager cannot be constructed")
    for o in good:
        c.paths += 1
        evs = events(o.st.trace)
        sel = {}
        for e, kind, tab, cond, vals, params in statements(list(walk_events(evs))):
            if kind == "select" and tab:
                plain = set(chain(e.args[0])) <= {"select", "order_by"}
                sel[e.result] = (tab, plain, e)
        seen = set()
        for e in walk_events(evs):
            if e.kind != "loop":
                continue
            src = loop_source(e.seg)
            hit = next((sel[x] for x in subterms(src) if x in sel), None) if src is not None else None
            if hit is None:
                continue
            tab, plain, ex = hit
            seen.add(tab)
            c.require(plain, "ROWS", where(ex), f"only some of the rows of {tab} are loaded", key=f"{tab} select")
            for b in e.bodies:
                if b.elem is None or b.kind == "raise":
                    continue
                judge_row(c, tab, cols[tab], e, b, maps, o)
        for tab in cols:
            c.require(tab in seen, "ROWS", f.module.rel(), f"the rows of {tab} are not loaded", key=tab)
    c.floor("ROWS", 4)
    c.floor("ATTRS", 25)
    c.floor("RESUME", 3)


def loop_source(seg):
    return seg[1] if len(seg) > 1 and isinstance(seg[1], V) else None


def judge_row(c, tab, cols, loop, b, maps, o):
    w = where(loop)
    row = b.elem
    want = "Cluster" if tab == "clusters" else "Worker"
    evs = list(walk_events(b.events))
    new = [e for e in evs if e.kind == "new" and str(e.get("cls")).endswith("." + want)]
    c.require(len(new) == 1 and b.kind in ("next", "cont"), "ROWS", w, f"a row of {tab} is skipped or ends the loading", key=f"{tab} body")
    if len(new) != 1:
        return
    ob = new[0].result
    at = {}
    for e in evs:
        if e.kind == "store" and e.obj is ob:
            at[e.attr] = e.value
    for cn in cols:
        x = V("attr", row, cn, 0)
        if cn == "cluster_id":
            v = at.get("cluster")
            ok = v is not None and has_attr(v, row, "cluster_id")
        elif cn in HOLDS:
            ok = all(a in at and has_attr(at[a], row, cn) and "decode" in show(at[a]) for a in HOLDS[cn])
            if ok and cn == "tls_credentials":
                ok = at["tls_cert"] is not at["tls_key"] and ends(at["tls_cert"], 0) and ends(at["tls_key"], 1)
        else:
            v = at.get(cn)
            ok = v is not None and (is_attr(v, row, cn) or v.k == "ref" and any(is_attr(y, row, cn) for y in st_attrs(o.st, v)))
        c.require(ok, "ATTRS", where(new[0]), f"{want}.{cn} is not restored from its column", key=f"{tab} {cn}")
    sets = [(e.obj, e.key, e) for e in evs if e.kind == "setitem" and e.value is ob]
    if tab == "clusters":
        for m in maps:
            r = o.st.store.get((SELF, m))
            key = "id" if m.startswith("id") else "name"
            hit = any(r in set(subterms(d)) and is_attr(k, row, key) and (d is r or has_attr(d, row, "username")) for d, k, _ in sets)
            c.require(hit, "ROWS", w, f"a loaded cluster is not filed under {m}", key=f"{tab} {m}")
        # a cluster that may be running
        st = at.get("status")
        fin = b.events[-1].facts if b.events else None
        d = fin.dom.get(st) if fin is not None and st is not None else None
        running = d is None or any(nm(x) == "RUNNING" for x in d)
        if running:
            hb = at.get("last_heartbeat")
            fresh = hb is not None and any(x.k == "call" and ("timestamp" in show(x.a[0]) or "time" in show(x.a[0])) for x in subterms(hb))
            c.require(fresh and not any(x is row for x in subterms(hb)), "RESUME", where(new[0]),
                      "a cluster restored as running has no fresh heartbeat time", key="heartbeat")
            c.require(falsy(at.get("added_to_proxies")), "RESUME", where(new[0]), "a cluster restored as running counts as routed already", key="routes")
            r = at.get("ready")
            woken = any(e.kind == "call" and e.get("name") == "set" and e.get("callee") is not None and any(x is r for x in subterms(e.callee)) for e in evs)
            c.require(woken, "RESUME", where(new[0]), "a cluster restored as running makes clients wait for it to start", key="ready")
    else:
        cl = at.get("cluster")
        hit = any(k is at.get("name") and d.k == "attr" and d.a[1] == "workers" and d.a[0] is cl for d, k, _ in sets)
        c.require(hit, "ROWS", w, "a loaded worker is not filed under its cluster", key="workers filed")


def is_attr(v, row, name):
    return v.k == "attr" and v.a[0] is row and v.a[1] == name


def has_attr(v, row, name):
    return any(is_attr(x, row, name) for x in subterms(v))


def ends(v, i):
    return v.k == "item" and getattr(v.a[1], "a", (None,))[0] == i


def falsy(v):
    return v is not None and v.k == "const" and not v.a[0]


# ------------------------------------------------------------------ resuming
def entries(seg):
    """(value, facts) pairs of a loop's source, or None when it runs over an unknown collection"""
    if seg[0] == "rep":
        return list(seg[1])
    if seg[0] == "one":
        return [(seg[1], None)]
    return None


def allows(facts, x, pair, strict):
    """facts about x's status and target allow the pair; with strict, no other fact may select x"""
    if facts is None:
        return True
    for k, d in facts.dom.items():
        if k.k == "attr" and k.a[0] is x and k.a[1] in ("status", "target"):
            if pair[0 if k.a[1] == "status" else 1] not in {nm(y) for y in d}:
                return False
        elif strict and x in set(subterms(k)):
            return False
    for k, d in facts.ne.items():
        if k.k == "attr" and k.a[0] is x and k.a[1] in ("status", "target"):
            if pair[0 if k.a[1] == "status" else 1] in {nm(y) for y in d}:
                return False
        elif strict and x in set(subterms(k)):
            return False
    if strict:
        for k in list(facts.tr) + [t for a in facts.rel for t in (a if isinstance(a, tuple) else (a,))]:
            if isinstance(k, V) and k.k != "const" and x in set(subterms(k)) and not enum_fact(k, x):
                return False
    return True


def enum_fact(k, x):
    return any(y.k == "attr" and y.a[0] is x and y.a[1] in ("status", "target") for y in subterms(k))


class Resume:
    def __init__(self, c, I, L):
        self.c, self.I, self.L = c, I, L

    def setup(self, evs, maps):
        """pairs of clusters and workers that are surely queued by one path of setup"""
        self.maps = maps
        self.got = {"Cluster": set(), "Worker": set()}
        self.scan(evs, [])
        return self.got

    def scan(self, evs, outer):
        for e in evs:
            if e.kind != "loop":
                continue
            self.loop(e, outer)

    def loop(self, e, outer):
        byel = {}
        for b in e.bodies:
            if b.elem is not None:
                byel.setdefault(b.elem, []).append(b)
        ent = entries(e.seg)
        src = loop_source(e.seg) if ent is None else None
        for el, bodies in byel.items():
            facts = [f for v, f in ent if v is el] if ent is not None else [None]
            kind = self.source_kind(el, src, outer)
            if kind:
                for p in UNFINISHED:
                    if not any(allows(f, el, p, True) for f in facts):
                        continue
                    ok = [b for b in bodies if b.kind != "raise" and allows(last(b), el, p, False)]
                    if ok and all(b.kind in ("next", "cont") and self.puts(b.events, el) for b in ok):
                        self.got[kind].add(p)
            # nested collections: every body an unfinished cluster may take
            for b in bodies:
                self.scan(b.events, outer + [(el, b, bodies, facts)])

    def source_kind(self, el, src, outer):
        k = self.kinds.get(el)
        if k == "Cluster":
            return k
        if k == "Worker":
            # of a cluster whose own loop has no other selection
            owner = None
            for x in subterms(src if src is not None else el):
                if any(x is o[0] for o in outer):
                    owner = x
            if owner is None:
                return None
            _, b, bodies, facts = next(o for o in outer if o[0] is owner)
            for p in UNFINISHED:
                if not any(allows(f, owner, p, True) for f in facts):
                    continue
                for b2 in bodies:
                    if b2.kind != "raise" and allows(last(b2), owner, p, False) and not any(
                            x.kind == "loop" and any(bb.elem is el for bb in x.bodies) for x in b2.events):
                        return None
            return k
        return None

    def puts(self, evs, el):
        return any(qcall(x) in ("put", "put_backoff", "put_after") and x.kind == "call" and x.args and x.args[0] is el for x in evs)


def last(b):
    return b.events[-1].facts if b.events else getattr(b, "facts", None)


def setup_rules(c, L):
    f = L.base.find_method("setup")
    c.analysed(f)
    kinds = {}

    def on_event(st, ev):
        if ev.kind == "loop":
            for b in ev.bodies:
                if b.elem is not None:
                    k = L.kind(I, b.elem, st)
                    if k:
                        kinds[b.elem] = k
    I = L.interp(on_event, opaque=lambda g, r: g.cls is not None and g.cls.name == "DataManager" and g.name == "__init__", use_rely=False)
    outs = I.run_function(f, L.params(f), selfv=SELF)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        n += 1
        c.paths += 1
        evs = events(o.st.trace)
        R = Resume(c, I, L)
        R.kinds = kinds
        got = R.setup(evs, None)
        for k in ("Cluster", "Worker"):
            for p in UNFINISHED:
                c.require(p in got[k], "QUEUE", f"{f.module.rel()}:{f.line} (setup)",
                          f"a restored {k.lower()} with status {p[0]} and goal {p[1]} is not queued", key=f"{k} {p[0]} {p[1]}")
        # order: the backend is ready before anything can act on it
        ready = False
        for e in walk_events(evs):
            if e.kind == "suspend" and started:
                ready = True
            if e.kind == "call":
                started = (e.get("name") == "do_setup")
                if e.get("name") == "do_setup":
                    c.require(True, "READY", where(e), "")
                if qcall(e) in ("put", "put_backoff", "put_after"):
                    c.require(ready, "READY", where(e), "objects are queued before the backend is set up", key="put")
            if e.kind in ("spawn",) or e.kind == "call" and e.get("name") == "ensure_future":
                fn = coroutine(e, L)
                if fn is not None and acts(L, fn):
                    c.require(ready, "READY", where(e), f"{fn.name} is started before the backend is set up", key=fn.name)
        c.require(ready, "READY", f"{f.module.rel()}:{f.line} (setup)", "the backend is never set up", key="do_setup")
    if not n:
        raise Broken("setup never succeeds")
    c.floor("QUEUE", 40)
    c.floor("READY", 4)


def coroutine(e, L):
    for a in list(e.get("args") or ()) + [e.get("coro"), e.get("value")]:
        if isinstance(a, V) and a.k == "ref":
            o = e.heap.get(a.a[0]) if hasattr(e.heap, "get") else e.heap[a.a[0]]
            fn = getattr(o, "func", None)
            if fn is not None:
                return fn
    return None


def acts(L, fn):
    """the task can queue objects or call the backend, other than in answer to the queue"""
    seen, todo = set(), [fn]
    hit = False
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr == "get" and ast.unparse(x.func.value).endswith("queue"):
                    return False
                if x.func.attr in ("put", "put_backoff", "put_after") or x.func.attr.startswith("do_"):
                    hit = True
                m = L.base.methods.get(x.func.attr)
                if m is not None:
                    todo.append(m)
    return hit


# ------------------------------------------------------------------ reconciliation of what was restored
def reconcile_rules(c, L):
    tab = {}
    I0 = Interp(c.prog, c.types)
    for m in I0.enum_tab[L.status_cls.qual]:
        tab[nm(m)] = m
    cl, wk = V("param", "cluster"), V("param", "worker")

    def run(fname, X, pre, extra=(), raises=False):
        f = L.base.methods.get(fname)
        if f is None:
            raise Broken(f"no method {fname}")
        c.analysed(f)
        ps = [V("param", x) for x in f.params()[1:]]
        I = L.interp(None, use_rely=False, do_raises=raises)
        I.term_types[ps[0]] = DB + "." + ("Worker" if X is wk else "Cluster")
        st = I.new_state()
        store = dict(st.store)
        for (a, v) in list(zip(("status", "target"), (tab[x] for x in pre))) + list(extra):
            store[(ps[0], a)] = v
        st.store = type(st.store)(store) if not isinstance(st.store, dict) else store
        return I, ps[0], I.run_function(f, ps, st=st, selfv=SELF)

    # a cluster not yet submitted is started
    _, X, outs = run("reconcile_cluster", cl, ("CREATED", "RUNNING"))
    for o in outs:
        c.paths += 1
        if o.kind == "ret":
            ok = any(calls(e, "do_start_cluster", X) for e in walk_events(events(o.st.trace)))
            c.require(ok, "START", "reconcile_cluster", "a created cluster is not started when it is reconciled", key="cluster")
    # a running cluster is routed again
    _, X, outs = run("reconcile_cluster", cl, ("RUNNING", "RUNNING"), [("added_to_proxies", V("const", False))])
    for o in outs:
        c.paths += 1
        if o.kind == "ret":
            sni = any(calls(e, "add_route") and "SNI" in [getattr(v, "a", (0,))[0] for v in (e.get("kwargs") or {}).values()] + [a.a[0] for a in e.args if a.k == "const"]
                      for e in walk_events(events(o.st.trace)))
            c.require(sni, "START", "reconcile_cluster", "the routes of a restored running cluster are not published", key="routes")
    # one that had reported its address becomes running, with a heartbeat deadline
    _, X, outs = run("reconcile_cluster", cl, ("SUBMITTED", "RUNNING"), [("last_heartbeat", NONE)])
    n = 0
    for o in outs:
        c.paths += 1
        es = list(walk_events(events(o.st.trace)))
        for i, e in enumerate(es):
            if e.kind == "store" and e.attr == "status" and nm(e.value) == "RUNNING":
                n += 1
                # the value when the task next gives way
                v = NONE
                for e2 in es:
                    if e2.kind == "suspend" and es.index(e2) > i:
                        break
                    if e2.kind == "store" and e2.obj is X and e2.attr == "last_heartbeat":
                        v = e2.value
                c.require(v is not None and v is not NONE and v.k != "const", "START", where(e),
                          "a cluster restored as submitted becomes running without a heartbeat deadline", key="deadline")
    if not n:
        raise Broken("no cluster becomes running when it is reconciled")
    _, X, outs = run("reconcile_worker", wk, ("CREATED", "RUNNING"))
    for o in outs:
        c.paths += 1
        if o.kind == "ret":
            ev = list(walk_events(events(o.st.trace)))
            ok = any(calls(e, "do_start_worker") for e in ev) or not may_run(o, X)
            c.require(ok, "START", "reconcile_worker", "a created worker is not started when it is reconciled", key="worker")
    c.floor("START", 4)


def may_run(o, X):
    """the path is possible while the worker's cluster runs"""
    for k, d in o.st.facts.dom.items():
        if k.k == "attr" and k.a[1] == "status" and k.a[0] is not X and any(x is X for x in subterms(k)):
            if "RUNNING" not in {nm(y) for y in d}:
                return False
        if k.k == "attr" and k.a[1] == "target" and k.a[0] is not X and any(x is X for x in subterms(k)):
            if "RUNNING" not in {nm(y) for y in d}:
                return False
    return True


def calls(e, name, X=None):
    return e.kind in ("call", "callraised") and (e.get("name") == name or (qcall(e, "Proxy") == name)) and (X is None or any(a is X for a in e.args))


def run(c):
    c.rule("ROWS", "every row of every table is loaded and filed in every lookup table")
    c.rule("ATTRS", "every column of a row is restored into the attribute of the same name")
    c.rule("RESUME", "a cluster restored as running gets a fresh heartbeat time and is routed again")
    c.rule("QUEUE", "every restored cluster and worker that has not finished is queued")
    c.rule("READY", "nothing is queued or started before the backend's own setup has completed")
    c.rule("START", "reconciling a restored object starts, routes or watches it as its recorded state requires")
    load_rules(c)
    L = Life(c)
    setup_rules(c, L)
    reconcile_rules(c, L)
    c.assumptions += ["The rows that SQLAlchemy returns are those last committed.", "Every queued object is reconciled (C12, C24)."]
