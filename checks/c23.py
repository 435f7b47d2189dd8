"""C23: a cluster is routed under its own name and addresses from running until it is recorded as finished."""
import ast

from sa.query import where
from sa.state import events, walk_events
from sa.values import V, const, show
from .dblife import DB, NAMES, RANK, SELF, Life, nm, qcall
from .recon import FINISHED, PUTS, flat, raised_by, run_from

FIELDS = ("api_address", "scheduler_address", "dashboard_address")


def own(v, X, name):
    return isinstance(v, V) and v.k == "attr" and v.a[0] is X and v.a[1] == name


def routes(evs, what):
    return [e for e in evs if e.kind == "call" and qcall(e, "Proxy") == what]


def arg(e, name, pos):
    kw = e.get("kwargs") or {}
    if name in kw:
        return kw[name]
    a = list(e.args or ())
    return a[pos] if len(a) > pos else None


def key_of(e):
    """(kind, key) of a route call"""
    k = arg(e, "kind", 0)
    k = k.a[0] if k is not None and k.k == "const" else None
    return k, arg(e, "sni", 1) if k == "SNI" else arg(e, "path", 2)


def named(kind, v, X):
    """the route key of the cluster"""
    if kind == "SNI":
        return own(v, X, "name")
    return kind == "PATH" and v is not None and v.k == "str" and len(v.a) == 2 and v.a[0] == const("/clusters/") and own(v.a[1], X, "name")


def truthy(F, X, name):
    return any(own(t, X, name) and b for t, b in F.tr.items()) or any(own(t, X, name) and const("") in d for t, d in F.ne.items())


def falsy(F, X, name):
    return any(own(t, X, name) and b is False for t, b in F.tr.items()) or any(own(t, X, name) and d <= {const(""), const(None)} for t, d in F.dom.items())


def reconcile(c, L):
    npub = nrem = 0
    for s in NAMES:
        for t in NAMES:
            for failing in (None, "add_route", "remove_route"):
                if failing and (s, t) not in (("RUNNING", "RUNNING"), ("CLOSING", "STOPPED"), ("CLOSING", "FAILED"), ("RUNNING", "STOPPED")):
                    continue
                a, b = one(c, L, s, t, failing)
                npub += a
                nrem += b
    c.require(npub > 0, "PUBLISH", "Proxy.add_route", "no path of the reconciler publishes the routes of a cluster", key="never")
    c.require(nrem > 0, "REMOVE", "Proxy.remove_route", "no path of the reconciler removes the routes of a cluster", key="never")


def one(c, L, s, t, failing):
    def raises(I, st, ev):
        return ["Exception"] if failing and qcall(ev, "Proxy") == failing else None
    npub = nrem = 0
    I, X, outs = run_from(c, L, "reconcile_cluster", "Cluster", (s, t), raises=raises)
    c.analysed(*I.inlined)
    for o in outs:
        evs = flat(o)
        adds, dels = routes(evs, "add_route"), routes(evs, "remove_route")
        npub += len(adds)
        nrem += len(dels)
        failed = any(raised_by(e) == failing for e in evs)
        w = where((adds + dels)[0]) if adds + dels else "db_base.reconcile_cluster"
        for e in adds:
            publish(c, e, X, s, t)
        for e in dels:
            k, v = key_of(e)
            c.require(named(k, v, X), "REMOVE", where(e), f"the route removed ({k} {show(v)[:40] if v is not None else None}) is not one of the cluster", key=f"key {k}")
        flags = [e for e in evs if e.kind == "store" and e.obj is X and e.attr == "added_to_proxies"]
        for e in flags:
            before = [x for x in adds if evs.index(x) < evs.index(e)]
            complete(c, e.value != const(True) or published(before, X, e.facts), where(e), "a cluster is noted as routed without its routes having been published", "noted")
        runs = s == "RUNNING" or any(e.kind == "store" and e.obj is X and e.attr == "status" and nm(e.value) == "RUNNING" for e in evs)
        again = any(qcall(e) in PUTS and X in e.args for e in evs if e.kind == "call")
        if o.kind == "ret" and runs and t == "RUNNING" and not dels and not again:
            F = o.st.facts
            ok = published(adds, X, F) or any(own(z, X, "added_to_proxies") and b for z, b in F.tr.items())
            complete(c, ok, w, "a running cluster is left without its routes", "left")
    return npub, nrem


def complete(c, ok, w, msg, key):
    c.require(ok, "PUBLISH", w, msg, key=key)


def published(adds, X, F):
    kinds = {key_of(e)[0] for e in adds}
    return "SNI" in kinds and ("PATH" in kinds or falsy(F, X, "dashboard_address"))


def publish(c, e, X, s, t):
    k, v = key_of(e)
    target = arg(e, "target", 3)
    c.require(named(k, v, X), "KEY", where(e), f"the route ({k} {show(v)[:40] if v is not None else None}) is not under the cluster's own name", key=f"key {k}")
    want = {"SNI": "scheduler_address", "PATH": "dashboard_address"}.get(k)
    c.require(want is not None and own(target, X, want), "TARGET", where(e), f"the {k} route of a cluster leads to {show(target)[:50] if target is not None else None}", key=f"target {k}")
    if want == "dashboard_address":
        c.require(truthy(e.facts, X, want), "TARGET", where(e), "a dashboard route is published for a cluster without a dashboard", key="no dashboard")
    # running implies that the addresses were reported (rule REPORTED)
    st = e.store.get((X, "status"))
    running = nm(st) == "RUNNING" if st is not None else s == "RUNNING"
    c.require(running or truthy(e.facts, X, "scheduler_address"), "REPORTED", where(e), "a route is published before the scheduler has reported its addresses", key="early")
    c.require(RANK[s] < RANK["STOPPED"] and t == "RUNNING", "REMOVE", where(e), f"a route is published for a cluster with status {s} and goal {t}", key="late")


def stopping(L):
    """a goal of stopping stays one (C11)"""
    def rely(I, st, b, n, d):
        if n != "target" or not d or not {nm(y) for y in d} <= {"CLOSING", *FINISHED}:
            return None
        return frozenset(m for m in I.enum_tab[L.status_cls.qual] if nm(m) in ("CLOSING", *FINISHED) and RANK[nm(m)] >= min(RANK[nm(y)] for y in d))
    return rely


def histories(c, L):
    """all the entry points: who records a cluster as running or finished, who changes its addresses"""
    n = {"finish": 0, "run": 0, "addr": 0}
    for m in L.roots:
        def on_event(st, ev):
            if ev.kind != "store" or ev.get("attr") not in ("status",) + FIELDS + ("added_to_proxies",):
                return
            if L.kind(I, ev.obj, st) != "Cluster" or ev.func is not None and ev.func.name == "__init__":
                return
            if ev.attr == "status":
                names = L.dom(ev.value, ev.facts)
                if names & set(FINISHED):
                    n["finish"] += 1
                    finish(c, m, st, ev)
                if "RUNNING" in names:
                    n["run"] += 1
                    c.require(truthy(ev.facts, ev.obj, "scheduler_address"), "REPORTED", where(ev), f"a cluster is recorded as running before its scheduler has reported its addresses (reached from {m.name})", key="running")
            elif ev.attr in FIELDS:
                n["addr"] += 1
                v = ev.value
                ok = v.k == "item" and v.a[1] == const(ev.attr) and v.a[0] in L.params(m)
                c.require(ok, "ADDR", where(ev), f"the {ev.attr} of a cluster is set to {show(v)[:60]}", key=f"value {ev.attr}")
                s = L.dom(cur(st, ev), ev.facts)
                c.require("RUNNING" not in s, "ADDR", where(ev), f"the {ev.attr} of a running cluster changes, but not its route", key=f"running {ev.attr}")
        I = L.interp(on_event, use_rely=False)
        I.rely = stopping(L)
        outs = I.run_function(m, L.params(m), selfv=SELF)
        c.paths += len(outs)
        c.analysed(m)
    c.require(n["finish"] > 0, "REMOVE", "db_base", "no place records a cluster as finished", key="finish")
    c.require(n["run"] > 0, "REPORTED", "db_base", "no place records a cluster as running", key="run")
    c.require(n["addr"] > 0, "ADDR", "db_base", "no place records the addresses of a scheduler", key="addr")


def cur(st, ev):
    v = ev.store.get((ev.obj, "status"))
    return v if v is not None else V("attr", ev.obj, "status", st.epoch)


def finish(c, m, st, ev):
    X = ev.obj
    evs = list(walk_events(events(st.trace)))
    gone = {key_of(e)[0] for e in routes(evs, "remove_route") if named(*key_of(e), X) and e.kind == "call"}
    if falsy(ev.facts, X, "dashboard_address"):
        gone.add("PATH")  # it never had one (rule ADDR)
    never = any(k.k == "attr" and k.a[0] is X and k.a[1] == "status" and {nm(y) for y in d} <= {"CREATED", "SUBMITTED"} for k, d in ev.facts.dom.items())
    never = never or any(own(t, X, "added_to_proxies") and b is False for t, b in ev.facts.tr.items())
    c.require({"SNI", "PATH"} <= gone or never, "REMOVE", where(ev), f"a cluster is recorded as finished while its {' and '.join(sorted({'SNI', 'PATH'} - gone))} route may be published (reached from {m.name})", key=f"finish {m.name}")


def initial(c, L):
    """a cluster that is created or restored has no routes yet"""
    k = c.prog.cls(DB, "Cluster")
    f = k.find_method("__init__")
    I = L.interp(use_rely=False)
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        c.analysed(f)
        c.require(o.st.store.get((SELF, "added_to_proxies")) == const(False), "PUBLISH", f"{f.module.rel()}:{f.line} (Cluster.__init__)", "a cluster that is restored counts as routed, although the routes are gone", key="init")


def callers(c, L):
    """nobody else publishes or removes routes"""
    for f in c.prog.funcs.values():
        if "dask_gateway_server" not in f.module.name or f.cls is not None and f.cls.name == "Proxy":
            continue
        mine = f.cls is not None and (f.cls is L.base or L.base in f.cls.mro())
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("add_route", "remove_route") and "proxy" in ast.unparse(x.func.value):
                c.require(mine and f.qual in c.functions, "REMOVE", f"{f.module.rel()}:{x.lineno} ({f.name})", f"{x.func.attr} is called outside the reconciler", key=f"caller {f.name}")
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "added_to_proxies" and not (f.cls is not None and f.cls.name == "Cluster"):
                c.require(f.qual in c.functions, "PUBLISH", f"{f.module.rel()}:{x.lineno} ({f.name})", "a cluster is noted as routed outside the reconciler", key=f"flag {f.name}")


def run(c):
    c.rule("KEY", "a route of a cluster is published under the cluster's own name")
    c.rule("TARGET", "the scheduler route leads to the scheduler address, the dashboard route to the dashboard address, if there is one")
    c.rule("REPORTED", "a cluster becomes running, and is routed, only once its scheduler has reported its addresses")
    c.rule("ADDR", "the addresses come from the scheduler's own report and do not change while the cluster is routed")
    c.rule("PUBLISH", "each handling of a running cluster leaves it routed, and it is noted as routed only then")
    c.rule("REMOVE", "both routes are removed before the cluster is recorded as finished, and none is published afterwards")
    L = Life(c)
    reconcile(c, L)
    histories(c, L)
    initial(c, L)
    callers(c, L)
    c.assumptions += ["The work queue hands a cluster to one reconciler at a time (C24).", "The proxy keeps one route per kind and key (C20)."]
