"""C16: a start is bounded in time; a failed one is recorded, queued and cleaned up from the latest reported state."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import dict_keys, subterms, where
from sa.state import events, walk_events
from sa.values import V, show
from .c12 import Pending
from .dblife import DB, RANK, SELF, Life, nm, qcall
from .recon import PUTS, calls, flat, raised_by, run_from

KINDS = (("reconcile_cluster", "Cluster", "do_start_cluster", "cluster_start_timeout"),
         ("reconcile_worker", "Worker", "do_start_worker", "worker_start_timeout"))


def is_setting(v, name):
    return isinstance(v, V) and v.k == "attr" and v.a[0] is SELF and v.a[1] == name


def bounded(evs, i, setting):
    """the event at index i happens inside a timeout of the named setting"""
    made = {}
    open_ = []
    for j, e in enumerate(evs):
        if j == i:
            break
        if e.kind == "call" and ("timeout" in (e.get("name") or "") or e.get("name") == "wait_for"):
            vals = list(e.args or ()) + list((e.get("kwargs") or {}).values())
            if any(is_setting(v, setting) for v in vals):
                made[e.result] = True
        if e.kind == "with_enter":
            open_.append(ctx(e, made))
        if e.kind == "timed":
            open_.append(e.get("timeout") is not None and is_setting(e.timeout, setting))
        if e.kind in ("with_exit", "timed_end") and open_:
            open_.pop()
    return any(open_)


def ctx(e, made):
    return any(isinstance(v, V) and any(x in made for x in subterms(v)) for v in e.a.values() if isinstance(v, V))


def base_rules(c, L):
    for fname, kind, start, setting in KINDS:
        nst = nfail = 0

        def on_event(st, ev):
            if ev.kind == "store" and ev.get("attr") == "target":
                ev.a["xkind"] = kind
        for pre in (("CREATED", "RUNNING"),):
            I, X, outs = run_from(c, L, fname, kind, pre, do_raises=True, on_event=on_event)
            P = Pending(L, I)
            for o in outs:
                evs = flat(o)
                top = events(o.st.trace)
                begun = [i for i, e in enumerate(evs) if calls(e, start, X) and e.kind == "call"]
                if not begun:
                    continue
                nst += 1
                w = where(evs[begun[0]])
                it = [i for i, e in enumerate(evs) if e.kind == "aiter" and contains_start(e, start)]
                for i in it or begun:
                    c.require(bounded(evs, i, setting), "BOUND", w, f"the start of a {kind.lower()} is not bounded by {setting}", key=kind)
                # states are persisted as they are reported
                for e in walk_events(top):
                    if e.kind == "loop" and e.seg[0] == "sym" and start in show(e.seg[1]):
                        for b in e.bodies:
                            if b.kind == "raise":
                                continue
                            judge_persist(c, e, b, X, kind)
                failed = any(raised_by(e) == start for e in top)
                stores = [e for e in top if e.kind == "store" and e.obj is X]
                st = [nm(e.value) for e in stores if e.attr == "status"]
                tg = [nm(e.value) for e in stores if e.attr == "target"]
                if not failed:
                    if o.kind == "ret":
                        ok = "SUBMITTED" in st or known_at_least(o, X)
                        c.require(ok, "DONE", w, f"a {kind.lower()} whose start completed is not recorded as submitted", key=kind)
                    continue
                nfail += 1
                c.require(o.kind == "ret", "FAIL", w, f"a failed start of a {kind.lower()} is not handled", key=f"{kind} raise")
                if o.kind != "ret":
                    continue
                c.require("SUBMITTED" in st or known_at_least(o, X), "FAIL", w, f"a {kind.lower()} whose start failed is not recorded as submitted, so it is never stopped", key=f"{kind} status")
                c.require(tg and tg[-1] in ("FAILED",), "FAIL", w, f"a {kind.lower()} whose start failed gets no goal of failure", key=f"{kind} target")
                pend, _ = P.scan(top)
                put = any(qcall(e) in PUTS and e.kind == "call" and e.args and e.args[0] is X for e in evs)
                c.require(put and not [x for x, _ in pend if x is X], "FAIL", w, f"a {kind.lower()} whose start failed is not queued", key=f"{kind} queue")
        c.require(nst > 0, "DONE", fname, f"{start} is never called", key=f"{kind} start")
        if not nfail:
            raise Broken(f"no failing path of {start}")
    c.floor("BOUND", 2)
    c.floor("FAIL", 6)
    c.floor("PERSIST", 2)
    c.floor("DONE", 2)


def contains_start(e, start):
    return any(isinstance(v, V) and start in show(v) for v in e.a.values() if isinstance(v, V))


def known_at_least(o, X):
    for k, d in o.st.facts.dom.items():
        if k.k == "attr" and k.a[0] is X and k.a[1] == "status" and not {nm(y) for y in d} & {"CREATED"}:
            return True
    return False


def judge_persist(c, loop, b, X, kind):
    el = b.elem
    got = None
    for e in walk_events(b.events):
        if e.kind == "store" and e.obj is X and e.attr == "state":
            got = e
            break
        if e.kind == "suspend" and got is None and started(b, e):
            break
    ok = got is not None and got.value is el and b.kind in ("next", "cont")
    c.require(ok, "PERSIST", where(loop), f"a state reported while a {kind.lower()} starts is not persisted before the start goes on", key=kind)
    if ok:
        # through the database, not only in memory
        ex = any(e.kind == "call" and e.get("name") == "execute" for e in walk_events(b.events))
        c.require(ex, "PERSIST", where(got), f"a state reported while a {kind.lower()} starts is kept in memory only", key=f"{kind} db")


def started(b, e):
    """a suspension other than the one that waits for the item"""
    sus = [x for x in walk_events(b.events) if x.kind == "suspend"]
    return sus and sus[0] is not e


# ------------------------------------------------------------------ backends
def backend_rules(c, L):
    n = 0
    for k in sorted(L.base.subclasses(), key=lambda x: x.qual):
        if k is L.base:
            continue
        for what, kind in (("cluster", "Cluster"), ("worker", "Worker")):
            fs, fe = k.find_method(f"do_start_{what}"), k.find_method(f"do_stop_{what}")
            if fs is None or fe is None or fs.cls is L.base or fe.cls is L.base:
                continue
            if fs.cls is not k and fe.cls is not k and any(fs.cls is z or fe.cls is z for z in L.base.subclasses() if z is not k and z is not L.base) and not own(k, what):
                continue
            n += 1
            c.analysed(fs, fe)
            states = yields(c, k, fs, kind)
            for evs_ in states:
                prev = {}
                for e, d in evs_:
                    lost = [x for x in prev if x not in d]
                    c.require(not lost, "KEEP", where(e), f"{k.name}.{fs.name}: a later state drops {', '.join(map(str, lost))}, reported earlier", key=f"{k.name} {what} {','.join(map(str, lost))}")
                    prev = d
                if not evs_:
                    c.fail("KEEP", f"{fs.module.rel()}:{fs.line}", f"{k.name}.{fs.name} can finish without reporting a state", key=f"{k.name} {what} none")
            partial(c, k, fe, kind, what, states)
    if n < 3:
        raise Broken("backends found: %d" % n)
    c.floor("KEEP", 4)
    c.floor("PARTIAL", 6)


def own(k, what):
    return any(x in k.methods for x in (f"do_start_{what}", f"do_stop_{what}"))


def yields(c, k, f, kind):
    """reported states of each path: [(event, {key: value})]"""
    I = Interp(c.prog, c.types, opaque=lambda g, r: g is not f, hints={("Worker", "cluster", 0): DB + ".Cluster"})
    I.term_types[SELF] = k.qual
    X = V("param", f.params()[1])
    I.term_types[X] = DB + "." + kind
    out = []
    for o in I.run_function(f, [X], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        row = []
        for e in flat(o):
            if e.kind == "yield":
                v = e.get("value")
                d = e.heap[v.a[0]] if v is not None and v.k == "ref" else None
                if d is None or d.kind != "dict":
                    raise Broken(f"{k.name}.{f.name}: the reported state is not a dictionary display: {show(v)[:80]}")
                row.append((e, {x.a[0]: y for x, y in keyvals(d)}))
        out.append(row)
    return out


def keyvals(d):
    out = {}
    for l in d.layers:
        if l[0] == "kv" and l[1].k == "const":
            out[l[1]] = l[2]
    return out.items()


def partial(c, k, f, kind, what, states):
    """stopping after a start that got only part of the way does what that part needs"""
    from sa.state import Obj
    reach = [{}]
    for row in states:
        for e, d in row:
            if not any(set(d) == set(x) for x in reach):
                reach.append(d)
    for d in reach:
        X = V("param", f.params()[1])
        missing = []

        def raises(I, st, ev):
            # removing an entry that the failed start may not have made
            if ev.get("name") == "pop" and len(ev.get("args") or ()) == 1 and not ev.get("kwargs"):
                r = ev.callee
                if st.facts.tr.get(V("cmp", "in", ev.args[0], ev.get("recv"))):
                    return None
                if r is not None and any(x.k == "attr" and x.a[0] is SELF for x in subterms(r)):
                    return ["KeyError"]
            return None
        inline = {f}
        while True:
            I = Interp(c.prog, c.types, opaque=lambda g, r: g not in inline, raises=raises,
                       hints={("Worker", "cluster", 0): DB + ".Cluster"})
            I.term_types[SELF] = k.qual
            I.term_types[X] = DB + "." + kind
            st = I.new_state()
            layers = tuple(("kv", V("const", a), V("const", f"<{a}>")) for a in d)
            ref = st.alloc(Obj("dict", layers=layers))
            st.store = {**st.store, (X, "state"): ref}
            outs = I.run_function(f, [X], st=st, selfv=SELF)
            # what is handed the object itself is part of the stop
            more = {e.target for o in outs for e in flat(o) if e.kind in ("call", "callraised") and e.get("target") is not None
                    and e.target.cls is not None and any(x is X or x is ref for x in [*(e.get("args") or ()), *(e.get("kwargs") or {}).values()])} - inline
            if not more:
                break
            inline |= more
        for o in outs:
            c.paths += 1
            evs = flat(o)
            w = f"{f.module.rel()}:{f.line} ({k.name}.{f.name})"
            names = ", ".join(map(str, d)) or "nothing"
            if o.kind == "raise" and (key_error(o) or any(e.kind == "callraised" for e in evs)):
                c.fail("PARTIAL", w, f"stopping a {what} fails when its start had reported {names}, and leaves the rest in place", key=f"{k.name} {what} {names}")
                continue
            for a in d:
                p = V("const", f"<{a}>")
                if not stateful(f, a) and not made_by_backend(d[a]):
                    continue
                used = any(p in set(subterms(x)) for e in evs if e.kind in ("call", "callraised") for x in list(e.get("args") or ()) + list((e.get("kwargs") or {}).values()) if isinstance(x, V))
                c.require(used, "PARTIAL", w, f"{a}, reported by the start, is not used to stop the {what} when only {names} had been reported", key=f"{k.name} {what} {a} {names}")


def made_by_backend(v):
    """the result of a step of the backend: something that has to be undone"""
    return any(x.k == "call" and x.a[0].k in ("bound", "attr") and SELF in set(subterms(x.a[0])) for x in subterms(v))


def stateful(f, key):
    """the stop uses this entry at all"""
    import ast
    return any(isinstance(x, ast.Constant) and x.value == key for x in ast.walk(f.node))


def key_error(o):
    v = o.val
    return v is not None and v.k == "exc" and "KeyError" in str(v.a[0])


def run(c):
    c.rule("BOUND", "a start runs inside a timeout of its configured start timeout")
    c.rule("PERSIST", "each state the backend reports is written to the database before the start goes on")
    c.rule("FAIL", "a failed start is recorded as submitted with a goal of failure, and queued")
    c.rule("DONE", "a completed start is recorded as submitted")
    c.rule("KEEP", "a later state keeps what an earlier one reported")
    c.rule("PARTIAL", "stopping works from every state a start may have reported, and uses what was reported")
    L = Life(c)
    base_rules(c, L)
    backend_rules(c, L)
    c.assumptions += ["Cancelling the coroutine of a start stops it (asyncio).", "A resource whose creation was interrupted before the backend reported it cannot be identified."]
