"""C18: every number of workers that is forwarded, recorded or created is bounded by the limit of the cluster."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, dict_get, ext_name, ladd, linear, root, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from .dblife import DB, SELF, Life
from .recon import calls, flat, run_from

SETTING = "cluster_max_workers"
RESOURCES = (("cluster_max_memory", "scheduler_memory", "worker_memory"), ("cluster_max_cores", "scheduler_cores", "worker_cores"))
NONE = const(None)


def unwrap(v):
    while v.k == "call" and v.a[0].k == "builtin" and v.a[0].a[0] in ("int", "float") and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def is_limit(v):
    """the worker limit in the configuration of a cluster"""
    v = unwrap(v)
    return v.k == "item" and v.a[1] == const(SETTING) or v.k == "attr" and v.a[1] == SETTING


def builtin(v, name):
    return v.k == "call" and v.a[0].k == "builtin" and v.a[0].a[0] == name


def args(v):
    return [x for x in v.a[1] if isinstance(x, V)]


def le(v, lim, facts):
    """v <= lim follows (lim: predicate on terms)"""
    v = unwrap(v)
    if lim(v):
        return True
    if builtin(v, "min"):
        return any(le(x, lim, facts) for x in args(v))
    if builtin(v, "max"):
        return all(le(x, lim, facts) or x == const(0) for x in args(v)) and any(x != const(0) for x in args(v))
    if v.k == "const" and isinstance(v.a[0], (int, float)) and v.a[0] <= 0:
        return True
    if v.k == "phi":
        return all(le(x, lim, facts) for x in v.a if isinstance(x, V))
    d = linear(v)
    for L, _ in bounds(facts):
        # L <= 0 with L = v - limit
        e = ladd(L, d, -1)
        e = {k: n for k, n in e.items() if n}
        if len(e) == 1 and list(e.values()) == [-1] and None not in e and lim(list(e)[0]):
            return True
    # not (v > limit), for values that compare at all
    for (a, b), r in facts.rel.items():
        if a == v and lim(b) and ">" not in r or b == v and lim(a) and "<" not in r:
            return True
    return False


def over(v, lim, facts):
    """v > lim follows"""
    return any(a == v and lim(b) and r <= {">"} or b == v and lim(a) and r <= {"<"} for (a, b), r in facts.rel.items())


def same(v, r, facts):
    return v == r or any({a, b} == {v, r} and rel == {"="} for (a, b), rel in facts.rel.items())


def dom_only(facts, pred, val):
    return any(pred(k) and set(d) == {val} for k, d in facts.dom.items())


def unlimited(facts):
    return dom_only(facts, is_limit, NONE)


def routes(c):
    p = c.prog
    found = 0
    for f in list(p.funcs.values()):
        if f.module.name.split(".")[-1] != "routes" or f.cls is not None or "dask_gateway_server" not in f.module.name:
            continue
        if not any(isinstance(x, ast.Constant) and x.value in ("scale", "adapt") for x in ast.walk(f.node)):
            continue
        req = [V("param", x) for x in f.params()]
        I = Interp(p, c.types)
        outs = I.run_function(f, req)
        c.paths += len(outs)
        c.analysed(f, *I.inlined)
        for o in outs:
            evs = list(walk_events(events(o.st.trace)))
            fw = [e for e in evs if e.kind == "call" and e.get("name") == "forward_message_to_scheduler"]
            sent = [m for m in (message(e) for e in fw) if m is not None]
            for e in fw:
                c.require(message(e) is not None, "SCALE", where(e), "the message forwarded to the scheduler is not known")
            if not fw:
                c.require(o.kind == "raise", "REFUSE", f"{f.module.rel()}:{f.line} ({f.name})", "answers as if it had been forwarded, without forwarding anything")
                continue
            found += 1
            for e, m in zip(fw, sent):
                op = m.get("op")
                if op == const("scale"):
                    scale(c, f, I, o, e, m, evs)
                elif op == const("adapt"):
                    adapt(c, f, I, o, e, m, evs)
    if not found:
        raise Broken("no endpoint forwards scale or adapt requests")


def message(e):
    for a in list(e.args) + list((e.get("kwargs") or {}).values()):
        if a.k == "ref" and e.heap.get(a.a[0]) is not None and e.heap[a.a[0]].kind == "dict":
            out = {}
            for l in e.heap[a.a[0]].layers:
                if l[0] != "kv" or l[1].k != "const":
                    return None
                out[l[1].a[0]] = l[2]
            return out
    return None


def requested(o, key):
    """terms that stand for msg[key] on this path"""
    out = set()
    F = o.st.facts
    for tab in (F.dom, F.ne, F.tr):
        for k in tab:
            out |= {x for x in subterms(k) if is_req(x, key)}
    for ab in F.rel:
        for k in ab:
            out |= {x for x in subterms(k) if is_req(x, key)}
    return out


def is_req(x, key):
    return x.k == "item" and x.a[1] == const(key) and any(y.k == "call" and show(y.a[0]).endswith(".json") for y in subterms(x))


def reply(evs):
    for e in reversed(evs):
        if e.kind == "call" and "json_response" in show(e.get("callee") or SELF):
            for a in list(e.args) + list((e.get("kwargs") or {}).values()):
                if a.k == "ref" and e.heap[a.a[0]].kind == "dict":
                    return e, {l[1].a[0]: l[2] for l in e.heap[a.a[0]].layers if l[0] == "kv" and l[1].k == "const"}
    return None, None


def told(c, o, e, evs, must, mustnot):
    if o.kind != "ret":
        return
    r, d = reply(evs)
    w = where(e)
    if d is None:
        if must:
            c.fail("TOLD", w, "the reply does not tell that the request was reduced")
        return
    ok, msg = d.get("ok"), d.get("msg")
    if must:
        c.require(ok == const(False) and msg is not None and msg not in (NONE, const("")), "TOLD", w,
                  f"the request is reduced, but the reply says ok: {show(ok) if ok is not None else None}, msg: {show(msg)[:60] if msg is not None else None}")
    elif mustnot:
        c.require(ok != const(False), "TOLD", w, "the request is forwarded as it is, but the reply says it was reduced")


def scale(c, f, I, o, e, m, evs):
    w = where(e)
    F = e.facts
    v = m.get("count")
    c.require(v is not None, "SCALE", w, "no count is forwarded")
    if v is None:
        return
    none = unlimited(F)
    c.require(none or le(v, is_limit, F), "SCALE", w, f"forwards a count of {show(v)[:70]} that may exceed the worker limit")
    if none:
        c.require(is_req(v, "count"), "FREE", w, f"without a limit, {show(v)[:60]} is forwarded instead of the requested count")
    reqs = requested(o, "count")
    r = v if is_req(v, "count") else (sorted(reqs, key=show)[0] if reqs else None)
    isint = any(k.k == "isinstance" and is_req(k.a[0], "count") and b is True and int_only(k) for k, b in F.tr.items())
    c.require(isint, "REFUSE", w, "a count that is not an integer is not refused")
    nonneg = r is not None and any({k: n for k, n in L.items() if n and not (k is None)} == {r: -1} and L.get(None, 0) >= (-1 if s else 0) for L, s in bounds(F))
    c.require(nonneg, "REFUSE", w, "a negative count is not refused")
    big = r is not None and over(r, is_limit, F)
    small = none or r is not None and (le(r, is_limit, F) or same(v, r, o.st.facts))
    told(c, o, e, evs, not small, small and not big)


def int_only(k):
    return "int" == show(k.a[1]) or any(show(x) in ("int", "<class 'int'>", "builtins.int") for x in k.a[1:] if isinstance(x, V)) or k.a[1:] and str(k.a[1]).strip("('),\"") == "int"


def adapt(c, f, I, o, e, m, evs):
    w = where(e)
    F = e.facts
    none = unlimited(F)
    must, free = False, True
    for key in ("minimum", "maximum"):
        v = m.get(key)
        c.require(v is not None, "ADAPT", w, f"no {key} is forwarded")
        if v is None:
            continue
        if none:
            c.require(is_req(v, key), "FREE", w, f"without a limit, {show(v)[:60]} is forwarded as the {key} instead of the requested one")
            continue
        isnone = v == NONE or set(F.dom.get(v, ())) == {NONE}
        if key == "maximum":
            c.require(not isnone, "ADAPT", w, "an adapt request without a maximum is forwarded without one although there is a worker limit")
        if not isnone:
            c.require(le(v, is_limit, F), "ADAPT", w, f"forwards a {key} of {show(v)[:70]} that may exceed the worker limit")
        reqs = {x for x in requested(o, key)} | ({v} if is_req(v, key) else set())
        r = sorted(reqs, key=show)[0] if reqs else None
        rnone = r is not None and set(F.dom.get(r, ())) == {NONE}
        if rnone or r is None:
            free = False
        elif not le(r, is_limit, F) and not same(v, r, o.st.facts):
            must = True
        elif over(r, is_limit, F):
            free = False
    told(c, o, e, evs, must, none or free and not must)


def limit_attr(x, name):
    return x.k == "attr" and x.a[1] == name and x.a[0] is SELF


def quotient(v, big, used, unit):
    """v is (big - used) // unit, possibly rounded down"""
    v = unwrap(v)
    if v.k == "call" and len(v.a[1]) == 1 and show(v.a[0]).endswith("floor"):
        v = v.a[1][0]
    if not (v.k == "binop" and v.a[0] in ("//", "/")):
        return False
    if not limit_attr(v.a[2], unit):
        return False
    d = {k: n for k, n in linear(v.a[1]).items() if n}
    return len(d) == 2 and None not in d and all(limit_attr(k, big) and n == 1 or limit_attr(k, used) and n == -1 for k, n in d.items())


def is_inf(v):
    return v.k == "const" and v.a[0] == float("inf") or builtin(v, "float") and args(v) and args(v)[0] == const("inf") or ext_name(v) == "math.inf"


def config(c):
    p = c.prog
    k = p.cls("dask_gateway_server.backends.base", "ClusterConfig")
    f = k.find_method("_worker_limit_from_resources")
    if f is None:
        raise Broken("ClusterConfig has no _worker_limit_from_resources")
    c.analysed(f)
    I = Interp(p, c.types)
    I.term_types[SELF] = k.qual
    w = f"{f.module.rel()}:{f.line} ({f.name})"
    for o in I.run_function(f, [], selfv=SELF):
        c.paths += 1
        F = o.st.facts
        if o.kind != "ret":
            c.fail("LIMIT", w, "computing the limit may fail")
            continue
        bounded = {}
        for big, used, unit in RESOURCES:
            unset = dom_only(F, lambda t: limit_attr(t, big), NONE)
            bounded[big] = not unset
        # a quotient of finite numbers is not infinite
        if any(is_inf(x) for t, d in F.dom.items() for x in d if len(d) == 1 and t.k in ("binop", "call") and any(y.k == "binop" for y in subterms(t))):
            if builtin_min_of_quotients(list(t for t, d in F.dom.items() if len(d) == 1 and any(is_inf(x) for x in d))):
                continue
        v = o.val
        if v == NONE:
            for big, b in bounded.items():
                c.require(not b, "LIMIT", w, f"no limit although {big} is set", key=f"none {big}")
            continue
        c.require(any(bounded.values()), "FREE", w, f"a limit of {show(v)[:50]} although neither resource is limited")
        for big, used, unit in RESOURCES:
            if bounded[big]:
                c.require(le_q(v, big, used, unit, F), "LIMIT", w, f"the limit {show(v)[:70]} may exceed ({big} - {used}) // {unit}", key=f"bound {big}")
    return k


def handler(k, kind, trait):
    for f in k.methods.values():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == kind and any(isinstance(a, ast.Constant) and a.value == trait for a in d.args):
                return f


def exact(c, k):
    """the configured numbers, through the handlers that see them"""
    G = 2**30
    P, CH = V("param", "proposal"), V("param", "change")
    base = dict(cluster_max_memory=None, cluster_max_cores=None, worker_memory=2 * G, worker_cores=2, scheduler_memory=G, scheduler_cores=1)
    worlds = [dict(base, cluster_max_memory=m, cluster_max_cores=n) for m in (None, G, 3 * G, 7 * G, 8 * G) for n in (None, 1, 2.5, 4, 11.0)]
    names = {x: handler(k, *x) for x in (("validate", SETTING), ("default", SETTING), ("observe", SETTING))}
    d = k.find_method("to_dict")

    def follow(f, w, args, attrs, what=()):
        def results(I, st, name, func, a, kw):
            if name == "trait_names" and func is None:
                return st.alloc(Obj("list", segs=tuple(("one", const(x)) for x in (*w, SETTING, "worker_cmd"))))
        I = Interp(c.prog, c.types, results=results)
        I.unroll = 16
        st = I.new_state()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={**{a: const(v) for a, v in w.items()}, **{a: const(v) for a, v in attrs.items()}, "worker_cmd": const("dask-worker")}))
        st.store = {**st.store, **{(t, a): const(v) for t, a, v in what}}
        outs = I.run_function(f, args, selfv=S, st=st)
        c.paths += len(outs)
        return S, outs
    n = 0
    for w in worlds:
        lim = None
        for big, used, unit in RESOURCES:
            if w[big] is not None:
                q = max(0, int((w[big] - w[used]) // w[unit]))
                lim = q if lim is None else min(lim, q)
        text = f"with {w['cluster_max_memory'] and w['cluster_max_memory'] // G} GiB and {w['cluster_max_cores']} cores"
        for mine in (None, 0, 2, 50):
            want = lim if mine is None else mine if lim is None else min(mine, lim)
            f = names["validate", SETTING]
            if f is not None:
                for S, outs in [follow(f, w, [P], {}, [(P, "value", mine)])]:
                    for o in outs:
                        n += 1
                        c.require(o.kind == "ret" and o.val == const(want), "EXACT", f.qual, f"{text} and a configured limit of {mine}, the worker limit is {show(o.val)}, not {want}", key="validate")
            f = names["observe", SETTING]
            if f is not None:
                S, outs = follow(f, w, [CH], {SETTING: mine}, [(CH, "new", mine), (CH, "name", SETTING)])
                for o in outs:
                    n += 1
                    got = o.st.obj(S).attrs.get(SETTING)
                    c.require(o.kind == "ret" and (got == const(want) or mine is not None and got == const(mine)), "EXACT", f.qual, f"{text} and an explicit limit of {mine}, the worker limit becomes {show(got) if got is not None else None}, not {want}", key="observe")
            if d is not None:
                S, outs = follow(d, w, [], {SETTING: mine})
                for o in outs:
                    got = dict_get(o.st.obj(o.val), const(SETTING)) if o.kind == "ret" and o.st.obj(o.val) is not None else None
                    n += 1
                    c.require(bool(got) and got[0] == const(want), "EXACT", d.qual, f"{text} and a limit of {mine}, the worker limit recorded is {show(got[0]) if got else None}, not {want}", key="record")
        f = names["default", SETTING]
        if f is not None:
            for o in follow(f, w, [], {})[1]:
                n += 1
                c.require(o.kind == "ret" and o.val == const(lim), "EXACT", f.qual, f"{text}, the worker limit is {show(o.val)}, not {lim}", key="default")
    for big, used, unit in RESOURCES:
        for trait, other in ((used, big), (big, used)):
            f = handler(k, "validate", trait)
            if not c.require(f is not None, "SCHEDULER", k.qual, f"a change of {trait} is not checked against {other}", key=f"none {trait}"):
                continue
            c.analysed(f)
            for u, b in ((G, None), (G, G), (G, 2 * G), (2 * G, G), (3, 2), (2, 2), (1, 2), (1, None), (1, 0)):
                w = dict(base, **{other: b if other == big else u})
                for o in follow(f, w, [P], {}, [(P, "value", b if trait == big else u)])[1]:
                    n += 1
                    if b is not None and u > b:
                        c.require(o.kind == "raise", "SCHEDULER", f.qual, f"a cluster whose scheduler takes {u} of {b} {used.split('_')[1]} is accepted", key=f"over {trait}")
                    else:
                        c.require(o.kind == "ret" and o.val == const(b if trait == big else u), "SCHEDULER", f.qual, f"a cluster whose scheduler takes {u} of {b} {used.split('_')[1]} {'is refused' if o.kind != 'ret' else f'gets a {trait} of {show(o.val)}'}", key=f"fits {trait}")
    if not n:
        raise Broken("the limits of a configuration are not followed")


def le_q(v, big, used, unit, F):
    return v != const(0) and le(v, lambda t: quotient(t, big, used, unit), F)


def builtin_min_of_quotients(ts):
    return any(builtin(t, "min") or t.k == "binop" for t in ts)


def is_lim_call(v):
    v = unwrap(v)
    return v.k == "call" and show(v.a[0]).endswith("._worker_limit_from_resources")


def lim_none(F):
    return dom_only(F, is_lim_call, NONE)


def opq(g, r):
    return g.name == "_worker_limit_from_resources"


def config_users(c, k):
    p = c.prog
    handlers = {"validate": [], "default": [], "observe": []}
    for kk in [k] + [x for x in k.subclasses()]:
        for f in kk.methods.values():
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in handlers and any(isinstance(a, ast.Constant) and a.value == SETTING for a in d.args):
                    handlers[d.func.id].append((kk, f))
    for kind in ("validate", "default"):
        c.require(bool(handlers[kind]), "BOUND", k.qual, f"{SETTING} has no {kind} handler that applies the limit of the resources", key=kind)
    for kind, hs in handlers.items():
        for kk, f in hs:
            c.analysed(f)
            I = Interp(p, c.types, opaque=opq)
            I.term_types[SELF] = kk.qual
            w = f"{f.module.rel()}:{f.line} ({kk.name}.{f.name})"
            seen = False
            for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
                c.paths += 1
                F = o.st.facts
                if kind == "observe":
                    st = [e for e in flat(o) if e.kind == "store" and e.get("attr") == SETTING]
                    for e in st:
                        c.require(le(e.value, is_lim_call, e.facts) or lim_none(e.facts), "BOUND", w, "sets a worker limit that the resources do not allow")
                    new_none = dom_only(F, lambda t: t.k == "attr" and t.a[1] == "new" or t.k == "item" and t.a[1] == const("new"), NONE)
                    if new_none and not lim_none(F):
                        c.require(bool(st), "BOUND", w, "an explicit None is not replaced by the limit the resources give")
                    continue
                if o.kind != "ret" or lim_none(F):
                    continue
                seen = True
                c.require(le(o.val, is_lim_call, F), "BOUND", w, f"gives a worker limit of {show(o.val)[:60]} that may exceed what the resources allow")
            if kind != "observe":
                c.require(seen, "BOUND", w, "does not apply the limit of the resources")
    for kk in [k] + list(k.subclasses()):
        f = kk.methods.get("to_dict")
        if f is None:
            continue
        c.analysed(f)
        I = Interp(p, c.types, opaque=opq)
        I.term_types[SELF] = kk.qual
        w = f"{f.module.rel()}:{f.line} ({kk.name}.to_dict)"
        for o in I.run_function(f, [], selfv=SELF):
            c.paths += 1
            if o.kind != "ret" or lim_none(o.st.facts):
                continue
            ob = o.st.obj(o.val) if o.val.k == "ref" else None
            v = None
            for l in ob.layers if ob is not None and ob.kind == "dict" else ():
                if l[0] == "kv" and l[1] == const(SETTING):
                    v = l[2]
                elif l[0] in ("src",):
                    v = None
            c.require(v is not None and le(v, is_lim_call, o.st.facts), "BOUND", w,
                      f"the settings of the cluster carry a worker limit of {show(v)[:60] if v is not None else 'what was configured'} that may exceed what its resources allow")


def persisted(c):
    """what the backends store as the configuration of a cluster is the bounded dictionary"""
    p = c.prog
    n = 0
    for f in p.funcs.values():
        if ".backends." not in f.module.name or f.name != "start_cluster":
            continue
        if f.cls is None or f.cls.name == "Backend":
            continue
        n += 1
        c.analysed(f)
        I = Interp(p, c.types, opaque=lambda g, r: g.name == "to_dict" or g.cls is not None and g.cls.name == "DataManager" or g.module.name.endswith("db_base") and g.cls is None)
        I.term_types[SELF] = f.cls.qual
        w = f"{f.module.rel()}:{f.line} ({f.cls.name}.{f.name})"
        for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
            c.paths += 1
            if o.kind != "ret":
                continue
            st = set()
            for e in walk_events(events(o.st.trace)):
                if e.kind == "call":
                    for a in list(e.args) + list((e.get("kwargs") or {}).values()):
                        st |= deep(a, e.heap)
            st |= deep(o.val, o.st.heap)
            c.require(any(x.k == "call" and show(x.a[0]).endswith(".to_dict") for x in st), "BOUND", w, "does not record the configuration from to_dict, which bounds the worker limit")
    if n < 2:
        raise Broken("the places that record a cluster's configuration are not found")


def deep(v, heap, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if not isinstance(v, V):
        return out
    for x in subterms(v):
        out.add(x)
        if x.k == "ref" and x not in seen:
            seen.add(x)
            ob = heap.get(x.a[0])
            if ob is None:
                continue
            for l in (ob.layers if ob.kind == "dict" else getattr(ob, "segs", ()) or ()):
                for y in l:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, V):
                            out |= deep(z, heap, seen)
                        elif isinstance(z, tuple):
                            for q in z:
                                out |= deep(q, heap, seen)
    return out


def heartbeats(c, L):
    n = 0
    I, X, outs = run_from(c, L, "on_cluster_heartbeat", None, None, do_raises=False)
    for o in outs:
        for e in flat(o):
            if e.kind == "store" and e.get("attr") == "count":
                n += 1
                c.require(unlimited(e.facts) or le(e.value, is_limit, e.facts), "BEAT", where(e), f"records a count of {show(e.value)[:60]} that may exceed the worker limit")
                if unlimited(e.facts):
                    c.require(is_count(e.value), "FREE", where(e), "without a limit, something else than the count of the heartbeat is recorded")
    if not n:
        raise Broken("no heartbeat records a count")
    p = c.prog
    k = p.cls("dask_gateway_server.backends.kubernetes.backend", "KubeBackend")
    f = k.find_method("on_cluster_heartbeat")
    I = Interp(p, c.types)
    I.term_types[SELF] = k.qual
    c.analysed(f)
    n = 0
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        c.paths += 1
        for e in flat(o):
            if e.kind != "call" or "custom_object" not in (e.get("name") or ""):
                continue
            v = patched(e)
            c.require(v is not None, "BEAT", where(e), "the number of replicas recorded is not known")
            if v is None:
                continue
            n += 1
            c.require(unlimited(e.facts) or le(v, is_limit, e.facts), "BEAT", where(e), f"records {show(v)[:60]} replicas, which may exceed the worker limit")
            if unlimited(e.facts):
                c.require(is_count(v), "FREE", where(e), "without a limit, something else than the count of the heartbeat is recorded")
    if not n:
        raise Broken("no heartbeat records the replicas of a Kubernetes cluster")


def is_count(v):
    return v.k == "item" and v.a[1] == const("count")


def patched(e):
    """the value of the operation on the replicas"""
    seen = []
    for a in list(e.args) + list((e.get("kwargs") or {}).values()):
        for x in deep(a, e.heap):
            if x.k == "ref" and e.heap.get(x.a[0]) is not None and e.heap[x.a[0]].kind == "dict":
                for l in e.heap[x.a[0]].layers:
                    if l[0] == "kv" and l[1] in (const("value"), const("replicas")) and not (l[2].k == "ref"):
                        seen.append(l[2])
    return seen[0] if len(seen) == 1 else None


def creation(c, L):
    """the number of workers created by a scale check"""
    n = 0
    for fname in ("_check_cluster_scale",):
        I, X, outs = run_from(c, L, fname, "Cluster", ("RUNNING", "RUNNING"), opaque={"create_worker", "active_workers", "put", "update_cluster"})
        for o in outs:
            top = events(o.st.trace)
            for e in top:
                if e.kind == "call" and e.get("name") == "create_worker":
                    n += 1
                    short = any(wants_more(L_, s, X) for L_, s in bounds(e.facts))
                    c.require(short, "CREATE", where(e), "creates a worker although the count may have been reached")
                if e.kind == "loop" and any(x.kind == "call" and x.get("name") == "create_worker" for b in e.bodies for x in b.events):
                    n += 1
                    one = all(sum(x.kind == "call" and x.get("name") == "create_worker" for x in b.events) <= 1 for b in e.bodies)
                    c.require(one and exactly_missing(e, X), "CREATE", where(e), "may create more workers than the count asks for")
    if not n:
        raise Broken("no scale check creates workers")


def missing(d, X):
    """linear form: +1 count, -1 number of active workers"""
    d = {k: n for k, n in d.items() if n}
    if None in d or len(d) != 2:
        return 0
    cnt = [n for k, n in d.items() if k.k == "attr" and k.a[0] is X and k.a[1] == "count"]
    act = [n for k, n in d.items() if k.k == "len" and active(k.a[0], X)]
    if len(cnt) == 1 and len(act) == 1 and cnt[0] == -act[0]:
        return cnt[0]
    return 0


def active(t, X):
    return any(x.k == "call" and show(x.a[0]).endswith(".active_workers") and X in set(subterms(x.a[0])) for x in subterms(t))


def wants_more(L, strict, X):
    return strict and missing(L, X) == -1


class Only:
    def __init__(self, ab, r):
        self.rel = {ab: r}


def counting(L, strict):
    """a loop variable is strictly between its bounds"""
    L = {k: n for k, n in L.items() if n}
    return strict and any(k is not None and k.k in ("phi", "loopval") for k in L)


def exactly_missing(e, X):
    seg = e.seg
    if seg[0] == "while":
        old = set(e.facts.rel)
        for b in e.bodies:
            if not any(x.kind == "call" and x.get("name") == "create_worker" for x in b.events):
                continue
            ev = [x for x in b.events if x.kind == "call" and x.get("name") == "create_worker"][0]
            new = [(l, s) for ab, r in ev.facts.rel.items() if ab not in old or e.facts.rel[ab] != r for l, s in bounds(Only(ab, r))]
            if not any(wants_more(l, s, X) or counting(l, s) for l, s in new):
                return False
        return True
    it = seg[1] if isinstance(seg[1], V) else None
    if it is None or not (it.k == "call" and it.a[0].k == "builtin" and it.a[0].a[0] == "range"):
        return False
    a = args(it)
    if len(a) == 1:
        return missing(linear(a[0]), X) == 1
    if len(a) == 2:
        return missing(ladd(linear(a[1]), linear(a[0]), -1), X) == 1
    return False


def run(c):
    c.rule("SCALE", "a forwarded scale count is at most the worker limit")
    c.rule("ADAPT", "forwarded adapt bounds are at most the worker limit, and a maximum is forwarded when there is one")
    c.rule("TOLD", "the reply tells a reduced request from one that was forwarded as it is")
    c.rule("REFUSE", "a scale count is forwarded only after it was found to be a non-negative integer; otherwise the request fails")
    c.rule("BEAT", "the count recorded from a heartbeat is at most the worker limit")
    c.rule("LIMIT", "the limit from resources is at most what each limited resource allows")
    c.rule("BOUND", "the worker limit of a configuration, and the one recorded with a cluster, is at most the limit from resources")
    c.rule("EXACT", "the worker limit is the smallest of the configured one and those the limited resources give, and no other")
    c.rule("SCHEDULER", "a configuration whose scheduler alone takes more than the cluster's limit of cores or memory is refused, others are not")
    c.rule("FREE", "without a limit nothing is reduced")
    c.rule("CREATE", "a scale check creates at most the workers missing from the recorded count")
    L = Life(c)
    routes(c)
    k = config(c)
    config_users(c, k)
    exact(c, k)
    persisted(c)
    heartbeats(c, L)
    creation(c, L)
    c.assumptions += ["min and max of numbers that compare are among their arguments (JSON NaN is not a count the scheduler can act on).",
                      "The Kubernetes controller creates exactly the recorded replicas (C27)."]
