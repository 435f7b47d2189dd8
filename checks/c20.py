"""C20: the log of route changes is numbered without gaps, and every watcher gets exactly what follows its position."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, ladd, linear, subterms, where
from sa.state import events, walk_events
from sa.values import V, const, show

SELF = V("param", "self")
LOG = ("events", "offset", "_next_id", "_watchers", "routes")


def attr(v, name):
    return isinstance(v, V) and v.k == "attr" and v.a[0] is SELF and v.a[1] == name


def norm(v):
    """linear form over the fields, where the newest identifier is offset + len(events)"""
    d = {}
    for k, n in (v if isinstance(v, dict) else linear(v)).items():
        if not n:
            continue
        if k is None:
            d[None] = d.get(None, 0) + n
        elif attr(k, "_next_id"):
            for x, m in (("offset", n), ("len", n), (None, n)):
                d[x] = d.get(x, 0) + m
        elif attr(k, "offset"):
            d["offset"] = d.get("offset", 0) + n
        elif k.k == "len" and attr(k.a[0], "events"):
            d["len"] = d.get("len", 0) + n
        else:
            d[k] = d.get(k, 0) + n
    return {k: n for k, n in d.items() if n}


def minus(a, b):
    return norm({**{k: n for k, n in ladd(a if isinstance(a, dict) else linear(a), b if isinstance(b, dict) else linear(b), -1).items()}})


def interp(c, k, raises=None, **kw):
    I = Interp(c.prog, c.types, volatile=lambda I, b, n, st: b is SELF and n in LOG, raises=raises, **kw)
    I.term_types[SELF] = k.qual
    return I


def loc(f):
    return f"{f.module.rel()}:{f.line} ({f.cls.name}.{f.name})"


def flat(o):
    return list(walk_events(events(o.st.trace)))


def calls_on(e, base, names):
    """the call is a method of self.<base>"""
    f = e.get("callee")
    return e.kind == "call" and e.get("name") in names and f is not None and f.k == "attr" and attr(f.a[0], base)


def on(x, base):
    """x is self.<base>, or what it was replaced with"""
    return attr(x, base) or x.k == "slice_of" and attr(x.a[0], base)


def dropped(e):
    """number of entries an event removes from the front of the log: a term, or None"""
    if e.kind == "store" and e.get("attr") == "events" and e.obj is SELF:
        v = e.value
        if v.k == "slice_of" and attr(v.a[0], "events") and v.a[2] == const(None) and v.a[3] in (const(None), const(1)):
            return v.a[1]
    if e.kind == "delitem" and attr(e.obj, "events") and e.get("key") is not None and e.key.k == "slice":
        lo, hi, step = e.key.a
        if lo in (const(None), const(0)) and step in (const(None), const(1)):
            return hi
    return None


def within(n):
    """at most the length of a log that has reached its bound"""
    if n.k == "binop" and n.a[0] == "//" and n.a[2].k == "const" and isinstance(n.a[2].a[0], int) and n.a[2].a[0] >= 1:
        return attr(n.a[1], "max_events") or n.a[1].k == "len" and attr(n.a[1].a[0], "events")
    if attr(n, "max_events"):
        return True
    d = {k: m for k, m in linear(n).items() if m}
    pos = [k for k, m in d.items() if m == 1]
    neg = [k for k, m in d.items() if m == -1]
    return len(d) == 2 and len(pos) == len(neg) == 1 and None not in d and pos[0].k == "len" and attr(pos[0].a[0], "events") and (within(neg[0]) or attr(neg[0], "max_events"))


def deep(v, heap, seen=None):
    seen = seen if seen is not None else set()
    for x in subterms(v):
        yield x
        if x.k == "ref" and x not in seen:
            seen.add(x)
            ob = heap.get(x.a[0])
            for l in (ob.layers if ob is not None and ob.kind == "dict" else getattr(ob, "segs", None) or ()):
                for y in l:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, V):
                            yield from deep(z, heap, seen)
                        elif isinstance(z, tuple):
                            for q in z:
                                if isinstance(q, V):
                                    yield from deep(q, heap, seen)


def table(v, heap):
    """a dictionary with constant keys"""
    if not isinstance(v, V) or v.k != "ref" or heap.get(v.a[0]) is None or heap[v.a[0]].kind != "dict":
        return None
    out = {}
    for l in heap[v.a[0]].layers:
        if l[0] != "kv" or l[1].k != "const":
            return None
        out[l[1].a[0]] = l[2]
    return out


def initial(c, k):
    f = k.find_method("setup")
    if f is None:
        raise Broken("Proxy has no setup")
    I = interp(c, k, opaque=lambda g, r: g.name in ("add_route", "monitor_proxy_process", "start_proxy_process"))
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        first = {}
        ready = False
        for e in flat(o):
            if e.kind == "store" and e.obj is SELF and e.attr in LOG:
                c.require(e.attr not in first and not ready, "LOG", where(e), f"{e.attr} is reset after the endpoint or a route was added", key=f"reset {e.attr}")
                first.setdefault(e.attr, (e.value, e.heap))
            if e.kind == "call" and e.get("name") in ("add_routes", "add_route"):
                ready = True
        for a in LOG:
            c.require(a in first, "LOG", loc(f), f"{a} is not set up", key=f"init {a}")
            if a not in first:
                continue
            v, h = first[a]
            if a in ("offset", "_next_id"):
                c.require(v == const(0 if a == "offset" else 1), "LOG", loc(f), f"{a} starts as {show(v)}: the first change does not follow position 0", key=f"init {a}")
            else:
                ob = h.get(v.a[0]) if v.k == "ref" else None
                c.require(ob is not None and not (getattr(ob, "segs", None) or getattr(ob, "layers", None)), "LOG", loc(f), f"{a} does not start empty", key=f"init {a}")
    c.analysed(f, *I.inlined)
    return {f.qual} | set(I.inlined)


def changes(c, k):
    """add_route and remove_route with everything they call"""
    seen = set()
    for name, kind in (("add_route", "PUT"), ("remove_route", "DELETE")):
        f = k.find_method(name)
        if f is None:
            raise Broken(f"Proxy has no {name}")
        I = interp(c, k)
        ps = [V("param", x) for x in f.params()[1:]]
        n = 0
        for o in I.run_function(f, ps, selfv=SELF):
            c.paths += 1
            n += change(c, k, f, kind, o, ps)
        if not n:
            raise Broken(f"{name} never logs a change")
        c.analysed(f, *I.inlined)
        seen |= {f.qual} | set(I.inlined)
    return seen


def change(c, k, f, kind, o, ps):
    evs = flat(o)
    w = loc(f)
    edits = [e for e in evs if e.kind in ("setitem", "delitem") and attr(e.obj, "routes") or calls_on(e, "routes", ("pop", "update", "clear", "setdefault", "popitem"))]
    app = [e for e in evs if appended(e) is not None]
    if o.kind != "ret":
        c.require(not edits and not app, "CHANGE", w, f"{f.name} fails after it changed the routes or the log", key="partial")
        return 0
    gone = None
    for e in edits:
        if e.kind == "call" and e.name == "pop":
            gone = e.result
    effective = [e for e in edits if e.kind != "call" or e.name == "pop" and not absent(o.st.facts, e.result)]
    c.require(len(app) == len(effective), "CHANGE", w, f"{f.name}: {len(effective)} changes of the routes are logged as {len(app)}", key=f"{kind} count")
    if len(app) != 1 or len(effective) != 1:
        return len(app)
    e, ed = app[0], effective[0]
    i, j = evs.index(e), evs.index(ed)
    c.require(not any(x.kind == "suspend" for x in evs[min(i, j):max(i, j)]), "ATOMIC", w, f"{f.name} can be interrupted between the change and its log entry", key=f"{kind} atomic")
    if kind == "DELETE" and ed.kind == "call":
        c.require(gone is not None and (absent_not(o.st.facts, gone)), "CHANGE", w, "a route is logged as removed without having been there", key="was there")
    t = table(appended(e), e.heap)
    c.require(t is not None and t.get("type") == const(kind), "CHANGE", w, f"{f.name} logs {show(t['type']) if t and t.get('type') else 'something else'} instead of {kind}", key=f"{kind} type")
    if t is None:
        return 1
    # identifiers
    c.require("id" in t and attr(t["id"], "_next_id") or t.get("id") is not None and not minus(t["id"], V("attr", SELF, "_next_id", 0)), "LOG", w, f"a change gets the identifier {show(t.get('id'))[:40] if t.get('id') is not None else None} instead of the next one", key="id")
    nx = o.st.store.get((SELF, "_next_id"))
    c.require(nx is not None and minus(nx, V("attr", SELF, "_next_id", 0)) == {None: 1}, "LOG", w, "the next identifier does not go up by one", key="next")
    # pruning
    drops = [(x, dropped(x)) for x in evs if dropped(x) is not None]
    others = [x for x in evs if x.kind == "store" and x.obj is SELF and x.attr == "events" and dropped(x) is None or x.kind in ("setitem", "insert", "remove", "reorder") and on(x.get("obj") or SELF, "events")
              or x.kind == "call" and x.get("name") in ("insert", "pop", "clear", "remove", "reverse", "sort", "extend", "popleft") and x.get("callee") is not None and x.callee.k == "attr" and on(x.callee.a[0], "events")]
    for x in others:
        c.fail("LOG", where(x), "the log is changed otherwise than by dropping its oldest entries and appending", key="edit")
    off = o.st.store.get((SELF, "offset"))
    d = minus(off, V("attr", SELF, "offset", 0)) if off is not None else {}
    total = {}
    for x, n in drops:
        total = ladd(total, linear(n))
        c.require(within(n), "PRUNE", where(x), f"{show(n)[:50]} entries are dropped, which may be more than there are", key="too many")
        full = any(over_bound(l) for l, _ in bounds(x.facts))
        c.require(full, "PRUNE", where(x), "the log is pruned before it reached its size bound", key="early")
    c.require(norm(total) == d, "LOG", w, "the position of the oldest entry does not move by the number of entries dropped", key="offset")
    # the order in which entries are dropped and appended does not matter unless the new one may be dropped
    # content
    route = t.get("route")
    r = table(route, e.heap)
    c.require(r is not None, "CHANGE", w, "the route logged is not known", key=f"{kind} route")
    if r is not None:
        content(c, f, kind, o, ed, route, r, w)
    # watchers
    casts = [x for x in evs if x.kind == "loop" and x.seg[0] == "sym" and attr(base_of(x.seg[1]), "_watchers")]
    c.require(len(casts) == 1, "CAST", w, f"a change is sent to the watchers {len(casts)} times", key="cast")
    for x in casts:
        for b in x.bodies:
            puts = [y for y in b.events if y.kind == "call" and (y.get("name") or "").startswith("put")]
            blocked = any(y.kind == "suspend" for y in b.events) or any(y.name != "put_nowait" for y in puts)
            c.require(not blocked, "BLOCK", where(x), "a route change waits for its watchers", key="wait")
            ok = len(puts) == 1 and b.kind in ("next", "fall", "continue") and puts[0].callee.k == "attr" and puts[0].callee.a[0].k == "elem"
            c.require(ok, "CAST", where(x), "some watcher does not get the change exactly once", key="each")
            if ok:
                c.require(batch(puts[0].args[0], puts[0].heap) == [appended(e)], "CAST", where(x), "a watcher gets something else than the change", key="what")
        k2 = evs.index(x)
        c.require(not any(y.kind == "suspend" for y in evs[min(k2, i):max(k2, i)]), "ATOMIC", w, "a watcher can register between the log entry and its broadcast", key="cast atomic")
    return 1


def base_of(v):
    while v.k in ("call", "ref", "copy") and v.k == "call" and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def batch(v, heap):
    if v.k == "ref" and heap.get(v.a[0]) is not None and heap[v.a[0]].kind == "list" and all(g[0] == "one" for g in heap[v.a[0]].segs):
        return [g[1] for g in heap[v.a[0]].segs]
    if v.k == "tuple":
        return list(v.a)
    return None


def appended(e):
    """the entry a call appends to the log"""
    if e.kind == "call" and e.get("name") == "append" and e.get("callee") is not None and e.callee.k == "attr" and on(e.callee.a[0], "events") and len(e.args) == 1:
        return e.args[0]
    return None


def over_bound(l):
    """l <= 0 says that the log has at least max_events entries"""
    d = norm(l)
    m = [x for x in d if isinstance(x, V) and attr(x, "max_events")]
    return len(m) == 1 and d[m[0]] == 1 and d.get("len") == -1 and set(d) <= {m[0], "len", None} and d.get(None, 0) in (0, -1, 1)


def absent(F, v):
    return set(F.dom.get(v, ())) == {const(None)}


def absent_not(F, v):
    return const(None) in F.ne.get(v, ()) or F.tr.get(v) is True or (v in F.dom and const(None) not in F.dom[v])


def params(f):
    return {x: V("param", x) for x in f.params()[1:]}


def content(c, f, kind, o, ed, route, r, w):
    P = params(f)
    kd = o.st.facts.dom.get(P.get("kind"))
    kd = list(kd)[0].a[0] if kd and len(kd) == 1 and list(kd)[0].k == "const" else None
    c.require(kd in ("SNI", "PATH") and r.get("kind") in (P["kind"], const(kd)), "CHANGE", w, f"the kind logged is {show(r['kind']) if r.get('kind') is not None else None}", key=f"{kind} kind")
    if kd not in ("SNI", "PATH"):
        return
    name = "sni" if kd == "SNI" else "path"
    key = ed.key if ed.kind != "call" else ed.args[0]
    want = r.get(name)
    c.require(want is not None and P[name] in set(subterms(want)), "CHANGE", w, f"the {name} of the change is not in its log entry", key=f"{kind} {name}")
    if want is None:
        return
    c.require(key.k == "tuple" and len(key.a) == 2 and key.a[0] in (P["kind"], const(kd)) and key.a[1] == want, "CHANGE", w, f"the {kd} route is kept under {show(key)[:50]} but logged as {show(want)[:40]}", key=f"{kind} {kd} key")
    pre = any(attr(x, "prefix") for x in subterms(want))
    c.require(pre == (kd == "PATH"), "CHANGE", w, f"the {name} of the {kd} route is {'not ' if kd == 'PATH' else ''}prefixed", key=f"{kind} {kd} prefix")
    if kind == "PUT":
        c.require(r.get("target") is P["target"], "CHANGE", w, "the target of the route is not in its log entry", key="target")
        v = ed.get("value")
        c.require(v == route or table(v, ed.heap) == r, "CHANGE", w, "the snapshot keeps another route than the log", key="snapshot route")
        nn = const(None) in o.st.facts.ne.get(P["target"], ()) or P["target"] in o.st.facts.tr
        c.require(nn, "CHANGE", w, "a route without a target is logged", key="no target")


def handler(c, k):
    f = k.find_method("routes_handler")
    if f is None:
        raise Broken("Proxy has no routes_handler")

    def rs(I, st, ev):
        return {"prepare": ["ConnectionResetError"], "write": ["ConnectionResetError"], "get": ["CancelledError"], "drain": ["ConnectionResetError"]}.get(ev.get("name"))
    I = interp(c, k, raises=rs)
    outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
    c.paths += len(outs)
    c.analysed(f, *I.inlined)
    nw = ns = ng = 0
    w = loc(f)
    for o in outs:
        evs = flat(o)
        for e in evs:
            touch(c, e)
        snap = [e for e in evs if e.kind == "call" and "json_response" in show(e.get("callee") or SELF)]
        if snap and o.kind == "ret":
            ns += 1
            snapshot(c, o, snap[-1], w)
        adds = [i for i, e in enumerate(evs) if calls_on(e, "_watchers", ("add", "append"))]
        prep = [i for i, e in enumerate(evs) if e.kind == "call" and e.get("name") == "prepare"]
        if prep and not adds:
            c.fail("WATCH", w, "a watcher is served without being registered", key="registered")
        if adds:
            nw += 1
            watch(c, o, evs, adds, prep, w)
        if o.kind == "raise" and o.val.k == "call" and show(o.val.a[0]).endswith("HTTPGone"):
            ng += 1
            c.require(behind(o.st.facts), "GONE", w, "a watcher is told to resynchronise although its position is in the log", key="gone")
    if not (nw and ns):
        raise Broken("the watch or the snapshot path is not found")
    c.require(ng > 0, "GONE", w, "no watcher is ever told to resynchronise", key="never")
    return {f.qual} | set(I.inlined)


def touch(c, e):
    """serving a request changes nothing but the set of watchers, and in that only its own entry"""
    bad = e.kind in ("store", "setattr") and e.obj is SELF and e.attr in LOG or e.kind in ("setitem", "delitem", "append", "extend", "remove", "reorder") and any(on(e.get("obj") or SELF, a) for a in LOG)
    if e.kind == "call" and e.get("callee") is not None and e.callee.k == "attr" and any(attr(e.callee.a[0], a) for a in LOG):
        own = attr(e.callee.a[0], "_watchers") and e.name in ("add", "append", "discard", "remove") and e.args and e.args[0].k == "call"
        read = e.name in ("values", "get", "items", "keys", "copy", "__len__", "index", "count")
        bad = not (own or read)
    if bad:
        c.fail("LOG", where(e), "serving a request changes the log or drops other watchers", key="serve")


def position(v):
    """the value is the position the watcher named (or 0)"""
    return v.k == "call" and v.a[0].k == "builtin" and v.a[0].a[0] == "int" and any(x == const("last_id") for x in subterms(v))


def behind(F):
    """facts: position < offset or position > offset + len"""
    for (a, b), r in F.rel.items():
        d = norm(ladd(linear(a), linear(b), -1))
        for s, rr in ((1, r), (-1, {{"<": ">", ">": "<"}.get(x, x) for x in r})):
            e = {x: n * s for x, n in d.items()}
            ps = [x for x in e if isinstance(x, V) and position(x)]
            if ps and e[ps[0]] != 1 or len(ps) > 1:
                continue
            k0 = e.get(None, 0)
            rest = {x: n for x, n in e.items() if x not in ps and x is not None}
            # e = position - offset + k0
            if rest == {"offset": -1} and (not ps or True) and "=" not in rr and ">" not in rr and k0 >= 0 or rest == {"offset": -1} and ">" not in rr and k0 >= 1:
                return True
            if rest == {"offset": -1, "len": -1} and "<" not in rr and ("=" not in rr and k0 <= 0 or k0 <= -1):
                return True
    return False


def snapshot(c, o, e, w):
    t = table(e.args[0], e.heap) if e.args else None
    c.require(t is not None and {"routes", "id"} <= set(t), "SNAP", where(e), "the snapshot lacks its routes or its identifier", key="fields")
    if t is None or not {"routes", "id"} <= set(t):
        return
    c.require(norm(t["id"]) == {"offset": 1, "len": 1}, "SNAP", where(e), f"the snapshot is labelled {show(t['id'])[:40]} instead of the newest identifier", key="id")
    rv = t["routes"]
    g = e.heap[rv.a[0]].segs if rv.k == "ref" and e.heap[rv.a[0]].kind == "list" else ()
    c.require(len(g) == 1 and current(g[0]), "SNAP", where(e), "the snapshot does not hold exactly the current routes", key="routes")
    ep = {x.a[2] for v in (t["id"], *deep(rv, e.heap)) for x in subterms(v) if x.k == "attr" and x.a[0] is SELF and x.a[1] in LOG}
    c.require(len(ep) == 1, "ATOMIC", where(e), "the routes and the identifier of a snapshot are not read at the same time", key="snapshot")


def current(g):
    """exactly the values of self.routes"""
    if g[0] == "sym":
        return g[1].k == "values" and attr(g[1].a[0], "routes")
    return g[0] == "rep" and len(g[1]) == 1 and whole(*g[1][0])


def whole(x, F):
    """each route, whatever it is"""
    if x.k != "elem" or x.a[0].k != "values" or not attr(x.a[0].a[0], "routes"):
        return False
    if F is None:
        return True
    return not any(x in set(subterms(t)) for t in [*F.dom, *F.ne, *F.tr, *F.typ, *(y for r in F.rel for y in r)])


def missed(v, heap):
    """(the log, index of the first entry, whether everything from there on is taken) of what a value holds of the log, or None"""
    none = (const(None), const(1))
    if v.k == "slice_of" and attr(v.a[0], "events"):
        return v.a[0], linear(v.a[1]), v.a[2] == const(None) and v.a[3] in none
    ob = heap.get(v.a[0]) if v.k == "ref" else None
    if ob is None or ob.kind != "list" or len(ob.segs) != 1:
        return None
    g = ob.segs[0]
    if g[0] == "sym":
        return missed(g[1], heap)
    if g[0] == "part" and g[1][0] == "sym" and attr(g[1][1], "events"):
        b = list(g[2].a)
        if len(b) == 1:
            b = [const(0), *b]
        lo, hi, step = (b + [const(None)])[:3]
        return g[1][1], linear(const(0) if lo == const(None) else lo), hi == const(None) and step in none
    if g[0] == "rep" and len(g[1]) == 1:
        x, F = g[1][0]
        log = next((y for y in subterms(x) if attr(y, "events")), None)
        if x.k != "elem" or log is None or F is None:
            return None
        for l, strict in bounds(F):
            ids = [y for y in l if isinstance(y, V) and y.k == "item" and y.a[0] == x and y.a[1] == const("id") and l[y] == -1]
            if ids:
                # start < id (or start <= id): the entry with identifier i is at i - 1 - offset
                lo = {k: n for k, n in l.items() if k is not ids[0]}
                lo = ladd(lo, {V("attr", SELF, "offset", log.a[2]): -1})
                return log, lo if strict else ladd(lo, {None: -1}), True
    return None


def watch(c, o, evs, adds, prep, w):
    add = evs[adds[0]]
    q = add.args[0]
    c.require(len(adds) == 1, "WATCH", w, "a watcher is registered more than once", key="once")
    mx = [x for x in (q.a[1] if q.k == "call" else ()) if isinstance(x, V)] + [x[1] if isinstance(x, tuple) else x for x in (q.a[2] if q.k == "call" else ())]
    c.require(q.k == "call" and show(q.a[0]).split(".")[-1] in ("Queue", "SimpleQueue") and all(x == const(0) for x in mx), "BLOCK", where(add), "the queue of a watcher is bounded, or not first in first out", key="queue")
    # what is handed over at registration
    first = [i for i, e in enumerate(evs) if e.kind == "call" and (e.get("name") or "").startswith("put") and e.callee.k == "attr" and e.callee.a[0] == q]
    F = add.facts
    ep = add.callee.a[0].a[2]
    if first:
        c.require(len(first) == 1, "WATCH", w, "the missed changes are handed over more than once", key="twice")
        got = [missed(evs[first[0]].args[0], evs[first[0]].heap)]
    else:
        # nothing is handed over: then there is nothing after the position
        G = o.st.facts
        ts = [t for t, b in G.tr.items() if b is False] + [x for l, _ in bounds(G) for x in l if isinstance(x, V) and l[x] == 1 and set(l) <= {x, None} and l.get(None, 0) in (0, -1)]
        got = [missed(x, h) for t in ts for x in subterms(t) if x.k in ("slice_of", "ref") for h in [e.heap for e in evs] + [o.st.heap]]
    got = [g for g in got if g is not None]
    c.require(bool(got), "WATCH", w, "the changes after the watcher's position are not handed to it", key="missed")
    if not got:
        return
    src, start, full = got[0]
    d = norm(start)
    ps = [x for x in d if isinstance(x, V) and position(x)]
    rest = {x: n for x, n in d.items() if x not in ps}
    zero = not ps  # no position named: from the start
    ok = rest == {"offset": -1} and all(d[x] == 1 for x in ps) and full
    c.require(ok, "WATCH", w, f"the changes handed to a watcher start at {start}"[:160] + ", not right after its position", key="index")
    if ok:
        named = any(b and any(x == const("last_id") for x in subterms(t)) for t, b in F.tr.items())
        c.require(not zero or not named, "WATCH", w, "the position a watcher names is ignored", key="named")
        lo, hi = inside(F, ps)
        c.require(lo, "GONE", w, "a watcher whose position was dropped from the log is served instead of being told to resynchronise", key="old")
        c.require(hi or zero, "GONE", w, "a watcher whose position is not yet in the log is served instead of being told to resynchronise", key="new")
        eps = {x.a[2] for y in (src, *(z for z in start if isinstance(z, V))) for x in subterms(y) if x.k == "attr" and x.a[0] is SELF and x.a[1] in LOG}
        c.require(eps == {ep}, "ATOMIC", w, "a change between reading the log and registering the watcher is lost or repeated", key="register")
        if first:
            c.require(not any(x.kind == "suspend" for x in evs[min(first[0], adds[0]):max(first[0], adds[0])]), "ATOMIC", w, "the watcher can get newer changes before the missed ones", key="order")
    end(c, o, evs, adds, q, w)


def inside(F, ps):
    """facts: offset <= position, position <= offset + len"""
    lo = hi = False
    for (a, b), r in F.rel.items():
        d = norm(ladd(linear(a), linear(b), -1))
        for s, rr in ((1, r), (-1, {{"<": ">", ">": "<"}.get(x, x) for x in r})):
            e = {x: n * s for x, n in d.items()}
            if any(e.get(x) != 1 for x in ps):
                continue
            if not ps and s == 1 and "offset" not in e:
                continue
            rest = {x: n for x, n in e.items() if x not in ps and x is not None}
            k0 = e.get(None, 0)
            if rest == {"offset": -1} and "<" not in rr and (k0 <= 0 or "=" not in rr and k0 <= 1):
                lo = True
            if rest == {"offset": -1, "len": -1} and ">" not in rr and (k0 >= 0 or "=" not in rr and k0 >= -1):
                hi = True
    return lo, hi


def end(c, o, evs, adds, q, w):
    gone = [i for i, e in enumerate(evs) if calls_on(e, "_watchers", ("discard", "remove")) and e.args and e.args[0] == q]
    c.require(bool(gone) and gone[-1] > adds[0], "LEAVE", w, "a watcher that disconnects stays registered", key="leave")
    for e in evs:
        if e.kind == "loop" and e.seg[0] == "while":
            for b in e.bodies:
                stream(c, b, q, e)
    if not any(e.kind == "call" and e.get("name") == "prepare" for e in evs):
        c.fail("WATCH", w, "a registered watcher is not served", key="served")
    gets = [e for e in evs if e.kind == "call" and (e.get("name") or "").startswith("get") and e.callee.k == "attr" and e.callee.a[0] == q]
    failed = any(e.kind == "callraised" for e in evs) or o.kind == "raise"
    c.require(bool(gets) or failed, "WATCH", w, "a watcher is registered but sent nothing", key="stream")


def stream(c, b, q, e):
    got = [i for i, x in enumerate(b.events) if x.kind == "call" and (x.get("name") or "").startswith("get") and x.callee.k == "attr" and x.callee.a[0] == q]
    if not got:
        return
    wr = [i for i, x in enumerate(b.events) if x.kind == "call" and x.get("name") == "write"]
    cut = any(x.kind == "callraised" for x in b.events) or b.kind == "raise"
    if cut and not wr:
        return
    c.require(b.kind in ("next", "continue", "raise"), "STREAM", where(e), f"the watch ends after a change ({b.kind})", key="ends")
    c.require(len(got) == len(wr) and all(i < j for i, j in zip(got, wr)), "STREAM", where(e), "a change taken from the queue is not sent exactly once", key="once")
    for i, j in zip(got, wr):
        x = b.events[j]
        r = b.events[i].result
        ts = list(deep(x.args[0], x.heap))
        hit = any(table(t, x.heap) is not None and table(t, x.heap).get("events") == r for t in ts if t.k == "ref")
        c.require(hit, "STREAM", where(x), "what is sent is not the change that was taken from the queue", key="what")
        c.require(any(t.k == "const" and t.a[0] in (b"\n", "\n") for t in ts), "STREAM", where(x), "a message is not ended by a newline", key="newline")


def writers(c, k, seen):
    """nobody else touches the log"""
    ok = seen
    for f in c.prog.funcs.values():
        if f.qual in ok or "dask_gateway_server" not in f.module.name:
            continue
        mine = f.cls is not None and (f.cls is k or k in f.cls.mro())
        for x in ast.walk(f.node):
            a = None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                a = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.attr in (
                    "append", "pop", "clear", "insert", "extend", "add", "discard", "remove", "update", "setdefault"):
                a = x.func.value
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                a = x.value
            if a is None:
                continue
            owner = mine and isinstance(a.value, ast.Name) and a.value.id == "self" or isinstance(a.value, ast.Attribute) and a.value.attr == "proxy"
            if owner and a.attr in LOG:
                c.fail("LOG", f"{f.module.rel()}:{x.lineno} ({f.name})", f"{a.attr} is changed outside the route changes", key=f"{f.name} {a.attr}")
    c.require(True, "LOG", k.qual, "writers", key="writers")


def run(c):
    c.rule("LOG", "identifiers go up by one, the log grows at its end, and the position of its oldest entry moves with what is dropped")
    c.rule("CHANGE", "each change of the routes is logged once, with what changed")
    c.rule("CAST", "each change is put once into the queue of each watcher")
    c.rule("ATOMIC", "nothing can happen between a change, its log entry and its broadcast, between reading the log and registering, or within a snapshot")
    c.rule("BLOCK", "a change never waits for a watcher")
    c.rule("PRUNE", "the oldest entries are dropped only from a log that reached its bound")
    c.rule("WATCH", "a watcher is handed the changes right after its position, and registered")
    c.rule("GONE", "exactly the watchers whose position is not in the log are told to resynchronise")
    c.rule("SNAP", "a snapshot holds the current routes and the newest identifier")
    c.rule("STREAM", "each batch taken from the queue is sent once, as one line")
    c.rule("LEAVE", "a watcher is deregistered however its request ends")
    k = c.prog.cls("dask_gateway_server.proxy.core", "Proxy")
    seen = initial(c, k) | changes(c, k)
    seen |= handler(c, k)
    writers(c, k, seen)
    c.assumptions += ["asyncio: code between two suspension points is not interrupted; asyncio.Queue is first in first out.",
                      "max_events is at least 1."]
