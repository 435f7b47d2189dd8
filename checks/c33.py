"""C33: the client's option checks agree with the server's.

The fields of a specification are built by the server, published, rebuilt by the
client from what was published, and both checks are followed with an unknown
candidate and with every kind of value a request can carry."""
from sa import web
from sa.interp import Interp
from sa.query import contains, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import CLIENT, KINDS, SERVER, VALUES, Unknown, bounded, exact, fits, get, make, put, same, server_field

RULES = ("TYPE", "BOUNDS", "VALUE", "COMPLETE")


def rebuilt(c, I, st, f):
    """(state, client field) for every way the server field is published and rebuilt"""
    k = c.prog.classes[st.obj(f).cls]
    out, bad = [], []
    build = c.prog.cls(CLIENT, "Field").find_method("_from_spec")
    for o in I.run_function(k.find_method("json_spec"), [], selfv=f, st=st.fork()):
        if o.kind != "ret":
            bad.append(o)
            continue
        for p in I.run_function(build, [o.val], selfv=V("cls", CLIENT + ".Field"), st=o.st.fork()):
            (out if p.kind == "ret" and p.st.obj(p.val) is not None else bad).append((p.st, p.val) if p.kind == "ret" else p)
    c.analysed(*I.inlined)
    return out, bad


def start(c, I):
    """the client's classes as their module defines and registers them"""
    r = I.run_classes(c.prog.modules[CLIENT])
    c.require(len(r) == 1, "PUBLISH", CLIENT, "the client's field classes are registered in more than one way", key="register")
    return r[0]


def symbolic(c, I):
    for kind in ("int", "float"):
        q = fits(c.prog, SERVER, kind).qual
        for s, f, lo, hi in bounded(I, start(c, I), kind, lambda s, d, lo, hi: make(I, s, q, ["f"], dict(default=d, min=lo, max=hi))):
            exact(c, I, s, f, kind, "server", lo, hi)
            got, bad = rebuilt(c, I, s, f)
            c.require(bool(got) and not bad, "PUBLISH", CLIENT + ".Field._from_spec", f"a {kind} field of the server cannot be rebuilt by the client", key=f"{kind}:build")
            for s2, g in got:
                typed(c, s2, g, kind)
                exact(c, I, s2, g, kind, "client", lo, hi)
    for k in KINDS:
        if k.typ in ("int", "float"):
            continue
        for s, f in server_field(I, start(c, I), k)[0]:
            exact(c, I, s, f, k.typ, "server")
            got, bad = rebuilt(c, I, s, f)
            c.require(len(got) == 1 and not bad, "PUBLISH", CLIENT + ".Field._from_spec", f"a {k.typ} field of the server cannot be rebuilt by the client", key=f"{k.typ}:build")
            for s2, g in got:
                typed(c, s2, g, k.typ)
                exact(c, I, s2, g, k.typ, "client")


def typed(c, st, g, kind):
    k = c.prog.classes[st.obj(g).cls]
    c.require(k.is_subclass(CLIENT + ".Field"), "PUBLISH", k.qual, f"a published {kind} field is not rebuilt as a field", key=f"{kind}:class")


def concrete(c, I):
    """both ends, on every value, with known bounds: same answer, same result; and the options object as a whole"""
    st = start(c, I)
    fs = []
    for k in KINDS:
        r, bad = server_field(I, st, k)
        if len(r) != 1:
            c.fail("AGREE", SERVER, f"a {k.typ} field cannot be declared", key=f"{k.name}:declare")
            return
        st, f = r[0]
        fs.append(f)
    r, bad = make(I, st, SERVER + ".Options", fs)
    if len(r) != 1:
        c.fail("AGREE", SERVER, "a specification cannot be declared", key="declare")
        return
    st, O = r[0]
    scls, ccls = c.prog.cls(SERVER, "Options"), c.prog.cls(CLIENT, "Options")
    spec = I.run_function(scls.find_method("get_specification"), [], selfv=O, st=st.fork())
    if [o.kind for o in spec] != ["ret"]:
        c.fail("PUBLISH", scls.qual, "the specification cannot be published", key="spec")
        return
    st, spec = spec[0].st, spec[0].val
    outs = I.run_function(ccls.find_method("_from_spec"), [spec], selfv=V("cls", ccls.qual), st=st.fork())
    ok = [o.kind for o in outs] == ["ret"]
    c.require(ok, "PUBLISH", ccls.qual, "the client cannot rebuild the published specification", key="rebuild")
    if not ok:
        return
    st, C = outs[0].st, outs[0].val
    setm, getm, it = (ccls.find_method(n) for n in ("__setitem__", "__getitem__", "__iter__"))
    setattrm = ccls.find_method("__setattr__")
    parse = scls.find_method("parse_options")

    def current(s):
        d = {}
        for k in KINDS:
            o = I.run_function(getm, [const(k.name)], selfv=C, st=s.fork())
            d[k.name] = get(o[0].st, o[0].val) if [x.kind for x in o] == ["ret"] else Unknown
        return d
    base = {k.name: k.default for k in KINDS}
    c.require(same(current(st), base), "DEFAULTS", ccls.qual, f"the client's options start as {current(st)!r}, not as the server's defaults", key="defaults")
    o = I.run_function(it, [], selfv=C, st=st.fork())
    for k in KINDS:
        for v in VALUES:
            if k.typ == "float" and type(v) is int and abs(v) > 2**53:
                continue
            acc, conv = k.accept(v)
            for how, m in (("item", setm), ("attribute", setattrm)):
                s = st.fork()
                outs = I.run_function(m, [const(k.name), put(s, v)], selfv=C, st=s)
                c.analysed(*I.inlined)
                c.paths += len(outs)
                good = [x for x in outs if x.kind == "ret"]
                c.require(bool(good) == acc and len(outs) == 1, "AGREE", m.qual,
                          f"setting the {how} of a {k.typ} option (bounds {k.lo}, {k.hi}) to {v!r} is {'accepted' if good else 'refused'} by the client", key=f"client:{k.name}:{how}")
                for x in outs:
                    try:
                        now = current(x.st)
                    except Unknown as e:
                        now = None
                    want = dict(base)
                    if acc:
                        want[k.name] = conv
                    c.require(now is not None and same(now, want), "AGREE", m.qual, f"after setting a {k.typ} option to {v!r} the client's options are {now!r}", key=f"set:{k.name}:{how}")
                    if x.kind == "ret" and acc and now is not None:
                        s2 = x.st.fork()
                        p = I.run_function(parse, [put(s2, now)], selfv=O, st=s2)
                        same_there = [y.kind for y in p] == ["ret"]
                        try:
                            same_there = same_there and same(get(p[0].st, p[0].val), now)
                        except Unknown:
                            same_there = False
                        c.require(same_there, "AGREE", parse.qual, f"the server does not take the value {now.get(k.name)!r} the client accepted for a {k.typ} option as it is", key=f"server:{k.name}")
            s = st.fork()
            p = I.run_function(parse, [put(s, {k.name: v})], selfv=O, st=s)
            c.require(any(y.kind == "ret" for y in p) == acc, "AGREE", parse.qual, f"the server {'refuses' if acc else 'accepts'} {v!r} for a {k.typ} option", key=f"request:{k.name}")
    for m, args in ((setm, [const("zz"), const(1)]), (setattrm, [const("zz"), const(1)]), (getm, [const("zz")])):
        s = st.fork()
        outs = I.run_function(m, args, selfv=C, st=s)
        c.require(all(x.kind != "ret" for x in outs), "UNKNOWN", m.qual, "the client accepts an option the server did not declare", key=m.name)
    return I, st, C


def wires(c):
    """the published specification is what the client rebuilds, and what the options hold is what is submitted"""
    rs = [r for r in web.routes(c.prog, c.types) if r.method.upper() == "GET" and r.path.rstrip("/").endswith("/options") and r.handler is not None]
    c.require(bool(rs), "WIRE", "routes", "no route publishes the specification", key="route")
    keys = set()
    for r in rs:
        I = web.interp(c.prog, c.types)
        n = 0
        for o in I.run_value(r.handler, [V("param", "request")], r.state):
            specs = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") in ("get_specification", "get_cluster_options")]
            for e in events(o.st.trace):
                if e.kind == "call" and e.get("name") == "json_response" and e.args:
                    d = o.st.obj(e.args[0])
                    for l in (d.layers if d is not None and d.kind == "dict" else ()):
                        if l[0] == "kv" and l[1].k == "const" and any(contains(l[2], lambda t, q=q: t is q.result, o.st.heap) for q in specs):
                            keys.add(l[1].a[0])
                            n += 1
        c.analysed(*I.inlined)
        c.require(n >= 1, "WIRE", r.path, "the options route does not answer with the backend's specification", key="publish")
    cls = c.prog.cls("dask_gateway.client", "Gateway")
    m = cls.find_method("_cluster_options")
    S = V("self", cls.qual)
    I = Interp(c.prog, c.types, opaque=lambda f, rc: f.name in ("_request", "_from_spec", "_config_cluster_options", "update"))
    I.term_types[S] = cls.qual
    n = 0
    for o in I.run_function(m, [const(False)], selfv=S):
        if o.kind != "ret":
            continue
        es = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") == "_from_spec"]
        n += 1
        ok = len(es) == 1 and o.val is es[0].result
        c.require(ok, "WIRE", m.qual, "the client's options are not built from the published specification", key="rebuild")
        if ok:
            a = es[0].args[0]
            used = {t.a[1].a[0] if t.a[1].k == "const" else None for t in [a] if t.k == "item"}
            c.require(not used or used <= keys, "WIRE", where(es[0]), f"the client reads {sorted(map(str, used))}, the server publishes {sorted(keys)}", key="key")
            c.require(contains(a, lambda t: t.k == "item" and t.a[1].k == "const" and t.a[1].a[0] in keys), "WIRE", where(es[0]), f"the client does not read the published specification ({show(a)[:60]})", key="read")
    c.analysed(*I.inlined)
    c.require(n >= 1, "WIRE", m.qual, "the client does not read the specification", key="none")


def submit(c, cls, I, st, C):
    """what a client's options hold is what is submitted, whatever was set before"""
    m = cls.find_method("_submit")
    S = V("self", cls.qual)
    J = Interp(c.prog, c.types, opaque=lambda f, rc: f.name in ("_request", "_config_cluster_options"))
    J.term_types[S] = cls.qual
    base = {k.name: k.default for k in KINDS}
    setm = c.prog.cls(CLIENT, "Options").find_method("__setitem__")
    n = 0
    for change, extra in (({}, {}), ({"i": 4}, {}), ({"f": 2, "m": {"q": 2}}, {}), ({"c": "y"}, {"i": 3}), ({"b": False}, {"other": 1})):
        s = st.fork()
        for k, v in change.items():
            s = [o for o in J.run_function(setm, [const(k), put(s, v)], selfv=C, st=s) if o.kind == "ret"][0].st
        want = {**base, **change, **extra}
        if "f" in change:
            want["f"] = float(want["f"])
        old = len(events(s.trace))
        for o in J.run_function(m, [], selfv=S, kwargs={"cluster_options": C, **{k: put(s, v) for k, v in extra.items()}}, st=s):
            for e in events(o.st.trace)[old:]:
                if e.kind == "call" and e.get("name") == "_request":
                    n += 1
                    try:
                        got = get_at(e, (e.get("kwargs") or {}).get("json"))
                    except Unknown as u:
                        got = u
                    c.require(isinstance(got, dict) and any(same(v, want) for v in got.values()), "WIRE", where(e), f"the options {want!r} are submitted as {got!r}", key="submit")
    c.analysed(*J.inlined)
    c.require(n >= 5, "WIRE", m.qual, "the client does not submit its options", key="submit:none")


class At:
    def __init__(self, heap):
        self.heap = heap

    def obj(self, v):
        return self.heap.get(v.a[0]) if isinstance(v, V) and v.k == "ref" else None


def get_at(ev, v):
    if v is None:
        raise Unknown("nothing")
    return get(At(ev.heap), v)


def run(c):
    c.rule("TYPE", "on each side, every way a field's check accepts an unknown candidate establishes the declared type")
    c.rule("BOUNDS", "on each side it establishes the declared choices, or the unknown bounds the server was declared with (for the client: after publication and rebuilding)")
    c.rule("VALUE", "on each side the accepted value is the candidate, as a float for a float field")
    c.rule("COMPLETE", "on each side a refusal has found another type, or a value outside the bounds: so both sides accept exactly the same values")
    c.rule("PUBLISH", "every field class the server can declare publishes a specification the client rebuilds a field from")
    c.rule("DEFAULTS", "the client's options start with the server's defaults")
    c.rule("AGREE", "for known bounds and every kind of value: the client accepts exactly what the server accepts, converts it alike, keeps its old value otherwise, and the server takes the result as it is")
    c.rule("UNKNOWN", "the client has no option that was not published")
    c.rule("WIRE", "the client rebuilds what the options route publishes and submits what its options hold")
    symbolic(c, Interp(c.prog, c.types))
    w = concrete(c, Interp(c.prog, c.types))
    wires(c)
    if w:
        submit(c, c.prog.cls("dask_gateway.client", "Gateway"), *w)
    known = {k.typ for k in KINDS}
    base = c.prog.cls(SERVER, "Field")
    for k in base.subclasses():
        m = k.methods.get("json_type_spec")
        if m is None:
            continue
        I = Interp(c.prog, c.types)
        for o in I.run_function(m, [], selfv=V("param", "f")):
            d = o.st.obj(o.val) if o.kind == "ret" else None
            t = [l[2].a[0] for l in (d.layers if d is not None and d.kind == "dict" else ()) if l[0] == "kv" and l[1] is const("type") and l[2].k == "const"]
            c.require(bool(t) and t[-1] in known, "PUBLISH", k.qual, f"the field class {k.name} publishes a type this analysis has no client field for", key=f"unknown:{k.name}")
    for rid, n in (("TYPE", 12), ("BOUNDS", 12), ("AGREE", 800), ("PUBLISH", 12), ("WIRE", 4), ("UNKNOWN", 3)):
        c.floor(rid, n)
