"""C32: cluster options reach the configuration only after validation.

Every field class is followed with an unknown candidate and unknown bounds (what
does acceptance establish?), then a whole specification is built and requests
are parsed, transformed and turned into a configuration."""
from sa import web
from sa.interp import Interp
from sa.query import contains, is_log, kwarg, where
from sa.state import events
from sa.values import NONE, V, const, show
from .optw import CLS, KINDS, SERVER, VALUES, Unknown, bounded, exact, fits, get, make, put, same, server_field

USER = V("param", "user")


def fields(c, I):
    for kind in CLS:
        st = I.new_state()
        if kind in ("int", "float"):
            q = fits(c.prog, SERVER, kind).qual
            n = 0
            for s, f, lo, hi in bounded(I, st, kind, lambda s, d, lo, hi: make(I, s, q, ["f"], dict(default=d, min=lo, max=hi))):
                exact(c, I, s, f, kind, "server", lo, hi)
                n += 1
            c.require(n >= 4, "TYPE", q, "a number field cannot be declared with bounds", key=f"{kind}:build")
        else:
            k = next(k for k in KINDS if k.typ == kind)
            for s, f in server_field(I, st, k)[0]:
                exact(c, I, s, f, kind, "server")


def declared(c, I):
    """the default of a field is checked like a requested value"""
    for k in KINDS:
        for v in VALUES:
            st = I.new_state()
            if v is None and k.typ in ("select", "mapping"):
                continue  # no default: documented to mean the first choice, or an empty mapping
            if k.typ == "mapping" and isinstance(v, dict) or k.typ == "float" and type(v) is int and abs(v) > 2**53:
                continue
            ok, bad = server_field(I, st, k, v)
            want = k.accept(v)[0]
            c.require(bool(ok) == want and bool(bad) != want, "DEFAULT", fits(c.prog, SERVER, k.typ).qual,
                      f"a {k.typ} field (bounds {k.lo}, {k.hi}) {'can' if ok else 'cannot'} be declared with the default {v!r}", key=f"{k.typ}:{k.name}")


def world(c, I):
    st = I.new_state()
    fs = []
    for k in KINDS:
        r, bad = server_field(I, st, k)
        c.require(len(r) == 1 and not bad, "PARSE", fits(c.prog, SERVER, k.typ).qual, f"a {k.typ} field with a valid default cannot be declared", key=f"build:{k.name}")
        if not r:
            return None
        st, f = r[0]
        fs.append(f)
    r, bad = make(I, st, SERVER + ".Options", fs)
    c.require(len(r) == 1, "PARSE", SERVER + ".Options", "the specification cannot be built", key="build")
    return r[0] if r else None


def values(c, I, st, O):
    cls = c.prog.cls(SERVER, "Options")
    parse, conf = cls.find_method("parse_options"), cls.find_method("get_configuration")
    base = {k.name: k.default for k in KINDS}
    by = {k.name: k for k in KINDS}
    reqs = [{}, dict(base), None, [], "s", 5, [["i", 2]], {"zz": 1}, {"i": 2, "zz": None}, {"worker_i": 2}, {"label": "x"}]
    reqs += [{k.name: v} for k in KINDS for v in VALUES]
    reqs += [{"i": 4, "f": 2, "c": "y", "m": {}, "s": ""}, {"i": 4, "f": 3, "c": "y"}, {"c": "q", "i": 1}]
    for req in reqs:
        if isinstance(req, dict) and any(isinstance(v, int) and abs(v) > 2**53 and by.get(n) is not None and by[n].typ == "float" for n, v in req.items()):
            continue
        want = None
        if isinstance(req, dict) and set(req) <= set(base):
            acc = {n: by[n].accept(req.get(n, base[n])) for n in base}
            if all(a for a, _ in acc.values()):
                want = {n: v for n, (_, v) in acc.items()}
        s = st.fork()
        outs = I.run_function(parse, [put(s, req)], selfv=O, st=s)
        c.analysed(*I.inlined)
        c.paths += len(outs)
        what = f"the request {req!r}"
        if want is None:
            c.require(all(o.kind != "ret" for o in outs), "REFUSE", parse.qual, f"{what} is not refused", key=f"refuse:{sorted(req) if isinstance(req, dict) else req!r}")
            continue
        c.require([o.kind for o in outs] == ["ret"], "PARSE", parse.qual, f"{what} is refused although every value is valid", key=f"accept:{sorted(req)}")
        for o in outs:
            if o.kind != "ret":
                continue
            try:
                got = get(o.st, o.val)
            except Unknown as e:
                got = f"undetermined {show(o.val)}"
            c.require(same(got, want), "PARSE", parse.qual, f"{what} is stored as {got!r}, not the validated values and the defaults", key=f"parse:{sorted(req)}")
            if not same(got, want):
                continue
            cfg = {by[n].target or n: (by[n].options[v] if by[n].typ == "select" else v) for n, v in want.items()}
            for p in I.run_function(conf, [o.val, USER], selfv=O, st=o.st.fork()):
                try:
                    g = get(p.st, p.val) if p.kind == "ret" else f"an exception {show(p.val)}"
                except Unknown:
                    g = f"undetermined {show(p.val)}"
                c.require(same(g, cfg), "CONFIG", conf.qual, f"the options {want!r} lead to the configuration {g!r}", key=f"config:{sorted(req)}")


def handler(c, I, st, O):
    """an administrator's handler sees the transformed, validated options and its result is the configuration"""
    cls = c.prog.cls(SERVER, "Options")
    H = V("param", "handler")
    st = st.fork()
    st.facts = st.facts.assume(V("cmp", "is", H, NONE), False)
    conf = cls.find_method("get_configuration")
    # one function with two parameters, and one with one, written in the analysed language
    o0 = st.obj(O)
    fs = [v for v in o0.args]
    outs = I.run_value(V("cls", cls.qual), list(fs), st, {"handler": H}, awaited=False)
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        opts = put(o.st, {k.name: k.default for k in KINDS})
        for p in I.run_function(conf, [opts, USER], selfv=o.val, st=o.st.fork()):
            n += 1
            calls = [e for e in events(p.st.trace) if e.kind == "call" and e.callee is H]
            good = p.kind == "ret" and len(calls) == 1 and p.val is calls[0].result
            c.require(good, "HANDLER", conf.qual, "the configuration is not what the handler returned", key="handler")
            if not good:
                continue
            a = calls[0].args
            c.require(len(a) == 1 or len(a) == 2 and a[1] is USER, "HANDLER", conf.qual, "the handler is not given the options (and the user)", key="args")
            want = {k.target or k.name: (k.options[k.default] if k.typ == "select" else k.default) for k in KINDS}
            for key, v in want.items():
                seen = read(I, calls[0], p, a[0], key)
                c.require(seen is not None and same(seen, v), "HANDLER", conf.qual, f"the handler sees {seen!r} for {key}, not {v!r}", key=f"see:{key}")
    c.require(n >= 1, "HANDLER", conf.qual, "no path calls the handler", key="never")


def read(I, ev, p, v, key):
    o = p.st.obj(v)
    try:
        if o is not None and o.kind == "inst":
            m = I.prog.classes[o.cls].find_method("__getitem__")
            outs = I.run_function(m, [const(key)], selfv=v, st=p.st.fork())
            return get(outs[0].st, outs[0].val) if len(outs) == 1 and outs[0].kind == "ret" else None
        return get(p.st, v)[key]
    except (Unknown, KeyError):
        return None


def process(c):
    """every failure of the options becomes the public error; otherwise parse -> configuration -> checked configuration object"""
    cls = c.prog.cls("dask_gateway_server.backends.base", "Backend")
    m = cls.find_method("process_cluster_options")
    S = V("self", cls.qual)
    REQ = V("param", "request")
    pub = {k.qual for k in c.prog.classes.values() if k.name == "PublicException" or any(b.name == "PublicException" for b in k.mro())}
    n = 0
    for failing in (None, "parse_options", "get_configuration", "get_cluster_options", "config"):
        def kind(ev):
            if ev.get("name") in ("parse_options", "get_configuration", "get_cluster_options"):
                return ev.get("name")
            return "config" if "cluster_config_class" in show(ev.get("callee") or NONE) else None

        def raises(I, st, ev):
            if kind(ev) == failing and failing:
                return ["Exception", "ValueError", "TypeError", "traitlets.TraitError"]
        I = Interp(c.prog, c.types, opaque=lambda f, r: f.name in ("parse_options", "get_configuration", "get_cluster_options"), raises=raises)
        I.term_types[S] = cls.qual
        outs = I.run_function(m, [USER, REQ], selfv=S)
        c.analysed(*I.inlined)
        c.paths += len(outs)
        for o in outs:
            calls = {}
            for e in events(o.st.trace):
                if e.kind == "call" and kind(e):
                    calls.setdefault(kind(e), []).append(e)
            if o.kind != "ret":
                t = o.st.obj(o.val)
                q = o.val.a[0] if o.val.k == "exc" else t.cls if t is not None and t.kind == "inst" else None
                c.require(q in pub or show(o.val).startswith("PublicException"), "PUBLIC", m.qual, f"a failure of {failing} leaves as {show(o.val)[:60]}, not as an error for the client", key=f"public:{failing}")
                n += 1
                continue
            if failing and any(e.kind == "callraised" and kind(e.call) == failing for e in events(o.st.trace)):
                c.fail("PUBLIC", m.qual, f"a failure of {failing} is swallowed", key=f"swallowed:{failing}")
                continue
            if failing:
                continue
            P, G, K = (calls.get(x, []) for x in ("parse_options", "get_configuration", "config"))
            ok = len(P) == 1 and P[0].args[:1] and P[0].args[0] is REQ
            c.require(bool(ok), "CHAIN", m.qual, "the request is not parsed exactly once", key="parse")
            ok = ok and len(G) >= 1 and G[-1].args[0] is P[0].result and G[-1].args[1] is USER
            c.require(bool(ok), "CHAIN", m.qual, "the configuration is not computed from the parsed options and the user", key="config")
            if not ok:
                continue
            k = K[-1] if K else None
            c.require(k is not None, "CHAIN", m.qual, "no configuration object is built", key="object")
            if k is None:
                continue
            kw = dict(k.get("kwargs") or {})
            c.require(any(a in ("parent", "config") and contains(v, lambda t: t is S) for a, v in kw.items()) or any(contains(v, lambda t: t is S) for v in k.args or ()), "CHAIN", m.qual,
                      "the configuration object does not have the gateway's configuration: what the administrator set for clusters is ignored", key="parent")
            src = [x for a, v in kw.items() if a not in ("parent", "config") for x in parts(k, v)] + list(k.args or ())
            c.require(any(contains(v, lambda t: t is G[-1].result, o.st.heap) for v in src + [V("x", *[x for x in map(_v, [k.result]) if x])]), "CHAIN", m.qual,
                      "the configuration object is not built from the computed configuration", key="overrides")
            extra = [v for v in src if not contains(v, lambda t: t is G[-1].result, o.st.heap)]
            c.require(not extra, "CHAIN", m.qual, f"something else also determines the configuration: {[show(v)[:40] for v in extra]}", key="extra")
            v = o.val
            c.require(v.k == "tuple" and len(v.a) == 2 and v.a[0] is P[0].result and v.a[1] is k.result, "CHAIN", m.qual, "what is returned is not the parsed options with the configuration object", key="return")
            n += 1
    c.require(n >= 10, "PUBLIC", m.qual, "the failures of option processing could not be followed", key="count")


def _v(x):
    return x if isinstance(x, V) else None


def parts(ev, v):
    """what a keyword argument (or a ** argument) is merged from"""
    out = []
    for x in v if isinstance(v, (tuple, list)) else [v]:
        o = ev.heap.get(x.a[0]) if isinstance(x, V) and x.k == "ref" else None
        if o is None or o.kind != "dict":
            out.append(x)
            continue
        for l in o.layers:
            out += parts(ev, l[1]) if l[0] == "src" else [l[2]] if l[0] == "kv" else [V("tuple", *[y for e in l[1] for y in e[:2] if isinstance(y, V)])] if l[0] == "rep" else []
    return out


def creation(c):
    """no backend does anything for a request whose options are refused, and it creates what the processed options say"""
    base = c.prog.cls("dask_gateway_server.backends.base", "Backend")
    OPT, CFG = V("param", "parsed options"), V("param", "configuration")
    REQ = V("param", "request")
    n = 0
    for cls in [base] + list(base.subclasses()):
        m = cls.methods.get("start_cluster")
        if m is None:
            continue
        for failing in (False, True):
            S = V("self", cls.qual)

            def res(I, st, name, func, args, kw):
                if name == "process_cluster_options":
                    return V("never") if failing else V("tuple", OPT, CFG)

            def raises(I, st, ev):
                if failing and ev.get("name") == "process_cluster_options":
                    return ["Exception"]
            I = Interp(c.prog, c.types, opaque=lambda f, r: f.name == "process_cluster_options" or f.cls is not None and f.cls.name in ("DataManager", "WorkQueue"), results=res, raises=raises)
            I.term_types[S] = cls.qual
            outs = I.run_function(m, [USER, REQ], selfv=S)
            if all(o.kind != "ret" and "NotImplementedError" in show(o.val) for o in outs):
                continue
            n += 1
            c.analysed(*I.inlined)
            c.paths += len(outs)
            for o in outs:
                acts = [e for e in events(o.st.trace) if e.kind in ("call", "setattr", "setitem") and not is_log(e)]
                proc = [i for i, e in enumerate(acts) if e.get("name") == "process_cluster_options"]
                c.require(bool(proc), "BEFORE", m.qual, "a cluster is created without processing its options", key=f"{cls.name}:none")
                if not proc:
                    continue
                early = [e for e in acts[:proc[0]] if effect(e)]
                c.require(not early, "BEFORE", where(early[0]) if early else m.qual, "something is done for a cluster before its options are known to be valid", key=f"{cls.name}:early")
                e = acts[proc[0]]
                kw = e.get("kwargs") or {}
                a = list(e.args or ()) + list(kw.values())
                c.require(USER in a and REQ in a, "BEFORE", where(e), "it is not the request's options that are processed for the user", key=f"{cls.name}:args")
                if failing:
                    late = [x for x in acts[proc[0] + 1:] if effect(x)]
                    c.require(o.kind != "ret" and not late, "BEFORE", m.qual, "the refusal of the options does not end the request", key=f"{cls.name}:refused")
                    continue
                if o.kind != "ret":
                    continue
                made = [x for x in acts[proc[0] + 1:] if x.kind == "call" and x.get("name") in ("create_cluster", "create_namespaced_custom_object")]
                c.require(bool(made), "CREATE", m.qual, "no cluster is recorded", key=f"{cls.name}:made")
                for x in made:
                    vals = list(x.args or ()) + list((x.get("kwargs") or {}).values())
                    for what, t in (("options", OPT), ("configuration", CFG)):
                        c.require(any(contains(v, lambda y, t=t: y is t, x.heap) for v in vals), "CREATE", where(x), f"the recorded cluster does not carry the processed {what}", key=f"{cls.name}:{what}")
                    c.require(not any(contains(v, lambda y: y is REQ, x.heap) for v in vals), "CREATE", where(x), "the recorded cluster carries options as they were requested, not as they were validated", key=f"{cls.name}:raw")
    c.require(n >= 4, "BEFORE", base.qual, "no backend creates clusters", key="count")


def effect(e):
    return e.kind in ("setattr", "setitem") or e.get("name") not in ("len", "dict", "list", "str", "format", "split", "get") and not (e.get("func") is None and e.callee.k in ("builtin", "cls"))


def route(c):
    """POST of a cluster: the requested options are what the backend is asked for, and a refusal is a client error"""
    rs = [r for r in web.routes(c.prog, c.types) if r.method.upper() == "POST" and r.path.rstrip("/").endswith("/clusters") and r.handler is not None]
    c.require(bool(rs), "ROUTE", "routes", "there is no route that creates clusters", key="none")
    for r in rs:
        def raises(I, st, ev):
            if ev.get("name") == "start_cluster":
                return [p for p in pubs]
        pubs = [k.qual for k in c.prog.classes.values() if k.name == "PublicException"]
        I = web.interp(c.prog, c.types, raises=raises)
        outs = I.run_value(r.handler, [V("param", "request")], r.state)
        c.analysed(*I.inlined)
        c.paths += len(outs)
        n = 0
        for o in outs:
            tr = events(o.st.trace)
            evs = [e for e in tr if e.kind == "call" and e.get("name") == "start_cluster"]
            if not evs:
                continue
            n += 1
            e = evs[0]
            if any(x.kind == "callraised" and x.call is e for x in tr):
                code = denial_code(c, o)
                c.require(code is not None and 400 <= code < 500, "ROUTE", where(e), f"a refusal of the options is answered with {show(o.val)[:60]}, not with a client error", key="error")
            c.require(len(evs) == 1, "ROUTE", where(e), "one request starts several clusters", key="once")
        c.require(n >= 2, "ROUTE", r.path, "the route does not start a cluster", key="start")


CODES = {"HTTPUnprocessableEntity": 422, "HTTPBadRequest": 400, "HTTPConflict": 409, "HTTPForbidden": 403, "HTTPNotFound": 404}


def denial_code(c, o):
    for n, code in CODES.items():
        if n in show(o.val):
            return code
    import re
    m = re.search(r"status=(\d+)", show(o.val))
    return int(m.group(1)) if m else None


def run(c):
    c.rule("TYPE", "every way a field's check accepts an unknown candidate establishes that the candidate has the declared type")
    c.rule("BOUNDS", "it also establishes that the candidate is one of the choices, or at least the unknown minimum and at most the unknown maximum, which excludes values that compare as neither")
    c.rule("VALUE", "and the accepted value is the candidate itself (as a float for a float field)")
    c.rule("COMPLETE", "every way it refuses a candidate has found it of another type, below the minimum or above the maximum")
    c.rule("DEFAULT", "a default is checked as a requested value is")
    c.rule("REFUSE", "a request that is not a mapping, names an unknown option or holds an invalid value is refused as a whole")
    c.rule("PARSE", "a valid request is stored as its validated values, with the declared defaults for the rest")
    c.rule("CONFIG", "the configuration is the stored values under their targets, selections by their meaning, and nothing else")
    c.rule("HANDLER", "a handler is given exactly these values, and what it returns is the configuration")
    c.rule("CHAIN", "a backend parses the request, computes the configuration from the parsed options, and builds the configuration object from that alone")
    c.rule("PUBLIC", "every failure of any of these steps leaves as the error that is shown to the client")
    c.rule("BEFORE", "nothing is done for a new cluster before its options are processed, nor after they are refused")
    c.rule("CREATE", "a new cluster is recorded with the processed options and configuration")
    c.rule("ROUTE", "the request that creates a cluster answers such an error with a client error")
    I = Interp(c.prog, c.types)
    fields(c, I)
    declared(c, Interp(c.prog, c.types))
    I = Interp(c.prog, c.types)
    w = world(c, I)
    if w:
        values(c, I, *w)
        handler(c, I, *w)
    process(c)
    creation(c)
    route(c)
    for rid, n in (("TYPE", 6), ("BOUNDS", 6), ("PARSE", 100), ("REFUSE", 100), ("CONFIG", 50), ("HANDLER", 10), ("CHAIN", 4), ("BEFORE", 4), ("CREATE", 4), ("ROUTE", 2)):
        c.floor(rid, n)
