"""C17, the backends: status reports are aligned with the objects asked about, and mean what they say."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import ext_name, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from .dblife import DB, SELF

IDS = ("pid", "job_id", "app_id", "container_id")


def scene(I, kind, f, started):
    """two objects of distinct names, with what their start reported"""
    xs = [V("param", "o1"), V("param", "o2")]
    st = I.new_state()
    store = dict(st.store)
    for i, x in enumerate(xs):
        I.term_types[x] = DB + "." + kind
        layers = tuple(("kv", const(k), own_id(i)) for k in IDS) if started[i] else ()
        store[(x, "state")] = st.alloc(Obj("dict", layers=layers))
        store[(x, "name")] = const(f"<name{i}>")
        if kind == "Worker":
            h = V("param", f"home{i}")
            I.term_types[h] = DB + ".Cluster"
            store[(x, "cluster")] = h
            store[(h, "name")] = const(f"<home{i}>")
    lst = st.alloc(Obj("list", lk="list", segs=tuple(("one", x) for x in xs)))
    st.store = store
    return st, lst, xs


def own_id(i):
    return const(f"<id{i}>")


def tokens_of(i):
    return {own_id(i), const(f"<name{i}>"), V("param", f"o{i + 1}"), V("param", f"home{i}"), const(f"<home{i}>")}


def evalb(v, leaf):
    """three-valued value of a condition; leaf(term) may give a constant"""
    if v.k == "const":
        return "<None>" if v.a[0] is None else v.a[0]
    x = leaf(v)
    if x is not None:
        return x
    if v.k == "str" and len(v.a) == 1:
        return evalb(v.a[0], leaf)
    if v.k == "not":
        r = evalb(v.a[0], leaf)
        return None if r is None else not r
    if v.k == "oneof":
        x = evalb(v.a[0], leaf)
        if x is None:
            return None
        ys = [evalb(y, leaf) for y in v.a[1:]]
        return True if x in [y for y in ys if y is not None] else (None if None in ys else False)
    if v.k == "cmp":
        op, a, b = v.a
        p = evalb(a, leaf)
        if op in ("in", "not in") and b.k in ("tuple", "k"):
            ys = [evalb(y, leaf) for y in b.a if isinstance(y, V)]
            if p is None or None in ys:
                return None
            return (p in ys) == (op == "in")
        q = evalb(b, leaf)
        if p is None or q is None:
            return None
        if op in ("==", "is"):
            return p == q
        if op in ("!=", "is not"):
            return p != q
        return None
    if v.k == "all":
        rs = [evalb(y, leaf) for y in v.a]
        return False if False in rs else (None if None in rs else True)
    return None


def consistent(facts, leaf):
    for t, b in facts.tr.items():
        r = evalb(t, leaf)
        if r is not None and bool(r) != b:
            return False
    for t, d in facts.dom.items():
        x = leaf(t)
        if x is not None and all(evalb(y, leaf) is not None and evalb(y, leaf) != x for y in d):
            return False
    for t, d in facts.ne.items():
        x = leaf(t)
        if x is not None and any(evalb(y, leaf) == x for y in d):
            return False
    return True


def result(o):
    r = o.st.obj(o.val) if o.val is not None else None
    if r is None or r.kind != "list":
        return None
    if any(g[0] != "one" for g in r.segs):
        raise Broken("the reported statuses are not resolved")
    return [g[1] for g in r.segs]


def same_home(o):
    return any(t.k == "cmp" and t.a[0] == "==" and b and {x for x in t.a[1:]} == {V("param", "home0"), V("param", "home1")} for t, b in o.st.facts.tr.items())


def align(c, k, m, f, kind):
    n = 0
    for started in ((True, True), (True, False), (False, True)):
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("is_running", "async_apply", "_get_app_client", "parse_job_states"), hints={("Worker", "cluster", 0): DB + ".Cluster"})
        I.term_types[SELF] = k.qual
        st, lst, xs = scene(I, kind, f, started)
        outs = I.run_function(f, [lst], st=st, selfv=SELF)
        w = f"{f.module.rel()}:{f.line} ({k.name}.{m})"
        for o in outs:
            c.paths += 1
            if o.kind == "raise":
                soft = any(e.kind in ("raise", "callraised") and e.kind == "raise" for e in walk_events(events(o.st.trace)))
                c.require(soft, "ALIGN", w, "the status of the other objects is lost when one has not been started", key=f"{k.name} {m} raise {started}")
                continue
            r = result(o)
            n += 1
            ok = r is not None and len(r) == 2
            c.require(ok, "ALIGN", w, f"asked about two objects, the backend reports {'no list' if r is None else len(r)}", key=f"{k.name} {m} length")
            if not ok:
                continue
            for i in (0, 1):
                if not started[i]:
                    continue
                j = 1 - i
                v = r[i]
                terms = set(subterms(v))
                facts = set()
                if v.k == "const":
                    facts = {x for t in list(o.st.facts.tr) + list(o.st.facts.dom) + list(o.st.facts.ne) for x in subterms(t)}
                mine = tokens_of(i) & (terms | facts | heap_terms(o, v)) - {const(f"<home{i}>"), V("param", f"home{i}")}
                c.require(bool(mine), "ALIGN", w, f"the status reported for object {i + 1} does not depend on that object: {show(v)[:70]}", key=f"{k.name} {m} own")
                other = (tokens_of(j) & terms) - ({V("param", f"home{j}"), const(f"<home{j}>")} if same_home(o) else set())
                other = {x for x in other if not whole(v, x, o)}
                c.require(not other, "ALIGN", w, f"the status reported for object {i + 1} is that of another: {show(v)[:70]}", key=f"{k.name} {m} other")
            meaning(c, k, m, w, o, r, started)
    return n


def heap_terms(o, v):
    return set()


def whole(v, x, o):
    """x only occurs in the request made for all objects at once, not in the selection"""
    sel = [t for t in subterms(v) if t.k == "item" and isinstance(t.a[1], V) and t.a[1].k == "const"]
    return bool(sel) and all(x not in set(subterms(t.a[1])) for t in sel) and v.k == "item" and v.a[1] is not x


YARN = {"dead": ("FAILED", "KILLED", "FINISHED"), "alive": ("NEW", "NEW_SAVING", "SUBMITTED", "ACCEPTED", "RUNNING")}
SLURM = {"dead": ("F", "CD", "CA", "TO", "NF", "DL", "PR"), "alive": ("R", "PD", "CF")}
PBS = {"dead": ("F", "X"), "alive": ("R", "Q", "H")}


def meaning(c, k, m, w, o, r, started):
    names = {x.name for x in k.mro()}
    for i in (0, 1):
        if not started[i]:
            continue
        v = r[i]
        if "YarnBackend" in names and m == "do_check_clusters":
            for want, states in YARN.items():
                for s in states:
                    leaf = lambda t, s=s, i=i: s if own_id(i) in set(subterms(t)) and t.k == "attr" and t.a[1] == "state" else None
                    expect(c, k, m, w, o, v, leaf, want, f"its application is {s}")
        elif "YarnBackend" in names:
            for want, b in (("alive", True), ("dead", False)):
                leaf = lambda t, b=b, i=i: b if t.k == "cmp" and t.a[0] == "in" and t.a[1] == own_id(i) and asked(t, i, o) else None
                expect(c, k, m, w, o, v, leaf, want, "its container is%s listed for its own application" % ("" if b else " not"))
        elif "InProcessBackend" in names:
            for want, states in (("dead", ("closed",)), ("alive", ("running", "init", "created"))):
                for s in states:
                    def leaf(t, s=s, i=i):
                        if ext_name(t) and "Status." in ext_name(t):
                            return ext_name(t).split(".")[-1]
                        if t.k == "attr" and t.a[1] == "status":
                            return s
                        if t.k == "attr" and t.a[0].k in ("ext", "glob") and show(t.a[0]).split(".")[-1] == "Status":
                            return t.a[1]
                        if t.k == "item" and const(f"<name{i}>") in t.a:
                            return "an object"
                        return None
                    expect(c, k, m, w, o, v, leaf, want, f"it is {s}")
        elif "LocalBackend" in names:
            for want, b in (("alive", True), ("dead", False)):
                leaf = lambda t, b=b, i=i: b if t.k == "call" and show(t.a[0]).split(".")[-1] == "is_running" and own_id(i) in t.a[1] else None
                expect(c, k, m, w, o, v, leaf, want, "its process is%s running" % ("" if b else " not"))
        elif "JobQueueBackend" in names and k.name != "JobQueueBackend":
            for want, b, text in (("alive", True, "its job is listed as active"), ("dead", False, "its job is listed as finished"), ("dead", None, "its job is not listed")):
                def leaf(t, b=b, i=i):
                    if t.k == "item" and t.a[1] == own_id(i):
                        return "<missing>" if b is None else b
                    if t.k == "cmp" and t.a[0] == "in" and t.a[1] == own_id(i):
                        return b is not None
                    return None
                expect(c, k, m, w, o, v, leaf, want, text)


def asked(t, i, o):
    """the membership test is about the containers of the object's own application"""
    return V("param", f"home{i}") in set(subterms(t)) or same_home(o)


def expect(c, k, m, w, o, v, leaf, want, text):
    if not consistent(o.st.facts, leaf):
        return
    got = evalb(v, leaf)
    if got == "<missing>":
        return
    if got is None:
        c.fail("MEANING", w, f"cannot relate the reported status {show(v)[:80]} to whether {text}", key=f"{k.name} {m} unknown")
        return
    c.require(bool(got) == (want == "alive"), "MEANING", w, f"an object is reported {'alive' if got else 'dead'} although {text}", key=f"{k.name} {m} {text}")


def queue_rules(c, base):
    """how the job states printed by the batch system are read"""
    for name, table in (("SlurmBackend", SLURM), ("PBSBackend", PBS)):
        ks = [x for x in base.subclasses() if x.name == name]
        if not ks:
            raise Broken(f"no {name}")
        k = ks[0]
        f = k.find_method("parse_job_states")
        c.analysed(f)
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        w = f"{f.module.rel()}:{f.line} ({name}.{f.name})"
        n = 0
        for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
            c.paths += 1
            if o.kind != "ret":
                continue
            got = []
            for e in walk_events(events(o.st.trace)):
                if e.kind == "setitem":
                    got.append((e.key, e.value, e.facts))
            ob = o.st.obj(o.val)
            if ob is not None and ob.kind == "dict":
                for l in ob.layers:
                    if l[0] == "rep":
                        for z in l[1] if isinstance(l[1], tuple) else ():
                            if isinstance(z, tuple) and len(z) == 3 and not any(z[0] is g[0] for g in got):
                                got.append(z)
            for want, states in table.items():
                for s in states:
                    hits = []
                    for key, val, facts in got:
                        leaf = lambda t, s=s: s if t.k == "item" and isinstance(t.a[1], V) and t.a[1].k == "const" and isinstance(t.a[1].a[0], int) and t.a[1].a[0] != 0 else None
                        if facts is not None and not consistent(facts, leaf):
                            continue
                        hits.append(evalb(val, leaf))
                    if want == "dead" and not hits:
                        continue  # not listed is dead
                    n += 1
                    if not hits or None in hits:
                        c.fail("MEANING", w, f"cannot tell how a job in state {s} is reported", key=f"{name} unknown")
                        continue
                    c.require(all(bool(h) == (want == "alive") for h in hits), "MEANING", w, f"a job in state {s} is reported {'dead' if want == 'alive' else 'alive'}", key=f"{name} {s}")
        if not n:
            raise Broken(f"{name}.{f.name}: nothing decided")
        # a status command that fails says nothing about the jobs
        g = k.find_method("check_jobs")
        c.analysed(g)
        I = Interp(c.prog, c.types, opaque=lambda h, r: h.name in ("parse_job_states", "get_status_cmd_env"))
        I.term_types[SELF] = k.qual
        st = I.new_state()
        lst = st.alloc(Obj("list", lk="list", segs=(("one", const("<id0>")), ("one", const("<id1>")))))
        m = 0
        for o in I.run_function(g, [lst], st=st, selfv=SELF):
            if o.kind != "ret":
                continue
            m += 1
            good = any(t.k == "attr" and t.a[1] == "returncode" and {evalb(x, lambda y: None) for x in d} == {0} for t, d in o.st.facts.dom.items())
            c.require(good, "MEANING", f"{g.module.rel()}:{g.line} ({name}.{g.name})", "jobs are reported although the status command failed", key=f"{name} command")
        if not m:
            raise Broken("check_jobs never returns")


def running_rule(c, base):
    """is_running: a signal that is delivered means alive, no such process means dead"""
    mod = [k for k in base.subclasses() if k.name == "LocalBackend"][0].module
    f = next((g for q, g in c.prog.funcs.items() if g.module is mod and g.name == "is_running" and g.cls is None), None)
    if f is None:
        raise Broken("no is_running")
    c.analysed(f)

    def rs(I, st, ev):
        return ["OSError"] if ext_name(ev.callee) == "os.kill" or show(ev.callee) == "os.kill" else None
    I = Interp(c.prog, c.types, raises=rs)
    p = V("param", f.params()[0])
    w = f"{f.module.rel()}:{f.line} (is_running)"
    n = 0
    for o in I.run_function(f, [p]):
        c.paths += 1
        evs = list(walk_events(events(o.st.trace)))
        hit = any(e.kind == "callraised" for e in evs)
        if o.kind != "ret":
            continue
        val = evalb(o.val, lambda t: None)
        if not hit:
            n += 1
            sent = any(e.kind == "call" and show(e.callee) == "os.kill" and e.args and e.args[0] is p and evalb(e.args[1], lambda t: None) == 0 for e in evs)
            c.require(sent and val is True, "MEANING", w, "a process that accepts a signal is not reported as running", key="is_running alive")
        else:
            esrch = any("ESRCH" in show(t) or any("ESRCH" in show(x) for x in d) for t, d in o.st.facts.dom.items()) or any("ESRCH" in show(t) and b for t, b in o.st.facts.tr.items()) or any("ProcessLookupError" in str(e.a.values()) for e in evs if e.kind == "except")
            if esrch:
                n += 1
                c.require(val is False, "MEANING", w, "a process that does not exist is reported as running", key="is_running dead")
    if not n:
        raise Broken("is_running: nothing decided")


def backend_rules(c, L):
    n = 0
    for k in sorted(L.base.subclasses(), key=lambda x: x.qual):
        for m, kind in (("do_check_clusters", "Cluster"), ("do_check_workers", "Worker")):
            f = k.find_method(m)
            if f is None or f.cls is L.base or k.name == "JobQueueBackend":
                continue
            c.analysed(f)
            n += align(c, k, m, f, kind)
    if n < 20:
        raise Broken(f"status reports analysed: {n}")
    queue_rules(c, L.base)
    running_rule(c, L.base)
    c.floor("ALIGN", 30)
    c.floor("MEANING", 60)
