"""C13: the in-memory objects and the database rows change together, with the same values."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, ladd, linear, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show
from .dblife import DB, RANK, SELF, Life, nm, qcall

CL, WK = DB + ".Cluster", DB + ".Worker"
TABLE = {"clusters": "Cluster", "workers": "Worker"}


def columns(prog):
    """table name -> column names, from the metadata"""
    mod = prog.modules[DB]
    out = {}
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).endswith("Table"):
            cols = []
            for a in n.value.args:
                if isinstance(a, ast.Call) and ast.unparse(a.func).endswith("Column") and a.args and isinstance(a.args[0], ast.Constant):
                    cols.append(a.args[0].value)
            out[n.targets[0].id] = cols
    if set(out) != set(TABLE):
        raise Broken(f"tables found: {sorted(out)}")
    return out


def table_of(t):
    """the table a statement works on"""
    for x in subterms(t):
        if x.k == "glob" and x.a[0] == DB and x.a[1] in TABLE:
            return x.a[1]
    return None


def chain(t):
    """method calls a statement was built with: {name: call term}"""
    out = {}
    while isinstance(t, V) and t.k == "call":
        f = t.a[0]
        if f.k not in ("attr", "bm"):
            out[str(f.a[0]).rsplit(".", 1)[-1]] = t
            break
        out.setdefault(f.a[1], t)
        t = f.a[0]
    return out


def kws(t):
    return {k: v for k, v in t.a[2]}


def col(x):
    """column name of <table>.c.<name>"""
    if x.k == "attr" and isinstance(x.a[0], V) and x.a[0].k == "attr" and x.a[0].a[1] in ("c", "columns"):
        return x.a[1]
    return None


def bindname(x):
    if x.k == "call" and str(x.a[0].a[0]).endswith("bindparam") and x.a[1]:
        return x.a[1][0].a[0]
    return None


def interp(c, opaque=(), raises=None):
    I = Interp(c.prog, c.types, opaque=lambda f, r: f.name in opaque, raises=raises, hints={("Worker", "cluster", 0): CL})
    I.term_types[SELF] = DB + ".DataManager"
    return I


def statements(evs):
    """(event, kind, table, key condition, [(key value, {column: value})])"""
    for e in evs:
        if e.kind != "call" or e.get("name") != "execute" or not e.args:
            continue
        t = e.args[0]
        ch = chain(t)
        kind = next((k for k in ("update", "insert", "delete", "select") if k in ch), None)
        rows = []
        cond = ch["where"].a[1] if "where" in ch else ()
        if "where" in ch and ch["where"].k == "call":
            cond = ch["where"].a[1]
        params = []
        if len(e.args) > 1 and e.args[1].k == "ref":
            o = e.heap[e.args[1].a[0]]
            for s in getattr(o, "segs", ()):
                if s[0] == "one" and s[1].k == "ref":
                    params.append((e.heap[s[1].a[0]], None))
                elif s[0] == "rep":
                    for x, f in s[1]:
                        if x.k == "ref":
                            params.append((e.heap[x.a[0]], f))
        yield e, kind, table_of(t), cond, kws(ch["values"]) if "values" in ch else {}, params


def update_rules(c, cols):
    dm = c.prog.cls(DB, "DataManager")
    T = {n: V("param", n) for n in ("T1", "S1", "T2", "S2")}
    n = 0
    for name, f in sorted(dm.methods.items()):
        if name.startswith("__") or not name.startswith("update"):
            continue
        va = f.node.args
        many = va.kwarg is None
        tab = "workers" if "worker" in name else "clusters"
        cls = DB + "." + TABLE[tab]
        for failing in (False, True):
            I = interp(c, raises=(lambda I, st, ev: ["Exception"] if ev.kind == "call" and ev.get("name") == "execute" else None) if failing else None)
            X1, X2 = V("param", "obj1"), V("param", "obj2")
            I.term_types[X1] = I.term_types[X2] = cls
            st = I.new_state()
            want = {(X1, "target"): T["T1"], (X1, "state"): T["S1"]}
            if many:
                d1 = st.alloc(Obj("dict", layers=(("kv", const("target"), T["T1"]), ("kv", const("state"), T["S1"]))))
                d2 = st.alloc(Obj("dict", layers=(("kv", const("target"), T["T2"]), ("kv", const("state"), T["S2"]))))
                want.update({(X2, "target"): T["T2"], (X2, "state"): T["S2"]})
                args, kw = [st.alloc(Obj("list", segs=(("one", V("tuple", X1, d1)), ("one", V("tuple", X2, d2)))))], {}
            else:
                args, kw = [X1], {"target": T["T1"], "state": T["S1"]}
            outs = I.run_function(f, args, kwargs=kw, selfv=SELF, st=st)
            c.analysed(f)
            w = f"{f.module.rel()}:{f.line} ({name})"
            if failing:
                for o in outs:
                    if o.kind == "raise":
                        ch = [e for e in walk_events(events(o.st.trace)) if e.kind == "store" and e.obj in (X1, X2)]
                        c.require(not ch, "ORDER", w, "a failing database update leaves the new value in memory", key=name)
                continue
            rets = [o for o in outs if o.kind == "ret"]
            if not rets:
                raise Broken(f"{name} never returns")
            for o in rets:
                n += 1
                c.paths += 1
                evs = list(walk_events(events(o.st.trace)))
                mem = {}
                for e in evs:
                    if e.kind == "store" and e.obj in (X1, X2):
                        mem[(e.obj, e.attr)] = e.value
                    elif e.kind == "setattr":
                        c.fail("MIRROR", where(e), f"{name} sets an attribute whose name is not from the update")
                rows = {}
                tables = set()
                for e, kind, tb, cond, vals, params in statements(evs):
                    if kind != "update":
                        continue
                    tables.add(tb)
                    targets = []
                    for k in cond:
                        if k.k == "cmp" and k.a[0] == "==":
                            for p, q in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                                if col(p) in ("id", "name"):
                                    targets.append((col(p), q))
                    for cn, q in targets:
                        bn = bindname(q)
                        if bn is None:
                            if q.k == "attr" and q.a[1] == cn:
                                for k, v in vals.items():
                                    rows[(q.a[0], k)] = v
                        else:
                            for ob, _ in params:
                                d = {k.a[0] if isinstance(k, V) else k: v for _, k, v in ob.layers if _ == "kv"}
                                q2 = d.pop(bn, None)
                                if q2 is not None and q2.k == "attr" and q2.a[1] == cn:
                                    for k, v in d.items():
                                        rows[(q2.a[0], k)] = v
                    if len(targets) != len(cond):
                        c.fail("MIRROR", where(e), f"{name} updates rows under a condition other than the object's identity", key=name + " cond")
                c.require(tables == {tab}, "MIRROR", w, f"{name} updates {sorted(map(str, tables)) or 'no table'}", key=name + " table")
                c.require(mem == want, "MIRROR", w, f"{name} does not set exactly the given attributes in memory: {fmt(mem, want)}", key=name + " memory")
                c.require(rows == want, "MIRROR", w, f"{name} does not write exactly the given attributes to the row of the same object: {fmt(rows, want)}", key=name + " row")
    c.floor("MIRROR", 12)
    c.floor("ORDER", 4)


def fmt(got, want):
    miss = [f"{show(k[0])}.{k[1]}" for k in want if got.get(k) is not want[k]]
    extra = [f"{show(k[0])}.{k[1]}" for k in got if k not in want]
    return f"wrong or missing {miss}, extra {extra}"


def encoded(col, attr_vals, v):
    """the row value is an encoding of the object's attributes"""
    if col == "token":
        t = attr_vals.get("token")
        return v.k == "call" and "encode_token" in show(v.a[0]) and v.a[1] and v.a[1][-1] is t
    if col == "tls_credentials":
        a = tuple(attr_vals.get(x) for x in ("tls_cert", "tls_key"))
        return v.k == "call" and "encode_tls" in show(v.a[0]) and tuple(v.a[1][-2:]) == a
    return False


def insert_rules(c, cols):
    dm = c.prog.cls(DB, "DataManager")
    maps = lookup_maps(c, dm)
    for name, tab in (("create_cluster", "clusters"), ("create_worker", "workers")):
        f = dm.find_method(name)
        I = interp(c, opaque=("new_keypair", "encode_tls_credentials", "encode_token"))
        X = V("param", "cluster")
        I.term_types[X] = CL
        outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
        c.analysed(f)
        w = f"{f.module.rel()}:{f.line} ({name})"
        for o in outs:
            c.paths += 1
            if o.kind != "ret":
                c.fail("INSERT", w, f"{name} can fail: {show(o.val)[:60]}")
                continue
            evs = list(walk_events(events(o.st.trace)))
            ins = [(e, vals) for e, kind, tb, cond, vals, params in statements(evs) if kind == "insert" and tb == tab]
            ok = len(ins) == 1 and o.val is not None and o.val.k == "ref"
            c.require(ok, "INSERT", w, f"{name} does not insert exactly one row for the object it returns", key=name)
            if not ok:
                continue
            e0, vals = ins[0]
            at = {}
            for e in evs:
                if e.kind == "store" and e.obj is o.val:
                    at[e.attr] = e.value
            for cn in cols[tab]:
                if cn == "id":
                    v = at.get("id")
                    good = v is not None and contains(v, lambda x: x.k == "attr" and x.a[1] in ("inserted_primary_key", "lastrowid")) and e0.result in set(subterms(v))
                elif cn == "cluster_id":
                    v, ob = vals.get(cn), at.get("cluster")
                    good = v is not None and ob is not None and v.k == "attr" and v.a[1] == "id" and v.a[0] is ob
                else:
                    v = vals.get(cn, NONE)
                    a = at.get(cn)
                    good = a is not None and same(v, a, o.st) or encoded(cn, at, v)
                c.require(good, "INSERT", where(e0), f"{name}: column {cn} of the new row differs from the new object", key=f"{name} {cn}")
            extra = set(vals) - set(cols[tab])
            c.require(not extra, "INSERT", where(e0), f"{name} writes unknown columns {sorted(extra)}", key=f"{name} extra")
            # lookup tables
            sets = [(e.obj, e.key) for e in evs if e.kind == "setitem" and e.value is o.val]
            if tab == "clusters":
                for m in maps:
                    hit = [k for b, k in sets if any(x.k == "attr" and x.a[0] is SELF and x.a[1] == m for x in subterms(b))]
                    c.require(any(keyok(m, b, k, at) for b, k in sets if any(x.k == "attr" and x.a[0] is SELF and x.a[1] == m for x in subterms(b))),
                              "LOOKUP", w, f"{name} does not file the new cluster under {m}" + (" under its own key" if hit else ""), key=f"{name} {m}")
            else:
                c.require(any(b.k == "attr" and b.a[1] == "workers" and b.a[0] is at.get("cluster") and k is at.get("name") for b, k in sets),
                          "LOOKUP", w, f"{name} does not file the new worker under its cluster", key=name)
    c.floor("INSERT", 20)
    c.floor("LOOKUP", 4)
    return maps


def same(v, a, st):
    if v is a:
        return True
    if a.k == "ref":
        o = st.obj(a)
        if o is not None and o.kind == "inst":
            # a read-only view of the same value
            return any(x is v for x in st_attrs(st, a))
    return False


def st_attrs(st, ref):
    out = [v for (b, k), v in st.store.items() if b is ref]
    o = st.obj(ref)
    at = getattr(o, "attrs", None)
    if isinstance(at, dict):
        out += list(at.values())
    return out


def keyok(m, base, key, at):
    if base.k == "attr":
        return key in (at.get("id"), at.get("name"), at.get("token")) if m != "id_to_cluster" and m != "name_to_cluster" else \
            key is at.get("id" if m.startswith("id") else "name")
    # nested: by user, then by name
    return key is at.get("name") and at.get("username") in set(subterms(base))


def lookup_maps(c, dm):
    """attributes of the manager that hold clusters"""
    f = dm.methods["__init__"]
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                    if isinstance(x.value, ast.Dict) or isinstance(x.value, ast.Call) and ast.unparse(x.value.func).endswith(("defaultdict", "dict", "OrderedDict")):
                        out.add(t.attr)
    if len(out) < 2:
        raise Broken(f"lookup tables of the data manager: {sorted(out)}")
    return sorted(out)


def expire_rules(c, maps):
    dm = c.prog.cls(DB, "DataManager")
    f = dm.find_method("cleanup_expired")
    age = V("param", f.params()[1])
    I = interp(c, opaque=("timestamp",))
    outs = I.run_function(f, [age], selfv=SELF)
    c.analysed(f)
    n = 0
    for o in outs:
        c.paths += 1
        evs = list(walk_events(events(o.st.trace)))
        pops = [e for e in evs if e.kind in ("call", "delitem") and removed(e)]
        sts = list(statements(evs))
        dels = [s for s in sts if s[1] == "delete"]
        if not pops and not dels:
            continue
        n += 1
        w = where((dels[0][0] if dels else pops[0]))
        c.require(bool(dels), "EXPIRE", w, "an expired cluster is removed from memory but not from the database", key="delete")
        # what is deleted
        ids = set()
        for e, kind, tb, cond, vals, params in dels:
            c.require(tb == "clusters", "EXPIRE", where(e), f"expiry deletes from {tb}", key="table")
            for k in cond:
                if k.k == "cmp" and k.a[0] == "==":
                    for p, q in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                        if col(p) == "id":
                            bn = bindname(q)
                            if bn is None:
                                ids.add(q)
                            for ob, _ in params:
                                d = {kk.a[0] if isinstance(kk, V) else kk: v for _, kk, v in ob.layers if _ == "kv"}
                                if bn in d:
                                    ids.add(d[bn])
        c.require(ids, "EXPIRE", w, "the deleted rows are not selected by cluster id", key="ids")
        for i in ids:
            sel = [s for s in sts if s[1] == "select" and s[0].result in set(subterms(i))]
            good = False
            for s in sel:
                good |= any(aged(k, age) for k in s[3])
            if not sel:
                good = any(aged_facts(e, age, i) for e in evs)
            c.require(good, "AGE", w, "a cluster can be expired that did not finish longer ago than the retention age", key="age")
            # removed from every lookup table, for the same id
            for m in maps:
                ok = False
                for e in pops:
                    base, key = removed(e)
                    if any(x.k == "attr" and x.a[0] is SELF and x.a[1] == m for x in spine(base)) and (key is i or i in set(subterms(key)) or base_has(base, i)):
                        ok = True
                c.require(ok, "LOOKUP", w, f"an expired cluster stays in {m}", key=f"expire {m}")
    if not n:
        raise Broken("cleanup_expired removes nothing")
    c.floor("AGE", 1)
    # retention age from the configuration
    be = c.prog.cls(DB, "DBBackendBase")
    n = 0
    for name, m in be.methods.items():
        for x in ast.walk(m.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "cleanup_expired":
                n += 1
                a = x.args[0] if x.args else None
                c.require(a is not None and ast.unparse(a) == "self.db_cluster_max_age" or derived(m, a), "AGE", f"{m.module.rel()}:{x.lineno} ({name})",
                          "expiry does not use the configured retention age", key="config")
    if not n:
        raise Broken("cleanup_expired is never called")


def derived(m, a):
    """a local that was assigned the configured age"""
    if not isinstance(a, ast.Name):
        return False
    return any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets)
               and ast.unparse(x.value) == "self.db_cluster_max_age" for x in ast.walk(m.node))


def spine(b):
    while isinstance(b, V):
        yield b
        if b.k in ("attr", "item"):
            b = b.a[0]
        else:
            return


def base_has(base, i):
    return i in set(subterms(base))


def removed(e):
    """(container, key) of a removal"""
    if e.kind == "delitem":
        return e.obj, e.key
    f = e.get("callee")
    if e.get("name") == "pop" and f is not None and f.k in ("attr", "bm") and e.args:
        return f.a[0], e.args[0]
    return None


def aged(k, age):
    """condition: stop time < now - age, in milliseconds"""
    if k.k != "cmp" or k.a[0] not in ("<", "<=", ">", ">="):
        return False
    d = ladd(linear(k.a[1]), linear(k.a[2]), -1)
    if k.a[0] in ("<", "<="):
        d = {t: -v for t, v in d.items()}
    return agedlin(d, age)


def agedlin(d, age):
    """d >= 0 or d > 0 with d = now - 1000*age - stop"""
    d = dict(d)
    cst = d.pop(None, 0)
    stop = [t for t in d if t.k == "attr" and t.a[1] == "stop_time"]
    now = [t for t in d if t.k == "call" and "timestamp" in show(t.a[0])]
    ag = [t for t in d if age in set(subterms(t)) and t not in stop and t not in now]
    if len(stop) != 1 or len(now) != 1 or len(ag) != 1 or len(d) != 3 or cst > 0:
        return False
    s = -d[stop[0]]
    if s <= 0 or d[now[0]] != s:
        return False
    scale = d[ag[0]] * linear(ag[0]).get(age, 1 if ag[0] is age else 0)
    if ag[0].k == "binop":
        l2 = linear(ag[0])
        scale = d[ag[0]] * l2.get(age, 0)
    return scale <= -1000 * s


def aged_facts(e, age, i):
    from sa.query import bounds
    return any(agedlin({t: -v for t, v in l.items()}, age) for l, s in bounds(e.facts))


def direct_rules(c, L, cols):
    """persisted attributes change only in the data manager; homogeneous updates; stop times"""
    persisted = {"Cluster": set(cols["clusters"]) | {"tls_cert", "tls_key"}, "Worker": (set(cols["workers"]) - {"cluster_id"})}
    L.fixpoint()
    for m in L.roots:
        upd = []
        stores = []

        def on_event(st, ev):
            if ev.kind == "store":
                k = L.kind(I, ev.obj, st)
                if k and ev.attr in persisted[k] and not (ev.obj.k == "ref" and ev.func is not None and ev.func.name == "__init__"):
                    ev.a["xkind"] = k
                    stores.append(ev)
            elif ev.kind == "enter" and ev.func is not None and ev.func.cls is not None and ev.func.cls.name == "DataManager" and ev.func.name.startswith("update"):
                upd.append((ev, st))
        I = L.interp(on_event)
        I.run_function(m, L.params(m), selfv=SELF)
        for e in stores:
            inside = any(isinstance(s, str) and ".DataManager." in s for s in e.stack) or e.func is not None and e.func.cls is not None and e.func.cls.name == "DataManager"
            c.require(inside, "DIRECT", where(e), f"{e.attr} of a {e.xkind.lower()} is changed in memory without the database", key=f"{e.func.qual if e.func else ''} {e.attr}")
        # the database is told of finished objects only
        by = {}
        for i, e in enumerate(stores):
            if e.attr == "stop_time" and e.value is not NONE:
                done = {"STOPPED", "FAILED"}
                v = e.store.get((e.obj, "status"))
                nxt = stores[i + 1] if i + 1 < len(stores) else None
                ok = v is not None and L.dom(v, e.facts) <= done or \
                    nxt is not None and nxt.obj is e.obj and nxt.attr == "status" and L.dom(nxt.value, nxt.facts) <= done
                c.require(ok, "STOPTIME", where(e), "a stop time is recorded for an object that has not finished", key=f"{m.name} stop_time")
        # calls, with the data manager abstract
        I = L.interp(opaque=lambda fn, r: fn.cls is not None and fn.cls.name == "DataManager" and fn.name.startswith("update"))
        calls = {}

        def on2(st, ev):
            if ev.kind == "call" and (qcall(ev, "DataManager") or "").startswith("update"):
                calls[id(ev)] = ev
        I = L.interp(on2, opaque=lambda fn, r: fn.cls is not None and fn.cls.name == "DataManager" and fn.name.startswith("update"))
        I.run_function(m, L.params(m), selfv=SELF)
        for e in calls.values():
            q = qcall(e, "DataManager")
            tab = "workers" if "worker" in q else "clusters"
            keysets = []
            if e.get("kwargs"):
                keysets.append(frozenset(k for k in e.kwargs if k != "**"))
                star = e.kwargs.get("**")
                for x in star if isinstance(star, tuple) else ():
                    ks = obkeys(e, x)
                    keysets.append(ks or frozenset())
            elif e.args and e.args[0].k == "ref":
                o = e.heap[e.args[0].a[0]]
                for s in getattr(o, "segs", ()):
                    for x in ([s[1]] if s[0] == "one" else [y for y, _ in s[1]] if s[0] == "rep" else []):
                        if x.k == "tuple" and len(x.a) == 2:
                            keysets.append(obkeys(e, x.a[1]))
                        else:
                            keysets.append(None)
                if not many_ok(keysets):
                    c.fail("KEYS", where(e), f"{q}: one statement updates different sets of attributes {[sorted(k) if k else k for k in set(keysets)]}", key=f"{e.func.name} {q}")
            for k in keysets:
                if k is None:
                    continue
                c.require(k <= set(cols[tab]), "KEYS", where(e), f"{q} with attributes that are not columns: {sorted(k - set(cols[tab]))}", key=f"{e.func.name} {q}")
        c.analysed(m)
    c.floor("DIRECT", 20)
    c.floor("KEYS", 8)
    c.floor("STOPTIME", 2)
    # the other writers: backends must not change persisted state in place
    for q, f in c.prog.funcs.items():
        if not f.module.name.startswith("dask_gateway_server.backends") or ".kubernetes" in f.module.name:
            continue
        if f.cls is not None and f.cls.qual in (CL, WK, DB + ".DataManager"):
            continue
        for x in ast.walk(f.node):
            hit = None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and owner(x.value) and x.attr in (persisted["Cluster"] | persisted["Worker"]):
                hit = f"{ast.unparse(x)} is assigned"
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and owner(x.value.value) and x.value.attr in ("state", "options"):
                hit = f"{ast.unparse(x)} is assigned"
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "pop", "setdefault", "clear", "popitem", "append") \
                    and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in ("state", "options") and owner(x.func.value.value):
                hit = f"{ast.unparse(x.func.value)} is changed in place"
            if hit:
                c.fail("DIRECT", f"{f.module.rel()}:{x.lineno} ({f.qual.split('.', 1)[-1]})", f"{hit} without the database", key=f"{f.qual} {hit}")
    # lookup tables change only in the data manager
    return persisted


def owner(n):
    """an expression that denotes a cluster or worker in the backends' naming"""
    return isinstance(n, ast.Name) and n.id in ("cluster", "worker") or isinstance(n, ast.Attribute) and n.attr in ("cluster",)


def many_ok(ks):
    return len({k for k in ks if k is not None}) <= 1 and None not in ks


def obkeys(e, x):
    if x.k != "ref":
        return None
    o = e.heap.get(x.a[0])
    if o is None or o.kind != "dict":
        return None
    out = set()
    for l in o.layers:
        if l[0] != "kv":
            return None
        out.add(l[1].a[0] if isinstance(l[1], V) else l[1])
    return frozenset(out)


def codec_rules(c):
    """column types give back what was bound"""
    mod = c.prog.modules[DB]
    n = 0
    for k in c.prog.classes.values():
        if k.module.name != DB or not {"process_bind_param", "process_result_value"} <= set(k.methods):
            continue
        n += 1
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        v = V("param", "value")
        dial = V("param", "dialect")
        for o in I.run_function(k.methods["process_bind_param"], [v, dial], selfv=SELF):
            w = f"{k.methods['process_bind_param'].module.rel()}:{k.methods['process_bind_param'].line} ({k.name})"
            if o.kind != "ret":
                continue
            st = I.new_state()
            st.facts = o.st.facts.copy()
            if o.val is not v and o.val.k == "call":
                st.facts.ne[o.val] = st.facts.ne.get(o.val, frozenset()) | {NONE}     # an encoded value is not None
            for p in I.run_function(k.methods["process_result_value"], [o.val, dial], selfv=SELF, st=st):
                if p.kind != "ret":
                    continue
                c.require(normal(p.val, v), "CODEC", w, f"a value read back from the database is {show(p.val)[:100]} instead of the value written", key=k.name)
    if n < 2:
        raise Broken("column types not found")
    c.floor("CODEC", 2)


def normal(x, v):
    """decode(encode(v)) -> v"""
    def name(t):
        return t.k == "call" and show(t.a[0]).rsplit(".", 1)[-1]
    if x is v:
        return True
    if x.k == "call":
        n = show(x.a[0])
        if n.endswith("loads") and x.a[1]:
            y = x.a[1][0]
            while y.k == "call" and y.a[0].k in ("bm", "attr") and y.a[0].a[1] in ("encode", "decode"):
                y = y.a[0].a[0]
            return y.k == "call" and show(y.a[0]).endswith("dumps") and y.a[1] and y.a[1][0] is v
        if n.endswith("_enumclass") and x.a[1]:
            y = x.a[1][0]
            return y.k == "attr" and y.a[1] == "value" and y.a[0] is v or y.k == "call" and show(y.a[0]) == "int" and y.a[1][0] is v
    return False


def run(c):
    c.rule("MIRROR", "an update method writes exactly the given attributes, to memory and to the row of the same object")
    c.rule("ORDER", "memory is not changed when the database update fails")
    c.rule("INSERT", "a new row carries the same values as the new object")
    c.rule("LOOKUP", "creating and expiring a cluster changes all lookup tables together")
    c.rule("EXPIRE", "expiry deletes the same clusters from the database and from memory")
    c.rule("AGE", "only clusters that finished longer ago than the configured age are expired")
    c.rule("STOPTIME", "a stop time is recorded only for a finished object")
    c.rule("DIRECT", "persisted attributes change only through the data manager")
    c.rule("KEYS", "one statement updates one set of existing columns")
    c.rule("CODEC", "column types read back the value that was written")
    cols = columns(c.prog)
    update_rules(c, cols)
    maps = insert_rules(c, cols)
    expire_rules(c, maps)
    direct_rules(c, Life(c), cols)
    codec_rules(c)
    c.assumptions += ["The database stores what it is given; a commit that fails after the statements succeeded is outside the model.",
                      "Objects of the backends are named cluster and worker in the backends' own modules (for the in-place change rule)."]
