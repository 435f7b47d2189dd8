"""C07: tokens and TLS keys are encrypted at rest, and encryption keys are mandatory."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, dict_keys, ext_name, subterms, where
from sa.state import events, walk_events
from sa.values import NONE, V, const, show
from .c06 import SECRET, fixpoint

DB = "dask_gateway_server.backends.db_base"
SELF = V("param", "self")
MEMORY = {"sqlite://", "sqlite:///", "sqlite:///:memory:"}
UPDATES = ("update_cluster", "update_clusters", "update_worker", "update_workers")


def run(c):
    c.rule("ENC", "a row written to the database holds a token or TLS key only encrypted with the configured keys")
    c.rule("UPD", "no later update and no backend state carries a secret into the database")
    c.rule("KEYS", "unless the database is in memory, encryption is on and uses all configured keys, the newest first")
    c.rule("MEM", "only the in-memory SQLite URLs count as in memory")
    c.rule("LOAD", "stored credentials are decrypted with the configured keys into the fields they came from")
    c.rule("MUST", "start-up fails when keys are missing or invalid for a database that is not in memory")
    dm = c.prog.cls(DB, "DataManager")
    T = later_updates(c)
    rows(c, dm, T)
    keys(c, dm)
    must(c)
    memory(c)


def later_updates(c):
    seen = {}

    def hook(T, fn, e, note):
        if e.kind == "call" and e.get("name") in UPDATES:
            vals = list(e.args) + list(e.kwargs.values())
            names = set(e.kwargs)
            for v in vals:
                for x in subterms(v, e.heap):
                    if x.k == "ref" and e.heap.get(x.a[0]) is not None and e.heap.get(x.a[0]).kind == "dict":
                        names |= {k.a[0] for k in dict_keys(e.heap.get(x.a[0])) if k.k == "const"}
            bad = [x for x in vals if T.t(x, e.heap, fn)]
            msg = f"{show(bad[0])} is written to the database in clear" if bad else None
            if names & (SECRET | {"tls_credentials"}):
                msg = f"column {sorted(names & (SECRET | {'tls_credentials'}))} is overwritten after creation"
            seen[(where(e), fn.qual)] = seen.get((where(e), fn.qual)) or msg
        if e.kind == "yield" and fn.name in ("do_start_cluster", "do_start_worker") and e.value is not None:
            msg = f"the persisted state {show(e.value)} carries a secret" if T.t(e.value, e.heap, fn) else None
            seen[(where(e), fn.qual)] = seen.get((where(e), fn.qual)) or msg

    T, _ = fixpoint(c, hook)
    for (w, q), msg in sorted(seen.items()):
        c.require(not msg, "UPD", w, msg or "", key=q)
    c.floor("UPD", 18)
    return T


def rows(c, dm, T):
    n = 0
    for name, f in dm.methods.items():
        if name == "__init__" or f.kind != "function":
            continue
        writes = []

        def on_event(st, e):
            if e.kind == "call" and e.get("name") in ("values", "execute"):
                T.local = frozenset(v for fr in st.frames.values() for k, v in fr.items()
                                    if k in SECRET and isinstance(v, V) and v.k in ("call", "attr", "item"))
                if e.facts.cmp("is", V("attr", SELF, "fernet", 0), NONE) is True:
                    return
                # a statement built from an insert/update was judged where it was built
                args = [x for x in list(e.args) + list(e.kwargs.values())
                        if not (e.name == "execute" and contains(x, lambda y: y.k == "attr" and y.a[1] in ("insert", "update", "values")))]
                bad = [x for x in args if T.t(x, e.heap, f)]
                writes.append((where(e), show(bad[0]) if bad else None))
        I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name == "new_keypair", on_event=on_event)
        I.term_types[SELF] = dm.qual
        outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
        T.local = frozenset()
        c.paths += len(outs)
        for g in I.inlined:
            c.analysed(g)
        for w, bad in writes:
            n += 1
            c.require(bad is None, "ENC", w, f"{bad} is written to the database in clear", key=name)
        # the secret does reach the row, so that a restart can read it back (LOAD)
    if n < 6:
        raise Broken("database writes not recognised")


def keys(c, dm):
    f = dm.methods["__init__"]
    I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name == "_is_in_memory_db")
    I.term_types[SELF] = dm.qual
    K = V("param", "encrypt_keys")
    outs = I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF)
    w = f"{f.module.rel()}:{f.line} (DataManager.__init__)"
    loads = 0
    for o in outs:
        c.paths += 1
        if o.kind != "ret":
            continue
        fv = None
        for e in events(o.st.trace):
            if e.kind in ("store", "setattr") and e.obj is SELF and e.attr == "fernet":
                fv = e
        if fv is None:
            c.fail("KEYS", w, "self.fernet is not set", key="unset")
            continue
        mem = any(v and t.k == "call" and "_is_in_memory_db" in show(t.a[0]) for t, v in o.st.facts.tr.items())
        if fv.value is NONE:
            c.require(mem, "KEYS", where(fv), "encryption is off although the database may not be in memory", key="off")
        else:
            ok = ext_name(fv.value) is not None and ext_name(fv.value).endswith("MultiFernet") and all_keys(fv.value, o.st, K)
            for e in events(o.st.trace):
                if e.kind == "reorder" and contains(e.value, lambda x: x is K, e.heap):
                    ok = False
            c.require(ok, "KEYS", where(fv), f"encryption uses {show(fv.value)}, not all configured keys with the newest first", key="keys")
        fern = fv.value if fv.value is not NONE else None
        for e in walk_events(events(o.st.trace)):
            if e.kind == "new" and e.get("cls", "").endswith(".Cluster") or (
                    e.kind == "new" and "tls_key" in (e.get("kwargs") or {})):
                loads += 1
                for name, col, part in (("token", "token", None), ("tls_cert", "tls_credentials", 0), ("tls_key", "tls_credentials", 1)):
                    v = e.kwargs.get(name)
                    ok = v is not None and stored(v, col, part, fern)
                    c.require(ok, "LOAD", where(e), f"{name} is restored as {show(v) if v is not None else None}", key=name)
    if not loads:
        raise Broken("loading of stored clusters not recognised")
    c.floor("KEYS", 2)
    # the write order of certificate and key
    g = dm.find_method("encode_tls_credentials")
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = dm.qual
    ps = [V("param", x) for x in g.params()[1:]]
    for o in I.run_function(g, ps, selfv=SELF):
        seq = [x for x in leaves(o.val, o.st.heap) if x in ps]
        off = o.st.facts.cmp("is", V("attr", SELF, "fernet", 0), NONE) is True
        v = o.val
        whole = off or v.k == "call" and v.a[0].k == "attr" and v.a[0].a[1] == "encrypt"
        c.require(whole, "LOAD", f"{g.module.rel()}:{g.line} ({g.name})", "the stored value is not encrypted as a whole, as it is read", key="whole")
        c.require(seq == ps, "LOAD", f"{g.module.rel()}:{g.line} ({g.name})", "certificate and key are stored in another order than they are read",
                  key="order")


def leaves(v, heap):
    if v.k == "ref":
        ob = heap.get(v.a[0])
        if ob is not None and ob.kind == "list":
            for s in ob.segs:
                if s[0] in ("one", "sym"):
                    yield from leaves(s[1], heap)
        return
    if v.k in ("param", "const"):
        yield v
        return
    for a in v.a:
        if isinstance(a, V):
            yield from leaves(a, heap)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, V):
                    yield from leaves(x, heap)


def stored(v, col, part, fern):
    if part is not None:
        if v.k != "item" or v.a[1] is not const(part):
            return False
        v = v.a[0]
    src = [x for x in subterms(v) if x.k == "attr" and x.a[1] == col]
    if len(src) != 1:
        return False
    if fern is None:
        return True
    return any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "decrypt" and x.a[0].a[0] is fern
               and x.a[1] and x.a[1][0] is src[0] for x in subterms(v))


def all_keys(v, st, K):
    """MultiFernet([Fernet(k) for k in encrypt_keys]) with nothing dropped or reordered"""
    if len(v.a[1]) != 1:
        return False
    a = v.a[1][0]
    ob = st.obj(a)
    if ob is None or ob.kind != "list" or len(ob.segs) != 1:
        return False
    s = ob.segs[0]
    if s[0] == "rep":
        if len(s[1]) != 1:
            return False
        x, facts = s[1][0]
        base = [y for y in subterms(x) if y.k == "elem"]
        # every key is used on every path: no condition on the element
        if facts is not None and any(contains(t, lambda z: z in base) for t in facts.tr):
            return False
        return (ext_name(x) or "").endswith("Fernet") and len(base) == 1 and base[0].a[0] is K
    if s[0] == "sym":
        x = s[1]
        return x.k == "call" and "map" in show(x.a[0]) and x.a[1][1] is K
    return False


def memory(c):
    f = c.prog.funcs[DB + "._is_in_memory_db"]
    I = Interp(c.prog, c.types)
    U = V("param", f.params()[0])
    for o in I.run_function(f, [U]):
        w = f"{f.module.rel()}:{f.line} (_is_in_memory_db)"
        c.analysed(f)
        if o.val is const(False) or o.kind == "raise":
            c.require(True, "MEM", w, "")
            continue
        dom = None
        v = o.val
        if v.k == "oneof" and v.a[0] is U:
            dom = {x.a[0] for x in v.a[1:] if x.k == "const"} if all(x.k == "const" for x in v.a[1:]) else None
        elif v.k == "cmp" and v.a[0] in ("==", "is"):
            dom = {x.a[0] for x in v.a[1:] if isinstance(x, V) and x.k == "const"}
        elif v is const(True):
            d = o.st.facts.dom.get(U)
            dom = {x.a[0] if isinstance(x, V) else x for x in d} if d else None
            for t, val in o.st.facts.tr.items():
                if val and t.k == "oneof" and t.a[0] is U:
                    dom = {x.a[0] for x in t.a[1:]}
            for (a, b), r in o.st.facts.rel.items():
                if r == frozenset("="):
                    for x, y in ((a, b), (b, a)):
                        if x is U and y.k == "const":
                            dom = {y.a[0]}
        c.require(dom is not None and dom <= MEMORY, "MEM", w, f"databases that outlive the process may count as in memory ({show(v)})", key="mem")


def must(c):
    base = c.prog.cls(DB, "DBBackendBase")
    opq = lambda fn, r: fn.name in ("_is_in_memory_db", "_normalize_encrypt_key")
    f = base.find_method("_db_encrypt_keys_validate")
    P = V("param", f.params()[1])
    I = Interp(c.prog, c.types, opaque=opq)
    I.term_types[SELF] = base.qual
    w = f"{f.module.rel()}:{f.line} ({f.name})"
    KV = [V("item", P, const("value")), V("attr", P, "value", 0)]
    for o in I.run_function(f, [P], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        fs = o.st.facts
        nonempty = any(fs.truth(k) is True for k in KV) or any(
            v and t.k in ("nonempty",) and t.a[0] in KV for t, v in fs.tr.items())
        mem = any(v and t.k == "call" and "_is_in_memory_db" in show(t.a[0]) and contains(
            V("tuple", *t.a[1]), lambda x: x.k == "attr" and x.a[1] == "db_url") for t, v in fs.tr.items())
        c.require(nonempty or mem, "MUST", w, "a missing key is accepted although the database may not be in memory", key="missing")
        ob = o.st.obj(o.val)
        ok = ob is not None and ob.kind == "list" and all(normal(s, KV) for s in ob.segs)
        c.require(ok, "MUST", w, f"the keys used are {show(o.val)}, not the validated ones", key="validated")
    g = base.find_method("_db_encrypt_keys_default")
    I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name == f.name)
    I.term_types[SELF] = base.qual
    for o in I.run_function(g, [], selfv=SELF):
        if o.kind == "ret":
            ok = o.val.k == "call" and f.name in show(o.val.a[0])
            c.require(ok, "MUST", f"{g.module.rel()}:{g.line} ({g.name})", "keys from the environment are not validated", key="default")
    h = c.prog.funcs[DB + "._normalize_encrypt_key"]
    I = Interp(c.prog, c.types, raises=lambda I, st, e: ["ValueError"] if (ext_name(e.callee) or "").startswith("base64.") else None)
    K = V("param", h.params()[0])
    for o in I.run_function(h, [K]):
        c.paths += 1
        if o.kind == "ret":
            ok = any(t.k == "len" and d and all((x.a[0] if isinstance(x, V) else x) == 32 for x in d) for t, d in o.st.facts.dom.items()) or any(
                r == frozenset("=") and {a, b} & {const(32)} and (a.k == "len" or b.k == "len" or "len" in show(a) + show(b))
                for (a, b), r in o.st.facts.rel.items()) or lenfact(o)
            c.require(ok, "MUST", f"{h.module.rel()}:{h.line} ({h.name})", "a key that is not 32 bytes is accepted", key="len")
    # the manager gets the validated trait and the same URL
    n = 0
    for name, fn in base.methods.items():
        def on_event(st, e):
            nonlocal n
            if e.kind == "call" and "DataManager" in show(e.callee) or e.kind == "new" and (e.get("cls") or "").endswith("DataManager"):
                n += 1
                u, k = e.kwargs.get("url"), e.kwargs.get("encrypt_keys")
                ok = u is not None and u.k == "attr" and u.a[1] == "db_url" and k is not None and k.k == "attr" and k.a[1] == "db_encrypt_keys"
                c.require(ok, "MUST", where(e), "the database is opened without the configured URL and keys", key="open")
        I = Interp(c.prog, c.types, opaque=lambda fn, r: True, on_event=on_event)
        I.term_types[SELF] = base.qual
        I.run_function(fn, [V("param", x) for x in fn.params()[1:]], selfv=SELF)
    if not n:
        raise Broken("nothing opens the database")


def lenfact(o):
    for t, v in o.st.facts.tr.items():
        if v and t.k == "cmp" and t.a[0] == "==" and const(32) in t.a and "len" in show(t):
            return True
    return False


def normal(s, KV):
    if s[0] == "rep":
        return all(x.k == "call" and "_normalize_encrypt_key" in show(x.a[0]) for x, f in s[1])
    if s[0] == "sym":
        x = s[1]
        return x.k == "call" and "map" in show(x.a[0]) and "_normalize" in show(x.a[1][0])
    return s[0] == "one" and s[1].k == "call" and "_normalize" in show(s[1].a[0])
