"""C05: a session cookie resolves only to the user who authenticated it, and expires."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, contains, dict_get, ext_name, kwarg, ladd, linear, rewrite, subterms, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .c02 import read
from .httpsurface import REQ

AUTH = "dask_gateway_server.auth"
SELF, COOKIE, USER = V("param", "self"), V("param", "cookie"), V("param", "user")
RANDOM = ("uuid.uuid4", "secrets.token_hex", "secrets.token_urlsafe", "secrets.token_bytes", "os.urandom")
CLOCK = ("time.monotonic",)


def fresh(v):
    return contains(v, lambda x: x.k == "call" and ext_name(x) in RANDOM)


def run(c):
    c.rule("PUT", "a cookie is unguessable, fresh, and filed under the authenticated user with the time of the authentication")
    c.rule("REUSE", "an existing cookie is handed out again only to a user of the same name")
    c.rule("GET", "a cookie resolves only to the user of its own entry")
    c.rule("AGE", "a cookie resolves only within the maximum age of the authentication")
    c.rule("NOSLIDE", "looking a cookie up does not extend its life")
    c.rule("HANDLE", "the identity of a request is the cookie's user or the fully authenticated one")
    c.rule("ISSUE", "only a fully authenticated user's own cookie is sent, on the response to that request")
    c.rule("HISTORY", "over any history of logins, requests and time a cookie resolves to its user for the maximum age, never fails and then is forgotten")
    c.rule("AGECFG", "the cache uses the configured maximum age")
    k = c.prog.cls(AUTH, "UserCache")
    histories(c, k)
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = k.qual
    I.term_types[USER] = "dask_gateway_server.models.User"
    fput, fget = k.find_method("put"), k.find_method("get")
    stored = []
    maps = {}
    for o in I.run_function(fput, [USER], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        w = f"{fput.module.rel()}:{fput.line} (UserCache.put)"
        val = o.val
        sets = [e for e in events(o.st.trace) if e.kind == "setitem" and e.obj.k == "attr" and e.obj.a[0] is SELF]
        entry = [e for e in sets if e.key is val]
        for e in sets:
            if e.value is val:
                maps.setdefault(e.obj, []).append(e)
                c.require(e.key.k == "attr" and e.key.a[0] is USER and e.key.a[1] == "name", "REUSE", where(e),
                          f"the cookie is filed for reuse under {show(e.key)}", key="filed")
        if entry:
            e = entry[-1]
            c.require(fresh(val), "PUT", where(e), f"the cookie {show(val)} is not random", key="random")
            c.require(contains(e.value, lambda x: x is USER), "PUT", where(e),
                      f"the cookie maps to {show(e.value)}, not to the authenticated user", key="user")
            stored.append((e, e.value, o.st))
        else:
            ok = val is not None and val.k == "item" and val.a[0].k == "attr" and val.a[0].a[0] is SELF \
                and val.a[1].k == "attr" and val.a[1].a[0] is USER and val.a[1].a[1] == "name"
            c.require(ok, "REUSE", w, f"put() hands out {show(val) if val is not None else None}", key="reuse")
    if not stored:
        raise Broken("UserCache.put never stores an entry")
    for e, v, st in stored:
        entries = e.obj
    n = 0
    for o in I.run_function(fget, [COOKIE], selfv=SELF):
        c.paths += 1
        w = f"{fget.module.rel()}:{fget.line} (UserCache.get)"
        for e in events(o.st.trace):
            if e.kind in ("setitem", "dictupdate", "setattr", "store"):
                c.fail("NOSLIDE", where(e), "looking up a cookie changes the cache", key="slide")
        c.require(True, "NOSLIDE", w, "")
        if o.kind != "ret" or o.val is None or o.val is NONE or o.st.facts.cmp("is", o.val, NONE) is True:
            continue
        n += 1
        entry = V("item", entries, COOKIE)
        for e, v, st in stored:
            def sub(x, v=v, st=st):
                if x is entry and v.k not in ("tuple", "ref"):
                    return v
                if x.k in ("item", "attr") and x.a[0] is entry:
                    return component(I, v, x, st)
            val = rewrite(o.val, sub)
            ok = val is USER and subterm_keys(o.val, entries) == {COOKIE}
            c.require(ok, "GET", w, f"the cookie resolves to {show(o.val)}", key="user")
            put_now = V("param", "time of authentication")
            good = False
            for L, _ in bounds(o.st.facts):
                M = {}
                for t, q in L.items():
                    M = ladd(M, {None: q} if t is None else linear(rewrite(t, lambda x: tag(sub(x), put_now))), 1 if t is None else q)
                now = [t for t, q in M.items() if t is not None and t.k == "call" and ext_name(t) in CLOCK and q == 1]
                rest = {t: q for t, q in M.items() if t is not None and t not in now}
                age = [t for t in rest if t.k == "attr" and t.a[0] is SELF and "age" in t.a[1] and rest[t] == -1]
                if len(now) == 1 and rest.get(put_now) == -1 and len(age) == 1 and len(rest) == 2 and M.get(None, 0) >= 0:
                    good = True
            c.require(good, "AGE", w, "a cookie may be accepted after its maximum age", key="age")
    if not n:
        raise Broken("UserCache.get never returns a user")
    for g in I.inlined:
        c.analysed(g)
    handle(c, k)


def tag(x, put_now):
    """the clock read by put() is the time of the authentication"""
    if x is None:
        return None
    return rewrite(x, lambda y: put_now if y.k == "call" and ext_name(y) in CLOCK else None)


def component(I, v, x, st):
    if v.k == "tuple" and x.k == "item" and x.a[1].k == "const" and isinstance(x.a[1].a[0], int):
        i = x.a[1].a[0]
        return v.a[i] if i < len(v.a) else None
    if v.k == "ref":
        ob = st.obj(v)
        if x.k == "attr":
            return read(I, v, x.a[1], st)
        if ob is not None and ob.kind == "dict":
            vs = dict_get(ob, x.a[1])
            return vs[0] if vs else None
    return None


def subterm_keys(t, entries):
    return {x.a[1] for x in subterms(t) if x.k == "item" and x.a[0] is entries}


def handle(c, cache):
    base = c.prog.cls(AUTH, "Authenticator")
    for k in base.subclasses():
        f = k.find_method("authenticate_and_handle")
        H = V("param", "handler")

        def opaque(func, recv):
            return func.name in ("authenticate", "pre_response") or func.cls is not None and func.cls.qual == cache.qual

        I = Interp(c.prog, c.types, opaque=opaque)
        I.term_types[SELF] = k.qual
        outs = I.run_function(f, [REQ, H], selfv=SELF)
        c.analysed(f)
        for o in outs:
            c.paths += 1
            evs = [e for e in events(o.st.trace)]
            for e in evs:
                if e.kind == "setitem" and e.obj is REQ:
                    origin(c, e, I)
                if e.kind == "call" and e.get("name") == "put" and cachecall(e):
                    a = e.args[0] if e.args else None
                    c.require(a is not None and authed(a), "ISSUE", where(e),
                              f"a cookie is issued for {show(a) if a is not None else None}, which was not authenticated", key="put")
                if e.kind == "call" and e.get("name") == "set_cookie":
                    val = kwarg(e, "value", 1)
                    name = kwarg(e, "name", 0)
                    okv = val is not None and val.k == "call" and val.a[0].k == "func" and show(val.a[0]).endswith("put") \
                        or val is not None and any(p.kind == "call" and p.get("name") == "put" and cachecall(p) and p.result is val for p in evs)
                    c.require(okv, "ISSUE", where(e), f"the cookie sent is {show(val) if val is not None else None}", key="value")
                    c.require(name is not None and name.k == "attr" and name.a[0] is SELF and name.a[1] == "cookie_name", "ISSUE",
                              where(e), "the cookie is not sent under the configured name", key="name")
                    hs = [p.result for p in evs if p.kind == "call" and p.callee is H]
                    c.require(e.recv in hs, "ISSUE", where(e), "the cookie is sent on another response", key="resp")
    c.floor("HANDLE", 2)
    c.floor("ISSUE", 3)
    for fn in c.prog.funcs.values() if isinstance(c.prog.funcs, dict) else c.prog.funcs:
        if fn.cls is not None and fn.cls.qual == base.qual and fn.name.startswith("_default_"):
            I = Interp(c.prog, c.types)
            I.term_types[SELF] = base.qual
            for o in I.run_function(fn, [], selfv=SELF):
                ob = o.st.obj(o.val) if o.val is not None else None
                if ob is not None and ob.kind == "inst" and ob.cls == cache.qual:
                    v = read(I, o.val, "max_age", o.st)
                    c.require(v is not None and v.k == "attr" and v.a[0] is SELF and v.a[1] == "cache_max_age", "AGECFG",
                              f"{fn.module.rel()}:{fn.line} ({fn.name})", "the cookie cache does not use the configured maximum age", key="age")
    c.floor("AGECFG", 1)


def cachecall(e):
    return e.recv is not None and contains(e.recv, lambda x: x.k == "attr" and x.a[1] == "cache")


def authed(v):
    if v.k == "item" and v.a[1] is const(0):
        v = v.a[0]
    return v.k == "call" and contains(v.a[0], lambda x: True) and "authenticate" in show(v.a[0]) or \
        v.k == "call" and v.a[0].k in ("bm", "func") and "authenticate" in show(v)


def origin(c, e, I):
    v = e.value
    if authed(v):
        c.require(True, "HANDLE", where(e), "")
        return
    ok = v.k == "call" and "get" in show(v.a[0]) and e.facts.cmp("is", v, NONE) is False and any(
        x.k == "attr" and x.a[1] == "cookies" and x.a[0] is REQ for a in v.a[1] for x in subterms(a)) \
        and contains(v, lambda x: x.k == "attr" and x.a[1] == "cache" and x.a[0] is SELF)
    c.require(ok, "HANDLE", where(e), f"the request acts as {show(v)}", key="origin")


def histories(c, k):
    """logins, requests and the passing of time, in every order: a cookie resolves to its own user for the maximum age, never fails a
    request and is forgotten afterwards"""
    import itertools
    AGE = 300
    ops = ["alice", "bob", "use 0", "use 1", "wait 200", "wait 301"]
    done = 0
    for n in (2, 3, 4, 5):
        for h in itertools.product(ops, repeat=n):
            # shorter histories are prefixes; without a login before the first use nothing happens
            if h[0] not in ("alice",) or h[-1] not in ("use 0", "use 1") or any(a.startswith("wait") and b.startswith("wait") for a, b in zip(h, h[1:])):
                continue
            if n == 5 and (h.count("bob") > 1 or h.count("alice") > 3 or "use 1" not in h or not any(x.startswith("wait") for x in h)):
                continue
            done += 1
            history(c, k, AGE, h)
    c.require(done > 150, "HISTORY", k.qual, f"only {done} histories are followed", key="n")


class Life:
    def __init__(self, c, k, age):
        self.now, self.n, self.c, self.k = 1000.0, 0, c, k

        def results(I, st, name, func, args, kw):
            if name == "monotonic" and func is None:
                return const(self.now)
            if name in ("uuid4", "token_hex", "token_urlsafe") and func is None:
                self.n += 1
                v = V("param", f"random {self.n}")
                st.store = {**st.store, (v, "hex"): const(f"cookie{self.n}")}
                return v if name == "uuid4" else const(f"cookie{self.n}")
        self.I = Interp(c.prog, c.types, results=results)
        st = self.I.new_state()
        outs = [o for o in self.I.run_value(V("cls", k.qual), [const(age)], st, {}, awaited=False) if o.kind == "ret"]
        if len(outs) != 1:
            raise Broken("UserCache(...)")
        self.S, self.st = outs[0].val, outs[0].st.fork()
        self.users = {}

    def user(self, name):
        u = self.st.alloc(Obj("inst", cls="dask_gateway_server.models.User", attrs={"name": const(name), "groups": const(None), "admin": const(False)}))
        self.users[u] = name
        return u

    def do(self, name, x):
        f = self.k.find_method(name)
        self.c.analysed(f, *self.I.inlined)
        outs = self.I.run_function(f, [x], selfv=self.S, st=self.st.fork())
        self.c.paths += len(outs)
        if len(outs) != 1 or outs[0].kind != "ret":
            return None
        self.st = outs[0].st.fork()
        return outs[0].val


def history(c, k, age, h):
    w = Life(c, k, age)
    at = f"{k.module.rel()} (UserCache)"
    issued = {}        # cookie -> (name, first given out)
    order = []
    dead = set()       # presented after they had expired
    for op in h:
        if op.startswith("wait"):
            w.now += float(op.split()[1])
        elif op.startswith("use"):
            i = int(op.split()[1])
            if i >= len(order):
                return
            ck = order[i]
            v = w.do("get", ck)
            if not c.require(v is not None, "HISTORY", at, f"a request with a cookie fails after {', '.join(h)}", key="fails"):
                return
            name, t = issued[ck]
            young = w.now - t <= age
            if not young:
                dead.add(ck)
            got = w.users.get(v) if v is not NONE else None
            c.require(got == name if young else got is None, "HISTORY", at, f"a cookie given to {name} {w.now - t:.0f} s ago resolves to {got} ({', '.join(h)})", key=("resolves", young))
        else:
            v = w.do("put", w.user(op))
            if not c.require(v is not None and v.k == "const", "HISTORY", at, f"a login fails after {', '.join(h)}", key="login"):
                return
            c.require(v not in dead, "HISTORY", at, f"a login is given a cookie that has been refused ({', '.join(h)})", key="dead")
            if v not in issued:
                issued[v] = (op, w.now)
                order.append(v)
            c.require(issued[v][0] == op, "HISTORY", at, f"{op} is given the cookie of {issued[v][0]}", key="whose")
