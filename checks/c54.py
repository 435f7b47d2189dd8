"""C54: a client connects where, and as whom, its arguments and configuration say."""
import ast
import base64
import re
from urllib.parse import urlparse

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, ext_name
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show

from .optw import Unknown, get, put
from .sched import At

CL, AUTH = "dask_gateway.client", "dask_gateway.auth"
ENV = {"HOME": "/root", "HOST": "gw.example", "PORT": "9000", "USER": "alice"}
MISSING = object()


class World:
    """a client's process: its configuration and its environment"""

    def __init__(self, c, config=None, env=None, opaque=()):
        self.c, self.config, self.env = c, config or {}, dict(ENV if env is None else env)
        self.hide = opaque
        self.I = I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=lambda f, r: f.name in ("format_template", "_import_object", *self.hide))
        I.unroll = 12
        I.environ = self.env
        self.st = I.new_state()
        self.st.ghost = {}
        self.asked = set()

    def results(self, I, st, name, func, args, kw):
        callee = I.callee
        if name == "format_template":
            try:
                x = get(st, args[0])
            except Unknown:
                return None
            if not isinstance(x, str):
                return args[0]
            try:
                return const(x.format(**self.env))
            except KeyError:
                st.ghost = {**st.ghost, "never": "KeyError"}
                return V("never")
        if name == "_import_object":
            return V("param", f"imported {get(st, args[0])}")
        if func is not None:
            return None
        if name == "get" and callee is not None and show(callee) == "dask.config.get":
            key = get(st, args[0])
            self.asked.add(key)
            v = self.config.get(key, MISSING)
            if v is MISSING:
                d = args[1] if len(args) > 1 else kw.get("default") if hasattr(kw, "get") else None
                if d is None:
                    st.ghost = {**st.ghost, "never": "KeyError"}
                    return V("never")
                return d
            return v if isinstance(v, V) else put(st, v)
        if name in ("urlparse", "urlsplit"):
            a = get(st, args[0])
            u = urlparse(a)
            r = V("param", f"url {a}")
            st.store = {**st.store, **{(r, x): const(getattr(u, x)) for x in ("scheme", "hostname", "port", "path", "netloc", "query")}}
            return r
        if name == "getuser":
            return const("me")
        if name in ("b64encode", "standard_b64encode"):
            return const(base64.b64encode(get(st, args[0])))
        if name == "proxies_from_env":
            r = V("param", "environment's proxy")
            d = put(st, {})
            o = st.obj(d)
            st.setobj(d, o.replace(layers=(("kv", const("http"), r),)))
            st.facts = st.facts.assume(V("cmp", "is", r, NONE), False)
            return d
        if name == "strip_auth_from_url":
            return V("tuple", V("param", "proxy url", args[0]), V("param", "proxy auth", args[0]))
        if name in ("search", "match", "fullmatch", "findall") and callee is not None and callee.k in ("attr", "bm"):
            return self.search(st, args, name)
        return self.more(I, st, name, args, kw)

    def more(self, I, st, name, args, kw):
        return None

    def search(self, st, args, name):
        return None

    def raises(self, I, st, ev):
        if ev.get("result") == V("never"):
            return [(st.ghost["never"], True)]

    def call(self, func, args=(), st=None, selfv=None, kwargs=None):
        outs = self.I.run_function(func, list(args), selfv=selfv, kwargs=dict(kwargs or {}), st=st or self.st.fork())
        self.c.paths += len(outs)
        self.c.analysed(func, *self.I.inlined)
        if not outs:
            raise Broken(f"{func.qual} has no path")
        return outs


DEFAULTS = {"gateway.address": None, "gateway.public-address": None, "gateway.proxy-address": None, "gateway.auth.type": "basic", "gateway.auth.kwargs": {}, "gateway.http-client.proxy": True, "gateway.cluster.options": {}}


def plain(st, v):
    try:
        return get(st, v) if v is not None else None
    except Unknown:
        return show(v)


def connect(c):
    k = c.prog.cls(CL, "Gateway")
    f = k.find_method("__init__")
    q = f.qual
    tmpl = lambda s: s.replace("gw.example", "{HOST}") if isinstance(s, str) else s
    addresses = [("http://gw.example:8000", "gw.example:8000"), ("https://gw.example", "gw.example:443"), ("http://gw.example/", "gw.example:80"), ("https://gw.example:9/services/dask-gateway/", "gw.example:9"), ("http://[::1]:8000", "[::1]:8000"), ("http://10.0.0.1", "10.0.0.1:80"), ("https://[fd00::2]/x", "[fd00::2]:443")]
    proxies = [(None, None), (8786, "{h}:8786"), ("tls://p.example:7", "p.example:7"), ("gateway://p.example:7", "p.example:7"), ("p.example:7", "p.example:7"), ("gateway://[::2]:7", "[::2]:7")]
    publics = [(None, None), ("https://public/", "https://public"), ("https://public/x", "https://public/x")]
    n = 0
    for a, to in addresses:
        for p, pto in proxies:
            for b, bto in publics:
                want = {"address": a.rstrip("/"), "_public_address": bto or a.rstrip("/"), "proxy_address": "gateway://" + (pto.format(h=to.rsplit(":", 1)[0]) if pto else to)}
                for how in ("arguments", "configuration", "both"):
                    conf = dict(DEFAULTS)
                    args = {}
                    if how != "arguments":
                        conf.update({"gateway.address": tmpl(a), "gateway.proxy-address": tmpl(p), "gateway.public-address": tmpl(b)})
                    if how != "configuration":
                        args = {x: const(y) for x, y in (("address", a), ("proxy_address", p), ("public_address", b)) if y is not None}
                    if how == "both":
                        conf.update({"gateway.address": "http://other:1", **({"gateway.proxy-address": "gateway://other:1"} if p is not None else {}), **({"gateway.public-address": "http://other"} if b is not None else {})})
                    if n % 3 and how == "both" and p is not None and b is not None:
                        n += 1
                        continue
                    w = World(c, conf, opaque=("get_auth",))
                    S = w.st.alloc(Obj("inst", cls=k.qual, attrs={}))
                    AU = V("param", "auth")
                    for o in w.call(f, selfv=S, kwargs={**args, "auth": AU, "asynchronous": const(True), "loop": V("param", "loop")}):
                        n += 1
                        text = f"a client of {a}{'' if p is None else f' with the proxy {p}'} by its {how}"
                        if not c.require(o.kind == "ret", "WHERE", q, f"{text} fails: {show(o.val)}", key="fails"):
                            continue
                        at = o.st.obj(S).attrs
                        for x, y in want.items():
                            got = plain(o.st, at.get(x))
                            c.require(got == y, "WHERE", q, f"{text} has the {x.strip('_')} {got}, not {y}", key=x)
                        made = [e for e in walk_events(events(o.st.trace)) if e.kind == "call" and e.get("name") == "get_auth"]
                        c.require(len(made) >= 1 and all(AU in [*e.args, *(e.get("kwargs") or {}).values()] for e in made) and at.get("auth") in [e.result for e in made], "WHO", q, "the given authentication is not used", key="given")
                        c.require(at.get("_asynchronous", at.get("asynchronous")) == const(True), "WHERE", q, "an asynchronous client is not asynchronous", key="async")
    w = World(c, DEFAULTS, opaque=("get_auth",))
    for o in w.call(f, selfv=w.st.alloc(Obj("inst", cls=k.qual, attrs={})), kwargs={"asynchronous": const(True)}):
        c.require(o.kind == "raise" and "ValueError" in show(o.val), "WHERE", q, f"a client without an address is {'made' if o.kind == 'ret' else 'refused with ' + show(o.val)}", key="none")
    if n < 100:
        raise Broken("the client's addresses are not followed")


def parsed(c):
    """what the client makes of an address can be connected to"""
    f = next((x for x in c.prog.funcs.values() if x.name == "parse_gateway_address" and x.module.name == "dask_gateway.comm"), None)
    if f is None:
        return
    for host, port in (("gw.example", 8000), ("10.0.0.1", 443), ("[::1]", 8786)):
        for pre in ("gateway://", ""):
            w = World(c)
            for o in w.call(f, [const(f"{pre}{host}:{port}/c1")]):
                got = plain(o.st, o.val) if o.kind == "ret" else show(o.val)
                c.require(tuple(got) == (host.strip("[]"), port, "c1") if isinstance(got, (tuple, list)) else False, "WHERE", f.qual, f"{pre}{host}:{port}/c1 is read as {got}", key="parse")


def http(c):
    """the HTTP proxy between the client and the gateway"""
    f = next((x for x in c.prog.funcs.values() if x.name == "_get_default_request_kwargs" and x.module.name == CL), None)
    if f is None:
        raise Broken("the client's HTTP proxy is not found")
    E = V("param", "environment's proxy")
    for conf, scheme, want in ((True, "http", (V("attr", E, "proxy", 0), V("attr", E, "proxy_auth", 0))), (True, "https", (NONE, NONE)), (False, "http", (NONE, NONE)), (None, "http", (NONE, NONE)), ("http://{HOST}:3128", "http", "url"), ("http://x:1", "https", "url")):
        w = World(c, {**DEFAULTS, "gateway.http-client.proxy": conf})
        for o in w.call(f, [const(scheme)]):
            d = o.st.obj(o.val) if o.kind == "ret" else None
            got = {l[1].a[0]: l[2] for l in d.layers if l[0] == "kv" and l[1].k == "const"} if d is not None and d.kind == "dict" else None
            if not c.require(got is not None, "HTTP", f.qual, f"the HTTP settings with a proxy of {conf} are {show(o.val)}", key="dict"):
                continue
            p, a = got.get("proxy", NONE), got.get("proxy_auth", NONE)
            text = f"with an HTTP proxy of {conf} a request to an {scheme} gateway uses {show(p)}"
            if want == "url":
                url = conf.format(**ENV)
                c.require(contains(p, lambda x: x == const(url)), "HTTP", f.qual, text, key="url")
                c.require(contains(a, lambda x: x == const(url)) and a != p, "HTTP", f.qual, text + " without its password", key="password")
            elif want == (NONE, NONE):
                c.require((p, a) == want, "HTTP", f.qual, text, key="off")
            else:
                c.require((show(p), show(a)) == (show(want[0]), show(want[1])), "HTTP", f.qual, text, key="env")


def given(o, k, v):
    x = o.st.obj(o.val)
    return x is not None and x.kind == "inst" and plain(o.st, x.attrs.get(k)) == v


def who(c):
    f = next((x for x in c.prog.funcs.values() if x.name == "get_auth" and x.module.name == AUTH), None)
    if f is None:
        raise Broken("get_auth is not found")
    q = f.qual
    B, K, J = (c.prog.cls(AUTH, x) for x in ("BasicAuth", "KerberosAuth", "JupyterHubAuth"))
    w = World(c, DEFAULTS)
    S = w.st.alloc(Obj("inst", cls=B.qual, attrs={"username": const("x"), "password": const("y")}))
    for o in w.call(f, [S]):
        c.require(o.kind == "ret" and o.val == S, "WHO", q, "an authentication object that is given is not used as it is", key="as it is")
    kinds = [("basic", B, {"username": "{USER}-1", "password": "pw"}, {"username": "alice-1", "password": "pw"}), ("basic", B, {"password": "{PORT}"}, {"username": "me", "password": "9000"}), ("basic", B, {}, {"username": "me", "password": ""}),
             ("kerberos", K, {}, {}), ("jupyterhub", J, {"api_token": "t-{USER}"}, {"api_token": "t-alice"})]
    for name, cls, kw, want in kinds:
        for how in ("configured", "named", "class"):
            conf = {**DEFAULTS, "gateway.auth.kwargs": kw, "gateway.auth.type": name if how == "configured" else "kerberos" if name != "kerberos" else "basic"}
            w = World(c, conf)
            a = [] if how == "configured" else [const(name)] if how == "named" else [V("cls", cls.qual)]
            for o in w.call(f, a):
                x = o.st.obj(o.val) if o.kind == "ret" else None
                c.require(x is not None and x.kind == "inst" and x.cls == cls.qual, "WHO", q, f"{name} authentication, {how}, is {show(o.val) if x is None else x.cls}", key=f"kind {how}")
                if x is not None and x.kind == "inst":
                    for k, v in want.items():
                        c.require(given(o, k, v), "WHO", q, f"{name} authentication with the settings {kw} has the {k} {plain(o.st, x.attrs.get(k))}", key=f"setting {k}")
    w = World(c, {**DEFAULTS, "gateway.auth.type": None})
    for o in w.call(f, []):
        c.require(o.kind == "raise", "WHO", q, "no authentication is configured, and the client is made", key="none")
    w = World(c, {**DEFAULTS, "gateway.auth.type": 7})
    for o in w.call(f, []):
        c.require(o.kind == "raise", "WHO", q, "what is no authentication is accepted", key="odd")
    w = World(c, {**DEFAULTS, "gateway.auth.type": "my.mod.Auth", "gateway.auth.kwargs": {"a": "{USER}"}})
    n = 0
    for o in w.call(f, []):
        for e in walk_events(events(o.st.trace)):
            if e.kind == "call" and e.callee == V("param", "imported my.mod.Auth"):
                n += 1
                c.require(plain(At(e.heap), (e.get("kwargs") or {}).get("a")) == "alice", "WHO", q, "an authentication of one's own does not get its settings", key="own settings")
                if o.kind == "ret":
                    c.require(o.val == e.result, "WHO", q, "an authentication of one's own is not used", key="own")
    c.require(n, "WHO", q, "an authentication of one's own is not made", key="own none")
    headers(c, B, K, J)


def headers(c, B, K, J):
    for user, pw in (("alice", ""), ("bob", "p:w"), ("é", "ü")):
        w = World(c)
        S = w.st.alloc(Obj("inst", cls=B.qual, attrs={"username": const(user), "password": const(pw)}))
        f = B.find_method("pre_request")
        for o in w.call(f, [V("param", "reply")], selfv=S):
            want = "Basic " + base64.b64encode(f"{user}:{pw}".encode("latin1")).decode()
            got = plain(o.st, o.val.a[0]) if o.kind == "ret" and o.val.k == "tuple" else show(o.val)
            c.require(got == {"Authorization": want}, "HEADER", f.qual, f"{user} with the password {pw!r} is sent as {got}", key="basic")
    for env, tok, want in (({"JUPYTERHUB_API_TOKEN": "abc"}, None, "abc"), ({"JUPYTERHUB_API_TOKEN": "abc"}, "mine", "mine"), ({}, "mine", "mine"), ({}, None, None)):
        w = World(c, env={"HOME": "/root", **env})
        for o in w.I.run_value(V("cls", J.qual), [], w.st.fork(), {"api_token": const(tok)} if tok else {}):
            c.paths += 1
            if want is None:
                c.require(o.kind == "raise", "HEADER", J.qual, "JupyterHub authentication without a token is made", key="no token")
                continue
            f = J.find_method("pre_request")
            if not c.require(o.kind == "ret", "HEADER", J.qual, f"JupyterHub authentication with a token fails: {show(o.val)}", key="token fails"):
                continue
            for r in w.call(f, [V("param", "reply")], selfv=o.val, st=o.st):
                got = plain(r.st, r.val.a[0]) if r.kind == "ret" and r.val.k == "tuple" else show(r.val)
                c.require(got == {"Authorization": "jupyterhub " + want}, "HEADER", f.qual, f"the token {want} is sent as {got}", key="hub")
    kerberos(c, K)


class Kerberos(World):
    def __init__(self, c, K, header=None):
        self.K, self.header = K, header
        super().__init__(c)
        self.I.asks = self.group
        self.R = V("param", "reply")
        self.st.store = {**self.st.store, (self.R, "headers"): put(self.st, {} if header is None else {"www-authenticate": header, "WWW-Authenticate": header})}
        U = V("param", "reply url")
        self.st.store = {**self.st.store, (self.R, "url"): U, (U, "host"): const("gw.example")}

    def more(self, I, st, name, args, kw):
        if name == "authGSSClientInit":
            st.ghost = {**st.ghost, "init": args[0]}
            return V("tuple", const(1), V("param", "gss"))
        if name == "authGSSClientResponse":
            return const("ticket") if args[0] == V("param", "gss") and st.ghost.get("stepped") == ("",) else const("?")
        if name == "authGSSClientStep":
            st.ghost = {**st.ghost, "stepped": st.ghost.get("stepped", ()) + (plain(st, args[1]),)}
            return const(1)
        return None

    def group(self, I, st, m, name):
        if m.k == "tuple" and name in ("group", "groups"):
            a = I.asked_with
            return V("tuple", *m.a[1:]) if name == "groups" else m.a[a[0].a[0] if a and a[0].k == "const" and a[0].a[0] in (0, 1) else 0]

    def search(self, st, args, name):
        a = next((x for k in self.K.mro() for n, x in k.assigns.items() if n == "auth_regex"), None)
        if not (isinstance(a, ast.Call) and a.args and isinstance(a.args[0], ast.Constant)):
            return None
        x = plain(st, args[0])
        r = re.compile(a.args[0].value, re.I if "re.I" in ast.unparse(a) else 0)
        if name == "findall":
            return put(st, r.findall(x))
        m = getattr(r, name)(x)
        if m is None:
            return NONE
        return V("tuple", const(m.group(0)), const(m.group(1)))


def kerberos(c, K):
    w = Kerberos(c, K)
    f = K.find_method("pre_request")
    for o in w.call(f, [w.R], selfv=w.st.alloc(Obj("inst", cls=K.qual, attrs={}))):
        got = plain(o.st, o.val.a[0]) if o.kind == "ret" and o.val.k == "tuple" else show(o.val)
        c.require(got == {"Authorization": "Negotiate ticket"}, "HEADER", f.qual, f"a Kerberos ticket is sent as {got}", key="ticket")
        c.require(o.kind == "ret" and o.val.a[1] == V("param", "gss"), "HEADER", f.qual, "the exchange's context is lost", key="context")
        c.require(plain(o.st, o.st.ghost.get("init")) == "HTTP@gw.example", "HEADER", f.qual, f"the exchange is with {plain(o.st, o.st.ghost.get('init'))}", key="service")
    f = K.find_method("post_response")
    for header, want in (("Negotiate proof==", "proof=="), ("negotiate proof", "proof"), ("Basic x, Negotiate proof", "proof"), (None, None), ("Basic x", None), ("Negotiate ", None)):
        w = Kerberos(c, K, header)
        for o in w.call(f, [w.R, V("param", "gss")], selfv=w.st.alloc(Obj("inst", cls=K.qual, attrs={}))):
            got = o.st.ghost.get("stepped", ())
            if want is None:
                c.require(o.kind == "raise" and not got, "MUTUAL", f.qual, f"a gateway that answers {header!r} is trusted", key="unproved")
            else:
                c.require(o.kind == "ret" and got == (want,), "MUTUAL", f.qual, f"a gateway that answers {header!r} is checked with {got}", key="proof")


def options(c):
    """the options a new cluster is asked for"""
    k = c.prog.cls(CL, "Gateway")
    f = k.find_method("_config_cluster_options")
    conf = {**DEFAULTS, "gateway.cluster.options": {"image": "dask:{PORT}", "cores": 4, "n": None}}
    w = World(c, conf)
    S = w.st.alloc(Obj("inst", cls=k.qual, attrs={"address": const("http://gw:8000")}))
    for o in w.call(f, selfv=S):
        got = plain(o.st, o.val)
        c.require(got == {"image": "dask:9000", "cores": 4, "n": None}, "OPTIONS", f.qual, f"the configured options are read as {got}", key="configured")
    f = k.find_method("_submit")
    for kw, want in (({}, {"image": "dask:9000", "cores": 4, "n": None}), ({"cores": 2, "extra": "x"}, {"image": "dask:9000", "cores": 2, "n": None, "extra": "x"})):
        w = World(c, conf, opaque=("_request",))
        S = w.st.alloc(Obj("inst", cls=k.qual, attrs={"address": const("http://gw:8000")}))
        n = 0
        for o in w.call(f, selfv=S, kwargs={a: const(b) for a, b in kw.items()}):
            for e in walk_events(events(o.st.trace)):
                if e.kind == "call" and e.get("name") == "_request":
                    n += 1
                    got = plain(At(e.heap), (e.get("kwargs") or {}).get("json"))
                    c.require(got == {"cluster_options": want}, "OPTIONS", f.qual, f"a cluster with the options {kw} is asked for with {got}", key="asked")
        c.require(n, "OPTIONS", f.qual, "no cluster is asked for", key="none")


def passed(c):
    """a cluster object's own client has the settings given for it"""
    k = c.prog.cls(CL, "GatewayCluster")
    names = ("address", "proxy_address", "public_address", "auth", "loop")
    for m in ("__init__", "from_name"):
        f = k.find_method(m)
        w = World(c, DEFAULTS, opaque=("get_auth", "_start_internal", "_connect", "_sync_shutdown", "sync"))
        vals = {x: V("param", "my " + x) for x in names}
        inits = []
        w.I.opaque_new = None
        base = w.I
        st = w.st.fork()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={})) if m == "__init__" else V("cls", k.qual)
        w.hide = (*w.hide, "_init_internal")
        n = 0
        for o in w.call(f, [] if m == "__init__" else [const("c1")], selfv=S, st=st, kwargs={**vals, "asynchronous": const(True)}):
            for e in walk_events(events(o.st.trace)):
                if e.kind == "call" and e.get("name") == "_init_internal":
                    n += 1
                    kw = dict(e.get("kwargs") or {})
                    kw.update(dict(zip(k.find_method("_init_internal").params()[1:], e.args)))
                    for x in names:
                        c.require(kw.get(x) == vals[x], "PASSED", f.qual, f"the {x} given is not the one used", key=x)
                    c.require(kw.get("asynchronous") == const(True), "PASSED", f.qual, "an asynchronous cluster object is not asynchronous", key="async")
                    if m == "from_name":
                        c.require(kw.get("name") == const("c1"), "PASSED", f.qual, "another cluster is connected to", key="name")
        c.require(n, "PASSED", f.qual, "the settings given are not used", key="none")
    f = k.find_method("_init_internal")
    g = c.prog.cls(CL, "Gateway").find_method("__init__")
    w = World(c, DEFAULTS, opaque=("__init__",))
    vals = {x: V("param", "my " + x) for x in names}
    st = w.st.fork()
    S = st.alloc(Obj("inst", cls=k.qual, attrs={}))
    n = 0
    for o in w.call(f, selfv=S, st=st, kwargs={**vals, "asynchronous": const(True), "name": const("c1")}):
        for e in walk_events(events(o.st.trace)):
            if e.kind == "new" and e.get("cls") == g.cls.qual:
                n += 1
                kw = {**dict(zip(g.params()[1:], e.args)), **(e.get("kwargs") or {})}
                for x in names:
                    c.require(kw.get(x) == vals[x], "PASSED", f.qual, f"the {x} given is not the one used", key=x)
                c.require(kw.get("asynchronous") == const(True), "PASSED", f.qual, "an asynchronous cluster object is not asynchronous", key="async")
    c.require(n, "PASSED", f.qual, "a cluster object has no client of its own", key="client")


def run(c):
    c.rule("WHERE", "the gateway, its public address and the scheduler proxy are those given, else those configured, else derived from the gateway's address; without an address there is no client")
    c.rule("WHO", "the authentication is the one given, else the configured one, with the configured settings")
    c.rule("HEADER", "a credential is sent as the gateway reads it")
    c.rule("MUTUAL", "with Kerberos only a gateway that proves its own identity is trusted")
    c.rule("HTTP", "requests go through the configured HTTP proxy, or that of the environment, or none")
    c.rule("OPTIONS", "a cluster is asked for with the configured options, overridden by those given")
    c.rule("PASSED", "a cluster object's client has the settings given to the object")
    connect(c)
    parsed(c)
    http(c)
    who(c)
    options(c)
    passed(c)
    c.assumptions += ["The addresses, settings and environments listed stand for all.", "urllib, base64 and re are modelled by the standard library's functions on constants of the program and of the scenario."]
