"""C53: valid credentials are accepted, as the user they name; others are refused for what they are.

Each authenticator is run on given requests, with given settings and given answers of
the Kerberos library or of JupyterHub."""
import base64
import itertools
import re

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show

from . import c54
from .optw import Unknown, get, put
from .sched import At

AUTH = "dask_gateway_server.auth"
REQ = V("param", "request")
CTX, COMPLETE, INCOMPLETE = V("param", "gss context"), V("ext", "kerberos.AUTH_GSS_COMPLETE"), V("ext", "kerberos.AUTH_GSS_CONTINUE")
CODES = {"HTTPUnauthorized": 401, "HTTPInternalServerError": 500, "HTTPBadGateway": 502, "HTTPForbidden": 403, "HTTPBadRequest": 400}


class World:
    def __init__(self, c, name, headers, **conf):
        self.c, self.k = c, c.prog.cls(AUTH, name)
        self.I = I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.unroll = 8
        I.environ = {"HOME": "/root"}
        st = I.new_state()
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={"log": V("param", "log"), "cookie_name": const("ck"), "cache_max_age": const(300), "cache": V("param", "cache"), **{k: v if isinstance(v, V) else const(v) for k, v in conf.items()}}))
        I.closed = (self.S,)
        hs = {}
        for k, v in headers.items():
            hs[k.title()] = hs[k.lower()] = v
        st.store = {**st.store, (REQ, "headers"): put(st, hs), (REQ, "cookies"): put(st, {})}
        st.ghost = {"calls": ()}
        self.st = st

    def opaque(self, f, recv):
        return f.cls is not None and f.cls.name == "UserCache"

    def results(self, I, st, name, func, args, kw):
        if func is not None:
            return None
        if name in ("b64decode", "standard_b64decode", "decodebytes", "urlsafe_b64decode"):
            x = get(st, args[0])
            try:
                return const(base64.b64decode(x))
            except Exception:
                st.ghost = {**st.ghost, "never": "binascii.Error"}
                return V("never")
        if name == "compare_digest" and all(a.k == "const" for a in args):
            return const(args[0].a[0] == args[1].a[0])
        return self.answer(I, st, name, args, kw)

    def answer(self, I, st, name, args, kw):
        return None

    def raises(self, I, st, ev):
        if ev.get("result") == V("never"):
            return [(st.ghost["never"], True)]

    def run(self, name="authenticate", *args, st=None):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.qual} has no {name}")
        outs = self.I.run_value(V("bound", self.S, f.qual), [REQ, *args], st or self.st.fork(), {}, awaited=True)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        if not outs:
            raise Broken(f"{f.qual} has no path")
        self.f = f
        return outs


def person(o, v=None):
    """(name, groups, admin) of the user an outcome is, or ("refused", status, scheme)"""
    v = o.val if v is None else v
    if o.kind == "ret":
        t = o.st.obj(v)
        if v.k == "tuple":
            v = v.a[0]
        x = o.st.obj(v)
        if x is None or x.kind != "inst" or not x.cls.endswith(".User"):
            return ("?", show(v))
        h = At(o.st)
        try:
            g = get(o.st, x.attrs["groups"]) if "groups" in x.attrs else None
            return (get(o.st, x.attrs["name"]), sorted(g or ()), bool(get(o.st, x.attrs["admin"])))
        except (Unknown, KeyError) as e:
            return ("?", f"{e}")
    n, attrs = o.val.a[0] if o.val.k == "exc" else None, {}
    x = o.st.obj(o.val)
    made = None
    if x is not None and x.kind == "inst":
        n, attrs = x.cls, x.attrs
    elif o.val.k == "call":
        n = show(o.val.a[0])
        made = next((e for e in walk_events(events(o.st.trace)) if e.get("result") is o.val), None)
    n = re.sub(r"\(.*", "", str(n)).rsplit(".", 1)[-1]
    scheme = None
    if made is not None:
        hd = (made.get("kwargs") or {}).get("headers")
        try:
            scheme = {k.lower(): v for k, v in get(At(made.heap) if not hasattr(o.st, "heap") else o.st, hd).items()}.get("www-authenticate") if hd is not None else None
        except Unknown:
            scheme = "?"
    return ("refused", CODES.get(n, n), scheme)


def cases(c, name, rid, what, headers, conf, want, mk=World, **kw):
    """run one request; ``want``: (name, groups, admin) | ("refused", status, scheme)"""
    w = mk(c, name, headers, **conf, **kw)
    outs = w.run()
    for o in outs:
        got = person(o)
        if want[0] == "refused":
            ok = got[0] == "refused" and got[1] in (want[1] if isinstance(want[1], tuple) else (want[1],)) and (want[2] is None or got[2] == want[2])
            text = f"{what}: {'is taken for ' + str(got[0]) if got[0] != 'refused' else f'is answered {got[1]} {got[2] or str()}'}, it is to be answered {want[1]} {want[2] or ''}"
        else:
            ok = got == want
            text = f"{what}: is taken for {got}, it names {want}" if got[0] != "refused" else f"{what}: is refused with {got[1]}"
        c.require(ok, rid, w.f.qual, text.strip(), key=rid.lower() + (" refused" if want[0] == "refused" else ""))
    return w, outs


def b64(s):
    return base64.b64encode(s.encode()).decode()


def client_headers(c, user, sent):
    """what the client sends for a name and a password"""
    w = c54.World(c)
    k = c.prog.cls(c54.AUTH, "BasicAuth")
    f = k.find_method("pre_request")
    S = w.st.alloc(Obj("inst", cls=k.qual, attrs={"username": const(user), "password": const(sent)}))
    for o in w.call(f, [V("param", "reply")], selfv=S):
        yield c54.plain(o.st, o.val.a[0])


def basic(c):
    N = "SimpleAuthenticator"
    for user, sent, password in itertools.product(("alice", "a.b-c@d"), ("", "pw", "pw:2", "pw:2:"), ("", "pw", "pw:2")):
        h = {"Authorization": "Basic " + b64(f"{user}:{sent}")}
        right = not password or sent == password
        cases(c, N, "BASIC" if right else "REFUSE", f"{user} with {'the' if right else 'a wrong'} password{'' if password else ', none configured,'}", h, {"password": password}, (user, [], False) if right else ("refused", 401, "Basic"))
    for user, sent in (("alice", "pw"), ("zoé", "pw"), ("alice", "naïve:ß")):
        for h in client_headers(c, user, sent):
            cases(c, N, "BASIC", f"{user} with the password {sent} as the client sends it", h, {"password": sent}, (user, [], False))
    for h in ({}, {"Authorization": ""}, {"Authorization": "Negotiate abc"}, {"Authorization": "jupyterhub t"}, {"Authorization": "token t"}):
        for password in ("", "pw"):
            cases(c, N, "REFUSE", f"a request with {h or 'no header'}", h, {"password": password}, ("refused", 401, "Basic"))


class Kerberos(World):
    def __init__(self, *a, ends=(COMPLETE, COMPLETE), fails=None, principal="alice@EXAMPLE.COM", **kw):
        self.ends, self.fails, self.principal = ends, fails, principal
        super().__init__(*a, **{"service_name": "HTTP", "keytab": "/k.tab", **kw})

    def answer(self, I, st, name, args, kw):
        if not name.startswith("authGSSServer"):
            return None
        step = name[len("authGSSServer"):]
        st.ghost = {**st.ghost, "calls": st.ghost["calls"] + ((step, tuple(args)),)}
        if self.fails == step:
            st.ghost = {**st.ghost, "never": "kerberos.GSSError"}
            return V("never")
        if step == "Init":
            return V("tuple", self.ends[0], CTX)
        if step == "Step":
            return self.ends[1]
        if step == "Response":
            return const("proof")
        if step == "UserName":
            return const(self.principal)
        return COMPLETE


def kerberos(c):
    N = "KerberosAuthenticator"

    def world(c, name, headers, **kw):
        w = Kerberos(c, name, headers, **kw)
        for a, b in ((COMPLETE, INCOMPLETE), (INCOMPLETE, COMPLETE)):
            w.st.facts = w.st.facts.assume(V("cmp", "==", a, b), False)
        w.st.facts = w.st.facts.assume(V("cmp", "is", CTX, NONE), False)
        return w
    good = {"Authorization": "Negotiate tick"}
    for principal, user in (("alice@EXAMPLE.COM", "alice"), ("bob", "bob"), ("svc/host@A.B", "svc/host")):
        w, outs = cases(c, N, "KERBEROS", f"a completed exchange for {principal}", good, {}, (user, [], False), mk=world, principal=principal)
        for o in outs:
            calls = o.st.ghost["calls"]
            c.require(("Step", (CTX, const("tick"))) in calls, "KERBEROS", w.f.qual, "the client's ticket is not what is checked", key="ticket")
            c.require(("Init", (const("HTTP"),)) in calls, "KERBEROS", w.f.qual, "the service's own name is not what is checked against", key="service")
            clean(c, w, o)
    for h in ({}, {"Authorization": ""}, {"Authorization": "Basic " + b64("a:b")}):
        cases(c, N, "REFUSE", f"a request with {h or 'no header'}", h, {}, ("refused", 401, "Negotiate"), mk=world)
    for ends in ((INCOMPLETE, COMPLETE), (COMPLETE, INCOMPLETE)):
        w, outs = cases(c, N, "REFUSE", "an exchange that is not complete", good, {}, ("refused", (401, 500, 403), None), mk=world, ends=ends)
        for o in outs:
            clean(c, w, o)
    for step in ("Init", "Step", "Response", "UserName"):
        w, outs = cases(c, N, "REFUSE", f"an exchange whose {step} fails", good, {}, ("refused", (401, 500, 403), None), mk=world, fails=step)
        for o in outs:
            clean(c, w, o)
    # the proof is sent back
    H, RESP = V("param", "handler"), V("param", "response")
    w = world(c, N, good)
    base = w.answer

    def answer(I, st, name, args, kw):
        if I.callee is H:
            return RESP
        return base(I, st, name, args, kw)
    w.answer = answer
    n = 0
    for o in w.run("authenticate_and_handle", H):
        if o.kind != "ret":
            c.fail("PROOF", w.f.qual, f"an accepted request fails: {show(o.val)}", key="fails")
            continue
        sent = []
        for e in walk_events(events(o.st.trace)):
            if e.kind == "setitem" and e.key == const("WWW-Authenticate") and contains(e.obj, lambda x: x is RESP):
                try:
                    sent.append(get(At(e.heap), e.value))
                except Unknown:
                    sent.append(show(e.value))
        n += 1
        c.require(o.val is RESP or contains(o.val, lambda x: x is RESP), "PROOF", w.f.qual, "an accepted request does not get its own response", key="response")
        c.require(sent[-1:] == ["Negotiate proof"], "PROOF", w.f.qual, f"the gateway's proof of its own identity is not sent to the client: {sent}", key="proof")
    if not n:
        raise Broken("no accepted request is followed")
    # the configured key
    w = world(c, N, good)
    for o in w.I.run_value(V("bound", w.S, w.k.find_method("setup").qual), [V("param", "app")], w.st.fork(), {}, awaited=True):
        c.paths += 1
        ks = [e for e in walk_events(events(o.st.trace)) if e.kind == "setitem" and e.key == const("KRB5_KTNAME") and e.value == const("/k.tab")]
        c.require(bool(ks), "KERBEROS", w.k.find_method("setup").qual, "the configured keytab is not used", key="keytab")


def clean(c, w, o):
    made = [x for x in o.st.ghost["calls"] if x[0] == "Init"]
    got = any(x[0] == "Clean" and x[1] == (CTX,) for x in o.st.ghost["calls"])
    if made and w.fails != "Init":
        c.require(got, "RELEASE", w.f.qual, "a Kerberos context is not released", key="clean")


class Hub(World):
    def __init__(self, *a, status=200, data=None, fails=False, tls=None, **kw):
        self.status, self.data, self.fails = status, data, fails
        super().__init__(*a, **{"jupyterhub_api_url": "http://hub/api", "jupyterhub_api_token": "svc", "jupyterhub_service_name": "gw", "use_service_access_scopes": False, "session": V("param", "session"), "ssl_context": tls or NONE, **kw})

    def answer(self, I, st, name, args, kw):
        callee = I.callee
        b = callee.a[0] if callee is not None and callee.k in ("attr", "bm") else None
        R = V("param", "reply")
        if b == V("param", "session") and name in ("get", "request"):
            st.ghost = {**st.ghost, "calls": st.ghost["calls"] + ((name, tuple(args), dict(kw)),)}
            if self.fails:
                st.ghost = {**st.ghost, "never": "aiohttp.ClientConnectionError"}
                return V("never")
            st.store = {**st.store, (R, "status"): const(self.status), (R, "ok"): const(self.status < 400), (R, "reason"): const("r")}
            return R
        if b == R and name == "json":
            if self.data is None:
                st.ghost = {**st.ghost, "never": "ValueError"}
                return V("never")
            return put(st, self.data)
        if b == R and name == "raise_for_status":
            if self.status >= 400:
                st.ghost = {**st.ghost, "never": "aiohttp.ClientResponseError"}
                return V("never")
            return NONE
        return None


def hub(c):
    N = "JupyterHubAuthenticator"
    good = {"Authorization": "jupyterhub tok"}
    own = "access:services!service=gw"
    replies = [({"kind": "user", "name": "alice", "groups": ["g"], "admin": True}, ("alice", ["g"], True)), ({"kind": "user", "name": "bob"}, ("bob", [], False)), ({"kind": "user", "name": "bob", "groups": [], "admin": False}, ("bob", [], False)),
               ({"kind": "service", "name": "alice"}, ("service:alice", [], False)), ({"kind": "user", "name": "service:alice"}, ("user:service:alice", [], False)), ({"kind": "user", "name": "cy", "groups": ["a", "b"], "admin": False}, ("cy", ["a", "b"], False))]
    for data, want in replies:
        for use, scopes in ((False, None), (False, []), (False, ["other"]), (True, [own]), (True, ["access:services"]), (True, ["x", own, "y"])):
            d = {**data, **({"scopes": scopes} if scopes is not None else {})}
            for tls in (None, V("param", "tls context")):
                w, outs = cases(c, N, "HUB", f"a token JupyterHub accepts for {data['kind']} {data['name']}", good, {"use_service_access_scopes": use}, want, mk=Hub, data=d, tls=tls)
                for o in outs:
                    asked(c, w, o, tls)
        for scopes in (None, [], ["access:services!service=other"], ["access:servers"]):
            d = {**data, **({"scopes": scopes} if scopes is not None else {})}
            cases(c, N, "REFUSE", "a token without access to the gateway", good, {"use_service_access_scopes": True}, ("refused", 401, "jupyterhub"), mk=Hub, data=d)
    for h in ({}, {"Authorization": ""}, {"Authorization": "Basic " + b64("a:b")}, {"Authorization": "token x"}):
        w, outs = cases(c, N, "REFUSE", f"a request with {h or 'no header'}", h, {}, ("refused", 401, "jupyterhub"), mk=Hub, data=replies[0][0])
        for o in outs:
            c.require(not o.st.ghost["calls"], "REFUSE", w.f.qual, "JupyterHub is asked about a request without a token", key="asked")
    for status in (400, 403, 404, 429, 500, 502, 503):
        want = 401 if status == 404 else 502 if status >= 500 else 500
        cases(c, N, "REFUSE", f"a token JupyterHub answers {status} for", good, {}, ("refused", want, "jupyterhub" if want == 401 else None), mk=Hub, status=status, data=replies[0][0])
    settings(c)


def asked(c, w, o, tls):
    calls = o.st.ghost["calls"]
    if not c.require(len(calls) == 1, "ASK", w.f.qual, f"JupyterHub is asked {len(calls)} times", key="times"):
        return
    name, args, kw = calls[0]
    try:
        url = get(o.st, args[-1] if args else kw["url"])
        hs = {k.lower(): v for k, v in get(o.st, kw["headers"]).items()} if "headers" in kw else {}
    except Unknown as e:
        c.fail("ASK", w.f.qual, f"what JupyterHub is asked is not known: {e}", key="unknown")
        return
    c.require(url == "http://hub/api/user", "ASK", w.f.qual, f"JupyterHub is asked at {url}", key="url")
    c.require(hs.get("authorization") == "token tok", "ASK", w.f.qual, f"JupyterHub is asked about {hs.get('authorization')}, the client's token is tok", key="token")
    if tls is not None:
        c.require(tls in (kw.get("ssl"), kw.get("ssl_context")), "ASK", w.f.qual, "JupyterHub is asked without the configured TLS settings", key="tls")


def settings(c):
    N = "JupyterHubAuthenticator"
    k = c.prog.cls(AUTH, N)
    f = k.find_method("setup")
    for cert, key, ca in (("/c.pem", "/k.pem", "/ca.pem"), ("/c.pem", "/k.pem", ""), ("", "", "")):
        w = Hub(c, N, {}, tls_cert=cert, tls_key=key, tls_ca=ca)
        for o in w.I.run_value(V("bound", w.S, f.qual), [V("param", "app")], w.st.fork(), {}, awaited=True):
            c.paths += 1
            if not c.require(o.kind == "ret", "SETUP", f.qual, f"its start fails: {show(o.val)}", key="fails"):
                continue
            x = o.st.obj(w.S).attrs.get("ssl_context", NONE)
            calls = [e for e in walk_events(events(o.st.trace)) if e.kind == "call"]
            if not cert:
                c.require(x in (NONE, const(True)) or x is NONE or x.k == "call", "SETUP", f.qual, f"without TLS settings JupyterHub is asked with {show(x)}", key="plain")
                continue
            load = [e for e in calls if e.get("name") == "load_cert_chain" and contains(e.callee, lambda y: y == x)]
            vals = [[*e.args, *(e.get("kwargs") or {}).values()] for e in load]
            c.require(any(const(cert) in v and const(key) in v for v in vals), "SETUP", f.qual, "the configured certificate is not used to ask JupyterHub", key="cert")
            cas = [e for e in calls if e.get("name") == "load_verify_locations" and contains(e.callee, lambda y: y == x) or e.get("name") == "create_default_context" and e.get("result") == x]
            got = any(const(ca) in [*e.args, *(e.get("kwargs") or {}).values()] for e in cas)
            c.require(got or not ca, "SETUP", f.qual, "the configured authority is not used to check JupyterHub", key="ca")
    for trait, var, need in (("jupyterhub_api_token", "JUPYTERHUB_API_TOKEN", True), ("jupyterhub_api_url", "JUPYTERHUB_API_URL", True), ("jupyterhub_service_name", "JUPYTERHUB_SERVICE_NAME", False)):
        d = default_of(k, trait)
        if d is None:
            c.fail("SETUP", k.qual, f"{trait} is not taken from {var}", key="default")
            continue
        for env in ({var: "abc"}, {}):
            I = Interp(c.prog, c.types)
            I.environ = {"HOME": "/root", **env}
            st = I.new_state()
            S = st.alloc(Obj("inst", cls=k.qual, attrs={"log": V("param", "log")}))
            for o in I.run_function(d, [], selfv=S, st=st):
                c.paths += 1
                c.analysed(d)
                if env:
                    c.require(o.kind == "ret" and o.val == const("abc"), "SETUP", d.qual, f"{var} is set, {trait} is {show(o.val)}", key="env")
                else:
                    c.require(o.kind == "raise" if need else o.kind == "ret" and o.val == const(""), "SETUP", d.qual, f"{var} is not set, {trait} is {show(o.val)}", key="unset")
    d = default_of(k, "use_service_access_scopes")
    if d is None:
        c.fail("SETUP", k.qual, "a service name does not turn the scopes on", key="scopes")
        return
    for name in ("gw", ""):
        w = Hub(c, N, {}, jupyterhub_service_name=name)
        for o in w.I.run_function(d, [], selfv=w.S, st=w.st.fork()):
            c.paths += 1
            c.analysed(d)
            c.require(o.kind == "ret" and o.val == const(bool(name)), "SETUP", d.qual, f"with{'' if name else 'out'} a service name the scopes are {'off' if name else 'on'}", key="scopes")


def default_of(k, trait):
    from .c52 import default_of
    return default_of(k, trait)


def run(c):
    c.rule("BASIC", "a name with the shared password, or any password when there is none, is that user")
    c.rule("KERBEROS", "a completed exchange is the user of its principal; the client's own ticket is checked, with the configured service and key")
    c.rule("PROOF", "the gateway's own proof is sent with the response")
    c.rule("RELEASE", "each Kerberos context is released")
    c.rule("HUB", "a token JupyterHub accepts is the user or service it names, with its groups and rights")
    c.rule("ASK", "JupyterHub is asked once, about the client's own token, at the configured address, with the configured TLS settings")
    c.rule("SETUP", "the settings for asking JupyterHub are the configured ones, those of the environment otherwise")
    c.rule("REFUSE", "a missing or wrong credential is answered with a challenge of the authenticator's scheme, a failing provider with an error")
    basic(c)
    kerberos(c)
    hub(c)
    c.assumptions += ["Two names, several passwords, principals, replies and scopes stand for all.", "The Kerberos library and JupyterHub answer as documented."]
