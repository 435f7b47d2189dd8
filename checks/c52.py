"""C52: the gateway keeps the proxy process it manages running, with the configuration it has.

The gateway's start-up is followed with processes that live for a given number of
waits and starts that succeed or fail as given; the supervision it leaves running is
followed through these lives. The proxy's own start is followed from its command line."""
import ast
import itertools

from sa.gossa import Iface, Sym
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show

from .goproxy import World as GoWorld, pieces, started
from .proxywire import P, Gate, commands, parse

LONGEST = 60
PERIOD = 30


class World:
    """a gateway with its proxy; ``lives``: how many waits each process lives; ``starts``: how attempts to start one end"""

    def __init__(self, c, lives=(), starts=(), waits=6, code=1, **conf):
        self.c, self.lives, self.starts, self.waits, self.code = c, lives, starts, waits, code
        self.k = c.prog.cls(P, "Proxy")
        self.I = I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=lambda f, r: f.cls is not None and f.cls.name in ("CancelGroup", "TaskPool", "Flag"))
        I.unroll = 2 * waits + 8
        I.environ = {"HOME": "/root"}
        st = I.new_state()
        d = {"address": ":8000", "tcp_address": ":8786", "gateway_url": "http://gw:8001", "api_token": "sekrit", "log_level": "warn", "tls_cert": "", "tls_key": "", "prefix": "", "max_events": 100, "externally_managed": False, "proxy_status_period": PERIOD, **conf}
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={**{k: const(v) for k, v in d.items()}, "log": V("param", "log"), "parent": V("param", "parent")}))
        self.st = st
        I.closed = (self.S,)

    def results(self, I, st, name, func, args, kw):
        if func is not None:
            return None
        g = st.ghost
        if name == "Popen":
            n = g.get("tries", 0)
            g = st.ghost = {**g, "tries": n + 1}
            if n < len(self.starts) and not self.starts[n]:
                st.ghost = {**g, "never": "start"}
                return V("never")
            k = g.get("procs", 0)
            st.ghost = {**g, "procs": k + 1, "age": 0}
            v = V("param", f"process {k}")
            st.facts = st.facts.assume(V("cmp", "is", v, NONE), False)
            return v
        if name == "poll":
            callee = I.callee
            b = callee.a[0] if callee is not None and callee.k in ("attr", "bm") else None
            if b is None or b.k != "param" or not str(b.a[0]).startswith("process "):
                return None
            k = int(str(b.a[0]).split()[-1])
            gone = k < g.get("procs", 0) - 1 or self.dead(g)
            return const(self.code) if gone else NONE
        if name == "sleep":
            n = g.get("slept", 0)
            if n >= self.waits:
                st.ghost = {**g, "never": "cancelled"}
                return V("never")
            st.ghost = {**g, "slept": n + 1, "age": g.get("age", 0) + 1}
            return NONE
        return None

    def dead(self, g):
        k = g.get("procs", 0) - 1
        return k < len(self.lives) and g.get("age", 0) >= self.lives[k]

    def raises(self, I, st, ev):
        if ev.get("result") == V("never"):
            return [("OSError", True)] if st.ghost.get("never") == "start" else [("asyncio.CancelledError", True)]

    def call(self, st, name, *args):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"Proxy has no {name}")
        outs = self.I.run_value(V("bound", self.S, f.qual), list(args), st, {}, awaited=True)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return f, outs


def spawned(o):
    """what was left running: (function, receiver, arguments)"""
    for e in walk_events(events(o.st.trace)):
        if e.kind in ("call", "spawn"):
            for a in [*(e.get("args") or ()), e.get("coro")]:
                x = e.heap.get(a.a[0]) if a is not None and a.k == "ref" else None
                if x is not None and x.kind == "coro":
                    yield x


def begin(c, w):
    f, outs = w.call(w.st.fork(), "setup", V("param", "app"))
    return f, outs


def supervise(c):
    n = 0
    for starts, lives, code in itertools.chain(
            (((True,) + s, l, k) for s in ((), (False,), (False, False), (True, False), (False,) * 4) for l in ((), (0, 99), (2, 99), (1, 1, 99), (0, 0, 0, 99)) for k in (1, 0, -9))):
        w = World(c, lives, starts, code=code)
        f, outs = begin(c, w)
        text = f"with processes that live {lives or 'on'} and starts that end {['fail', 'work'][0] if False in starts else 'well'}"
        for o in outs:
            if o.kind != "ret":
                c.fail("START", f.qual, f"a gateway whose proxy starts fails to start: {show(o.val)}", key="fails")
                continue
            c.require(o.st.ghost.get("procs", 0) == 1, "START", f.qual, f"the gateway's start starts {o.st.ghost.get('procs', 0)} proxies", key="one")
            left = [x for x in spawned(o)]
            if not c.require(bool(left), "WATCH", f.qual, "nothing watches the proxy's process", key="left"):
                continue
            seen = False
            for x in left:
                m = x.func
                for r in w.I.run_function(m, list(x.args), selfv=x.selfv, kwargs=dict(x.kwargs), st=o.st.fork()):
                    c.paths += 1
                    c.analysed(m, *w.I.inlined)
                    seen = True
                    n += 1
                    follow(c, w, m, r, text)
            c.require(seen, "WATCH", f.qual, "what watches the proxy's process goes round for ever without waiting", key="spins")
    if not n:
        raise Broken("nothing watches the proxy's process")


def follow(c, w, m, r, text):
    q = m.qual
    c.require(r.kind == "raise" and r.st.ghost.get("never") == "cancelled", "ENDS", q, f"{text}, the proxy's process is no longer watched after {r.st.ghost.get('slept', 0)} waits" + (f" ({show(r.val)})" if r.kind == "raise" else ""), key="ends")
    # the lives of the processes, told by the waits
    age, procs, tries, owed, failed = 0, 1, 1, 0, False
    alive = lambda: not (procs - 1 < len(w.lives) and age >= w.lives[procs - 1])
    fails = [e for e in walk_events(events(r.st.trace)) if e.kind in ("call", "callraised") and e.get("name") in ("Popen", "sleep", "poll")]
    first = True
    for e in fails:
        name = e.get("name")
        if name == "Popen":
            if first:
                first = False       # the start-up's
                continue
            c.require(not alive(), "ONE", q, f"{text}, another proxy is started while one runs", key="second")
            c.require(not failed, "DELAY", q, f"{text}, a start that failed is tried again at once", key="spin")
            ok = tries >= len(w.starts) or w.starts[tries]
            failed = not ok
            tries += 1
            if ok:
                procs, age, owed = procs + 1, 0, 0
            else:
                owed = 0
        elif name == "sleep":
            if e is fails[-1] and r.kind == "raise":
                break
            d = e.args[0].a[0] if e.args and e.args[0].k == "const" else None
            c.require(isinstance(d, (int, float)) and 0 < d <= (PERIOD if alive() else LONGEST), "DELAY", q, f"{text}, the next look is after {d} s", key="delay")
            if not alive():
                owed += 1
                c.require(owed <= 1, "RESTART", q, f"{text}, an ended proxy is not restarted", key="restart")
            age += 1
            failed = False


def managed(c):
    """nothing is started or watched where the proxy is managed elsewhere"""
    w = World(c, externally_managed=True)
    f, outs = begin(c, w)
    for o in outs:
        c.require(o.kind == "ret", "ELSE", f.qual, "a gateway with a proxy managed elsewhere fails to start", key="fails")
        c.require(not o.st.ghost.get("tries"), "ELSE", f.qual, "a proxy managed elsewhere is started", key="starts")
        for x in spawned(o):
            for r in w.I.run_function(x.func, list(x.args), selfv=x.selfv, kwargs=dict(x.kwargs), st=o.st.fork()):
                c.require(not r.st.ghost.get("tries"), "ELSE", f.qual, "a proxy managed elsewhere is started", key="starts")
        g, ends = w.call(o.st.fork(), "cleanup")
        for r in ends:
            c.require(r.kind == "ret", "ELSE", g.qual, f"the gateway's shutdown fails with a proxy managed elsewhere: {show(r.val)}", key="cleanup")
            c.require(not [e for e in walk_events(events(r.st.trace)) if e.kind == "call" and e.get("name") in ("terminate", "kill", "send_signal")], "ELSE", g.qual, "a proxy managed elsewhere is ended", key="killed")


def tls(c):
    """the TLS settings are complete before anything starts"""
    for cert, key in (("/c.pem", ""), ("", "/k.pem"), ("/c.pem", "/k.pem"), ("", "")):
        w = World(c, tls_cert=cert, tls_key=key)
        f, outs = begin(c, w)
        for o in outs:
            if bool(cert) != bool(key):
                c.require(o.kind == "raise" and not o.st.ghost.get("tries"), "TLS", f.qual, f"a proxy with {'a certificate and no key' if cert else 'a key and no certificate'} is {'started' if o.st.ghost.get('tries') else 'accepted'}", key="half")
            else:
                c.require(o.kind == "ret" and o.st.ghost.get("tries") == 1, "TLS", f.qual, f"a proxy with {'TLS' if cert else 'no TLS'} is not started", key="whole")
    w0 = GoWorld(listens=False)
    w0.boot()
    for cert, key in (("/c.pem", "/k.pem"), ("", "")):
        for child in (None, False):
            gate = Gate(c, tls_cert=cert, tls_key=key)
            argv, _ = commands(c, gate, child)
            f = gate.k.find_method("get_start_command")
            flags = parse(c, f.qual, argv, w0.defined) if argv and all(isinstance(a, str) for a in argv) else None
            if not c.require(flags is not None, "TLS", f.qual, f"the proxy's command line is {argv}", key="argv"):
                continue
            c.require((flags.get("tls-cert", ""), flags.get("tls-key", "")) == (cert, key), "TLS", f.qual, f"the proxy is started with the certificate {flags.get('tls-cert')} and the key {flags.get('tls-key')}, configured are {cert or None} and {key or None}", key="given")


def stopped(c):
    """at the end, the process that runs then is ended, after the watch"""
    for lives, starts in (((), (True,)), ((1, 99), (True,)), ((0, 1, 99), (True, False))):
        w = World(c, lives, starts)
        f, outs = begin(c, w)
        for o in outs:
            sts = [o.st]
            for x in spawned(o):
                sts += [r.st for r in w.I.run_function(x.func, list(x.args), selfv=x.selfv, kwargs=dict(x.kwargs), st=o.st.fork())]
            for s in sts:
                n = s.ghost.get("procs", 0)
                upto = s.trace
                g, ends = w.call(s.fork(), "cleanup")
                for r in ends:
                    evs = [e for e in walk_events(events(r.st.trace, upto)) if e.kind == "call"]
                    kills = [(i, e) for i, e in enumerate(evs) if e.get("name") in ("terminate", "kill", "send_signal")]
                    stops = [i for i, e in enumerate(evs) if e.get("name") in ("close", "cancel") and e.get("target") is not None or e.get("name") == "cancel"]
                    last = f"process {n - 1}"
                    c.require(any(contains(e.callee, lambda x: x == V("param", last)) for _, e in kills), "STOP", g.qual, "the proxy still runs after the gateway's end", key="runs")
                    c.require(all(stops and stops[0] < i for i, _ in kills), "STOP", g.qual, "the proxy is ended while it is still watched: it is restarted", key="watched")


def default_of(k, trait):
    for f in k.methods.values():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "default" and d.args and isinstance(d.args[0], ast.Constant) and d.args[0].value == trait:
                return f


def token(c):
    """the token between the two"""
    k = c.prog.cls(P, "Proxy")
    f = default_of(k, "api_token")
    if f is None:
        raise Broken("the proxy's token has no default")
    for env, want in (({"DASK_GATEWAY_PROXY_TOKEN": "abc"}, "abc"), ({}, None), ({"DASK_GATEWAY_PROXY_TOKEN": ""}, None)):
        I = Interp(c.prog, c.types)
        I.environ = {"HOME": "/root", **env}
        st = I.new_state()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={"log": V("param", "log")}))
        for o in I.run_function(f, [], selfv=S, st=st):
            c.paths += 1
            c.analysed(f)
            if want:
                c.require(o.kind == "ret" and o.val == const(want), "TOKEN", f.qual, f"the token {want} is configured, used is {show(o.val)}", key="configured")
            else:
                new = [x for x in walk_events(events(o.st.trace)) if x.kind == "call" and x.get("result") is not None and (show(x.callee).split(".")[-1] in ("uuid4", "token_hex", "token_urlsafe", "token_bytes", "urandom")) and contains(o.val, lambda y: y == x.get("result"))]
                c.require(o.kind == "ret" and bool(new), "TOKEN", f.qual, f"with no token configured the one used is {show(o.val)}, not a new random one", key="random")


class Start(GoWorld):
    """the proxy's start; each address can or cannot be listened on"""

    def __init__(self, busy, **kw):
        super().__init__(listens=False, **kw)
        self.busy = busy

    def extra(self, I, st, name, args, ins, f):
        m = name.rsplit(".", 1)[-1]
        if name in ("net.Listen", "(*net.ListenConfig).Listen"):
            a = args[-1]
            st.trace.append({"kind": "listen", "a": a, "net": args[-2]})
            if a in self.busy:
                return [((None, self.error(st, "address in use")), st)]
            return [((Iface("*net.TCPListener", Sym("listener", a)), None), st)]
        if m in ("Serve", "ServeTLS", "ListenAndServe", "ListenAndServeTLS") and "net/http" in name:
            st.trace.append({"kind": "serve", "how": m, "args": args})
            return [(self.error(st, "listener failed"), st)]
        if m == "Accept" and args and isinstance(pieces(args[0]), Sym) and pieces(args[0]).k == "listener":
            st.trace.append({"kind": "accept", "a": pieces(args[0]).a[0]})
            from sa.gossa import Out
            return [Out("end", "accepts", st)]
        return super().extra(I, st, name, args, ins, f)


def listens(c):
    q = "dask-gateway-proxy"
    for addr, tcp in ((":8000", ":8786"), (":8000", ":8000"), (":8000", ""), ("127.0.0.1:1", "10.0.0.1:1")):
        need = {addr, tcp or addr}
        for busy in (set(), {addr}, {tcp or addr}):
            w = Start(busy, flags={"address": addr, "tcp-address": tcp}, script=[("table", [], 0)])
            outs = w.boot()
            c.paths += len(outs)
            for o in outs:
                got = [e["a"] for e in o.st.trace if e["kind"] == "listen"]
                if busy:
                    c.require(o.kind in ("exit", "panic") and o.val != 0, "LISTEN", q, f"the proxy goes on although {sorted(busy)[0]} is not available: {o.kind} {o.val!r}", key="busy")
                    continue
                c.require(o.kind == "end", "LISTEN", q, f"the proxy with the addresses {addr} and {tcp or addr} ends: {o.kind} {o.val!r}", key="ends")
                c.require(sorted(got) == sorted(need), "LISTEN", q, f"the proxy listens on {sorted(got)}, its addresses are {sorted(need)}", key="where")
    for cert, key in (("/c.pem", "/k.pem"), ("", ""), ("/c.pem", ""), ("", "/k.pem")):
        w = Start(set(), flags={"address": ":8000", "tcp-address": ":8786", "tls-cert": cert, "tls-key": key}, script=[("table", [], 0)])
        for o in w.boot():
            c.paths += 1
            if bool(cert) != bool(key):
                c.require(o.kind in ("panic", "exit") and o.val != 0 and not [e for e in o.st.trace if e["kind"] == "listen"], "SERVE", q, "the proxy starts with half of its TLS settings", key="half")
                continue
            seen = 0
            for e in started(o.st):
                s = o.st.copy()
                s.trace, s.held = [], ()
                ends = list(w.I.run(w.p.funcs[e["callee"].f], e["args"], s, e["callee"].b))
                for r in ends:
                    for x in r.st.trace:
                        if x["kind"] == "serve":
                            seen += 1
                            tail = [a for a in x["args"] if isinstance(a, str)]
                            c.require(x["how"].endswith("TLS") == bool(cert), "SERVE", q, f"HTTP clients are served {'with' if x['how'].endswith('TLS') else 'without'} TLS, the proxy has {'a' if cert else 'no'} certificate", key="how")
                            if cert and x["how"].endswith("TLS"):
                                c.require(tail[-2:] == [cert, key], "SERVE", q, f"TLS is served with {tail}", key="which")
                            c.require(any(z.kind in ("exit", "panic") and z.val != 0 for z in ends), "SERVE", q, "the proxy goes on after its HTTP server failed", key="failed")
            c.require(seen, "SERVE", q, "HTTP clients are not served", key="none")
    for env in ({}, {"DASK_GATEWAY_PROXY_TOKEN": ""}):
        w = Start(set(), env=env, script=[("table", [], 0)])
        for o in w.boot():
            c.paths += 1
            c.require(o.kind in ("panic", "exit") and o.val != 0, "LISTEN", q, "the proxy starts without a token", key="token")
    w = Start(set(), flags={"api-url": ""}, script=[("table", [], 0)])
    for o in w.boot():
        c.paths += 1
        c.require(o.kind in ("panic", "exit") and o.val != 0, "LISTEN", q, "the proxy starts without a gateway", key="api")


def standalone(c):
    """`dask-gateway-server proxy` becomes a proxy of its own"""
    k = c.prog.cls(P, "ProxyApp")
    f = k.find_method("start")
    CMD, ENV = [V("param", "exe"), const("-address"), const(":1")], V("param", "env")
    made = []

    def results(I, st, name, func, args, kw):
        if name == "get_start_command":
            v = kw.get("is_child_process") if hasattr(kw, "get") and kw.get("is_child_process") is not None else args[0] if args else const(True)
            made.append(v)
            return st.alloc(Obj("list", segs=tuple(("one", x) for x in CMD)))
        if name == "get_start_env":
            return ENV
        return None
    I = Interp(c.prog, c.types, results=results, opaque=lambda g, r: g.name in ("get_start_command", "get_start_env"))
    st = I.new_state()
    S = st.alloc(Obj("inst", cls=k.qual, attrs={"parent": V("param", "parent"), "config_file": const("c.py")}))
    n = 0
    for o in I.run_function(f, [], selfv=S, st=st):
        c.paths += 1
        c.analysed(f)
        for e in walk_events(events(o.st.trace)):
            if e.kind == "new" and (e.get("cls") or "").endswith("Proxy") or e.kind == "call" and e.get("name") == "Proxy":
                kw = e.get("kwargs") or {}
                c.require(kw.get("parent") is not None and contains(kw["parent"], lambda x: x == V("param", "parent")), "ALONE", f.qual, "a proxy of its own does not have the gateway's configuration", key="parent")
            if e.kind == "call" and (e.get("name") or "").startswith("exec"):
                n += 1
                vals = [*e.args, *(e.get("kwargs") or {}).values()]
                flat = []
                for v in vals:
                    x = e.heap.get(v.a[0]) if v.k == "ref" else None
                    flat += [y[1] for y in x.segs] if x is not None and x.kind == "list" else list(v.a) if v.k == "tuple" else [v]
                c.require(flat and flat[0] == CMD[0], "ALONE", f.qual, f"what is run is {show(flat[0]) if flat else None}", key="exe")
                c.require(all(x in flat for x in CMD[1:]), "ALONE", f.qual, f"the proxy's settings are not given: {[show(x) for x in flat]}", key="args")
                if e.name[-1] == "e" or e.name.endswith("pe"):
                    c.require(flat[-1] == ENV, "ALONE", f.qual, f"its environment is {show(flat[-1])}", key="env")
    c.require(n, "ALONE", f.qual, "no proxy is run", key="run")
    c.require(bool(made) and all(v == const(False) for v in made), "ALONE", f.qual, "a proxy of its own ends with its standard input", key="child")


def run(c):
    c.rule("START", "the gateway's start starts one proxy")
    c.rule("WATCH", "and leaves something running that watches it")
    c.rule("RESTART", "a process that ended is started again after the next look, a start that failed after the next wait")
    c.rule("ONE", "no second proxy is started while one runs")
    c.rule("DELAY", "the waits are bounded")
    c.rule("ENDS", "the watch ends only when cancelled")
    c.rule("STOP", "at its end the gateway ends the watch, then the process that runs")
    c.rule("ELSE", "a proxy managed elsewhere is neither started, watched nor ended")
    c.rule("TLS", "certificate and key are both given to the proxy, or neither; one alone is refused before a process starts")
    c.rule("PROXY", "the command line is one the proxy reads")
    c.rule("TOKEN", "the token is the configured one or a new random one")
    c.rule("LISTEN", "the proxy listens on the addresses it is given, and ends with an error where it cannot")
    c.rule("SERVE", "HTTP clients are served with TLS exactly with a certificate; a server that fails ends the proxy with an error")
    c.rule("ALONE", "a proxy run on its own has the same settings and does not depend on its standard input")
    supervise(c)
    managed(c)
    tls(c)
    stopped(c)
    token(c)
    listens(c)
    standalone(c)
    c.assumptions += ["Processes that live up to three waits, up to four restarts and up to four failing starts stand for every history.", f"A delay of up to {LONGEST} s counts as bounded."]
