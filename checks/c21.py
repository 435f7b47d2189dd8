"""C21: the proxy applies route changes under lock and resynchronises when lost.

The proxy's main is interpreted in SSA form (sa/gossa.py) with a modelled
gateway at the other end of its HTTP client: a gateway has a log of route
changes and answers each request as a scenario says (it is reached or not, the
stream ends, breaks or is garbled, the log was truncated).  What the proxy
then routes is asked of its own handlers: an HTTP request for a path and a TLS
connection for a server name are followed to the address they go to."""

import itertools
from urllib.parse import parse_qs, urlsplit

from sa.gossa import Iface, Map, Ptr, SV, Sym
from sa.program import Broken

from .goproxy import Clients, pieces, started

NAMES = ("c1", "c2")
PATHS = ("/clusters/c1", "/clusters/c1/x", "/clusters/c2")
BASE = 41


def sni(n, a):
    return {"kind": "SNI", "sni": n, "target": f"tls://{a}:8786"}


def path(n, a):
    return {"kind": "PATH", "path": n, "target": f"http://{a}:8787"}


def put(r):
    return {"type": "PUT", "route": r}


def delete(r):
    return {"type": "DELETE", "route": {k: v for k, v in r.items() if k != "target"}}


LOGS = [
    [put(sni("c1", "a1")), put(path("/clusters/c1", "a2")), put(sni("c1", "a3")), delete(path("/clusters/c1", "")), put(sni("c2", "a4")), delete(sni("c1", ""))],
    [put(path("/clusters/c1", "b1")), put(path("/clusters/c1/x", "b2")), delete(path("/clusters/c1/x", "")), put(path("/clusters/c1", "b3")), put(path("/clusters/c2", "b4")), delete(path("/clusters/c1", ""))],
    [put(sni("c1", "d1")), delete(sni("c1", "")), put(sni("c1", "d2")), put(sni("c2", "d3")), delete(sni("c2", "")), put(path("/clusters/c2", "d4"))],
    [put(path("/clusters/c1/x", "e1")), put(path("/clusters/c1", "e2")), delete(path("/clusters/c1", "")), put(sni("c1", "e3")), put(path("/clusters/c1", "e4")), delete(path("/clusters/c1/x", ""))],
]
ODD = [
    {"type": "PUT", "route": {"kind": "SNI", "sni": "c1"}}, {"type": "PUT", "route": {"kind": "SNI", "target": "tls://x:1"}}, {"type": "PUT", "route": {"kind": "PATH", "target": "http://x:1"}},
    {"type": "PUT", "route": {"kind": "OTHER", "path": "/clusters/c1", "sni": "c1", "target": "http://x:1"}}, {"type": "PUT", "route": {"kind": "PATH", "path": "/clusters/c1", "target": "ftp://x:1"}},
    {"type": "PUT", "route": {"kind": "PATH", "path": "/clusters/c1", "target": "http://%zz"}}, {"type": "FETCH", "route": sni("c1", "x")}, {"type": "DELETE", "route": {"kind": "SNI"}},
    {"type": "DELETE", "route": {"kind": "OTHER", "sni": "c1", "path": "/clusters/c1"}},
]


def fold(log):
    """the table a sequence of changes leads to"""
    t = {}
    for e in log:
        r = e["route"]
        k = (r.get("kind"), r.get("sni") if r.get("kind") == "SNI" else r.get("path"))
        if e["type"] == "PUT" and valid(r):
            t[k] = r
        elif e["type"] == "DELETE":
            t.pop(k, None)
    return t


def valid(r):
    return r.get("kind") in ("SNI", "PATH") and r.get("sni" if r["kind"] == "SNI" else "path") and r.get("target") and (r["kind"] == "SNI" or r["target"].startswith(("http://", "https://")) and "%zz" not in r["target"])


class Gateway(Clients):
    """the gateway's end.  ``steps``: what each request meets: the number of
    changes there are by then, and "ok", "refused", "error", "garbage" or, for
    a watch, "gone", "end", "broken" or "garbled" after the changes."""

    races = True

    def __init__(self, log, steps, batch=2, **kw):
        super().__init__(listens=False, **kw)
        self.log = [{"id": BASE + i + 1, **e} for i, e in enumerate(log)]
        self.steps, self.batch = steps, batch
        self.faults = []

    def reply(self, I, st, n, method, url, headers):
        q = urlsplit(url) if isinstance(url, str) else None
        if q is None:
            raise Broken(f"the proxy asks for {url!r}")
        args = parse_qs(q.query)
        watch = "watch" in args
        at = st.ghost.get("applied")
        say = lambda key, text: st.ghost.__setitem__("faults", st.ghost.get("faults", ()) + ((key, f"request {n + 1}: {text}"),))
        if st.held:
            say("wait", "made while holding a lock")
        if watch:
            last = int(args["last_id"][0]) if "last_id" in args else None
            if at is None:
                say("first", "watches for changes without a table")
            elif st.ghost.get("gone"):
                say("gone", "watches again although its place in the log is gone")
            elif last != at:
                say("resume", f"watches from {last}, the last change it has is {at}")
        if n >= len(self.steps):
            return None
        count, how = self.steps[n]
        if how == "refused":
            return ("refused",)
        if how == "error":
            return ("status", 503)
        if how == "garbage":
            return ("garbage",)
        if not watch:
            st.ghost["applied"], st.ghost["gone"] = BASE + count, False
            st.ghost["expected"] = fold(self.log[:count])
            return ("table", list(fold(self.log[:count]).values()), BASE + count)
        if how == "gone":
            st.ghost["gone"] = True
            return ("status", 410)
        frm = at - BASE if at is not None else 0
        new = self.log[frm:count]
        st.ghost["applied"] = BASE + max(count, frm)
        t = dict(st.ghost.get("expected") or {})
        st.ghost["expected"] = fold([put(r) for r in t.values()] + new)
        batches = [new[i:i + self.batch] for i in range(0, len(new), self.batch)]
        return ("events", batches + ([[]] if how == "end" else []), {"garbled": "garbage"}.get(how, how) if how in ("end", "broken", "garbled") else "end")


def handlers(w, st):
    """what serves the two kinds of clients: the goroutines' functions run up to there"""
    http, tcp = [], []
    for e in started(st):
        if e.get("used"):
            continue
        w.accepts, w.hello = [True], ("short",)
        s = st.copy()
        s.trace = []
        s.held = ()
        s.ghost["roots"] = [x for z in started(st) for x in [z["callee"], *z["args"]]]
        s.ghost["accepted"] = 0
        s.ghost.pop("server", None)
        for o in w.I.run(w.p.funcs[e["callee"].f], e["args"], s, e["callee"].b):
            if o.st.ghost.get("server"):
                http.append(o)
            if any(x["kind"] == "accept" for x in o.st.trace):
                tcp.append(o)
    if not http or not tcp:
        raise Broken("the proxy's servers are not found")
    return http[0], tcp[0]


def ask_http(w, o, url_path):
    st = o.st.copy()
    st.trace, st.held = [], ()
    srv = st.ghost["server"][0]
    h = w.I.load(st, Ptr(srv.o, srv.path + ("Handler",)))
    u = Ptr(st.new(SV("net/url.URL", {"Path": url_path})))
    req = Ptr(st.new(SV("net/http.Request", {"URL": u, "Header": Map(st.new({})), "Method": "GET", "Host": "me"})))
    if not isinstance(h, Iface):
        raise Broken("the HTTP server has no handler")
    ms = w.p.methods.get(h.t, {})
    return list(w.I.run(w.p.funcs[ms["ServeHTTP"]], [h.v, Sym("writer"), req], st))


def ask_tcp(w, o, hello):
    """the paths of a client's connection"""
    outs = []
    gos = [e for e in started(o.st)]
    for e in gos:
        w.hello = hello
        st = o.st.copy()
        st.trace, st.held = [], ()
        outs += list(w.I.run(w.p.funcs[e["callee"].f], e["args"], st, e["callee"].b))
    return outs


def run(c):
    c.rule("TABLE", "the proxy routes exactly what the gateway told it")
    c.rule("RESUME", "it watches from the last change it has, and starts over when its place is gone")
    c.rule("LOCK", "the tables are shared under lock")
    c.rule("ALIVE", "nothing the gateway answers stops it")
    hows = ("end", "broken", "garbled", "refused", "error", "garbage", "gone")
    scen = []
    for log in LOGS:
        for k, rest in enumerate(itertools.product(hows, repeat=3 if c.tier == "thorough" else 2)):
            steps = [(k % 3, "ok")]
            n = k % 3
            for h in rest:
                n = min(n + 1 + k % 2, len(log))
                steps.append((n, h))
            scen.append((log, steps + ([(len(log), "ok")] if k % 5 == 0 else []), 1 + k % 3))
        for k in range(1, len(log) + 1):
            scen.append((log, [(0, "ok"), (k, "end")], 1 + k % 3))
        for h in ("refused", "error", "garbage"):
            scen.append((log, [(1, h), (2, h), (3, "ok"), (5, "end")], 2))
    for e in ODD:
        first = LOGS[0][:2] if e["route"].get("kind") != "OTHER" else LOGS[0][:3]
        scen.append((first + [e, put(sni("c2", "z"))], [(2, "ok"), (4, "end")], 3))
        scen.append((first + [e], [(2, "ok"), (3, "end"), (3, "end")], 1))
    # a route the proxy cannot use in the snapshot
    for e in ODD:
        if e["type"] == "PUT":
            scen.append(([put(sni("c2", "z")), e, put(sni("c1", "y"))], [(3, "odd")], 1))
    for log, steps, batch in scen:
        what = f"changes {', '.join(e['type'] + ' ' + str(e['route'].get('sni') or e['route'].get('path')) for e in log)}; answers {', '.join(f'{h}@{n}' for n, h in steps)}"
        w = Gateway(log, steps, batch)
        if steps[-1][1] == "odd":
            odd = [e["route"] for e in log]
            w.steps = [(len(log), "ok")]
            base = w.reply

            def reply(I, st, n, method, url, headers, base=base, odd=odd):
                a = base(I, st, n, method, url, headers)
                return ("table", odd, a[2]) if a and a[0] == "table" else a
            w.reply = reply
        outs = w.boot()
        c.paths += len(outs)
        ends = [o for o in outs if o.kind == "end"]
        for o in outs:
            c.require(o.kind == "end", "ALIVE", "dask-gateway-proxy", f"{what}: the proxy ends: {o.kind} {o.val!r} {[e['what'] for e in o.st.trace if e['kind'] == 'panic'][:1]}", key=f"stops:{o.kind}")
        c.require(ends, "ALIVE", "dask-gateway-proxy", f"{what}: no path", key="paths")
        for o in ends:
            check(c, w, o, what)
        w_seen.update(w.I.visited)
    c.analysed(*(f"dask-gateway-proxy:{x.rsplit('/', 1)[-1]}" for x in sorted(w_seen)))


w_seen = set()


def at(w, o, kinds=("access",)):
    """the function that last touched the tables (or asked the gateway)"""
    for e in reversed(o.st.trace):
        f = w.p.funcs.get(e.get("fn") or "")
        if f and f.get("file") and (e["kind"] == "access" and e["how"] == "write" or e["kind"] == "call"):
            return f"{w.p.loc(f, e.get('line'))} {f['name'].rsplit('/', 1)[-1]}"
    return "dask-gateway-proxy"


def check(c, w, o, what):
    here = at(w, o)
    for key, text in o.st.ghost.get("faults", ()):
        c.fail("RESUME" if key != "wait" else "LOCK", here, f"{what}: {text}", key=key)
    for e in o.st.trace:
        if e["kind"] == "request":
            c.require(True, "RESUME", here, "")
    want = o.st.ghost.get("expected") or {}
    http, tcp = handlers(w, o.st)
    reads = []
    for p in PATHS + ("/other",):
        best = max((k for k in want if k[0] == "PATH" and (p == k[1] or p.startswith(k[1] + "/"))), key=lambda k: len(k[1]), default=None)
        to = want[best]["target"].split("://")[1] if best else None
        for r in ask_http(w, http, p):
            got = [e["host"] for e in r.st.trace if e["kind"] == "proxied"]
            c.require(r.kind == "ret" and got == ([to] if to else []), "TABLE", here, f"{what}: {p} is served by {got or None}, the gateway says {to}", key="path")
            c.require(r.st.held == () and not any(e.get("held") for e in r.st.trace if e["kind"] in ("proxied", "replied")), "LOCK", here, f"a request for {p} keeps the lock", key="kept")
            reads += [e for e in r.st.trace if e["kind"] == "access"]
    for n in NAMES + ("other",):
        to = want[("SNI", n)]["target"].split("://")[1] if ("SNI", n) in want else None
        for r in ask_tcp(w, tcp, ("tls", "daskgateway-" + n)):
            got = [e["addr"] for e in r.st.trace if e["kind"] == "dial"]
            c.require(r.kind == "ret" and got == ([to] if to else []), "TABLE", here, f"{what}: {n} is forwarded to {got or None}, the gateway says {to}", key="name")
            c.require(r.st.held == () and not any(e.get("held") for e in r.st.trace if e["kind"] in ("dial", "copy")), "LOCK", here, f"a connection to {n} keeps the lock", key="kept")
            reads += [e for e in r.st.trace if e["kind"] == "access"]
    # what both sides touch
    writes = [e for e in o.st.trace if e["kind"] == "access" and e["how"] == "write" and e["shared"]]
    places = {(e["o"], e["path"]) for e in reads} & {(e["o"], e["path"]) for e in writes}
    for e in writes + reads:
        if (e["o"], e["path"]) not in places:
            continue
        mode = ("Lock",) if e["how"] == "write" else ("Lock", "RLock")
        c.require(any(m in mode for _, m in e["held"]), "LOCK", (e["fn"] or "?").rsplit("/", 1)[-1], f"{what}: line {e['line']} {e['how']}s what is shared {'under ' + str([m for _, m in e['held']]) if e['held'] else 'without the lock'}", key=f"{e['how']}")
    locks = [{l for l, m in e["held"] if m == "Lock" or e["how"] == "read"} for e in writes + reads if (e["o"], e["path"]) in places]
    c.require(not locks or set.intersection(*locks), "LOCK", here, "the tables are not guarded by one lock", key="same")
    # a table is replaced in one go
    sections, cur, n = [], None, 0
    for e in o.st.trace:
        if e["kind"] == "request":
            sections.append(set())
        if e.get("lock") is not None and e["name"].endswith((".Lock", ".RLock")):
            n += 1
        if e["kind"] == "access" and e["how"] == "write" and (e["o"], e["path"]) in places and sections:
            sections[-1].add(n)
    for e, s in zip([e for e in o.st.trace if e["kind"] == "request"], sections):
        if "watch" not in e["url"]:
            c.require(len(s) <= 1, "LOCK", here, f"{what}: a table is replaced in {len(s)} steps", key="atomic")
