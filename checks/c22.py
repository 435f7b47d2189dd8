"""C22: every connection the proxy accepts is closed or handed on.

A client's connection is followed through the proxy's own goroutines, in SSA
form, over everything the client may send first and whether the dial to the
scheduler succeeds."""

from sa.gossa import Func, Iface, Map, Out, Ptr, Slice, SV, Sym
from sa.program import Broken

from .c21 import Gateway, ask_http, handlers, put, path, sni
from .goproxy import pieces, started

HELLOS = {
    "nothing": ("short",), "a byte": ("plain1",), "an HTTP request": ("plain",), "half a TLS header": ("head",), "half a TLS hello": ("record",),
    "a TLS hello without a name": ("tls", ""), "a TLS hello for example.org": ("tls", "example.org"), "a TLS hello for daskgateway-": ("tls", "daskgateway-"),
    "a TLS hello for daskgateway": ("tls", "daskgateway"), "a TLS hello for a running cluster": ("tls", "daskgateway-c1"), "a TLS hello for a bare cluster name": ("tls", "c1"),
    "a TLS hello for xdaskgateway-c1": ("tls", "xdaskgateway-c1"), "a TLS hello for another cluster": ("tls", "daskgateway-c9"), "a TLS hello for DASKGATEWAY-C1": ("tls", "DASKGATEWAY-c1"),
}
SHARED = {"one address": {"address": ":8000", "tcp-address": ""}, "two addresses": {"address": ":8000", "tcp-address": ":8786"}}


def where(w, name):
    f = w.p.funcs.get(name)
    return f"{w.p.loc(f)} {f['name'].rsplit('/', 1)[-1]}" if f and f.get("file") else name


def run(c):
    c.rule("CLOSED", "a connection is closed or handed on, once")
    c.rule("TO", "data goes to a scheduler only for a name with a route, both ways")
    c.rule("WHOLE", "what was peeked at is passed on, once and in order")
    c.rule("ALIVE", "nothing a client does, nor a failing accept or dial, stops the proxy")
    c.rule("APART", "the accepting goroutine never waits for a client")
    for mode, flags in SHARED.items():
        w = Gateway([put(sni("c1", "s1")), put(path("/clusters/c1", "d1"))], [(2, "ok")], flags=flags)
        w.races = False
        boots = [o for o in w.boot() if o.kind == "end"]
        if not boots:
            raise Broken("the proxy does not start")
        # connections, one after another, some failing to be accepted
        for boot in boots:
            http, tcp = handlers(w, boot.st)
            accepting(c, w, boot, mode)
            for what, hello in HELLOS.items():
                client(c, w, tcp, f"{mode}, {what}", hello, shared=mode == "one address")
            http_side(c, w, http, mode)
        seen = w.I.visited
        c.analysed(*(f"dask-gateway-proxy:{x.rsplit('/', 1)[-1]}" for x in sorted(seen)))


def accepting(c, w, boot, mode):
    """the loop that accepts"""
    for e in started(boot.st):
        f = w.p.funcs[e["callee"].f]
        for pattern in ([True, True, True], [False, True, False, True], [False, False, False]):
            w.accepts, w.hello = list(pattern), ("short",)
            st = boot.st.copy()
            st.trace, st.held = [], ()
            st.ghost["accepted"] = 0
            outs = list(w.I.run(f, e["args"], st, e["callee"].b))
            if not any(x["kind"] == "accept" for o in outs for x in o.st.trace):
                continue
            for o in outs:
                c.paths += 1
                n = sum(x["kind"] == "accept" for x in o.st.trace)
                # a forwarder's accept is the HTTP server's
                c.require(o.kind == "end" and o.val == "accepts" and n == len(pattern) + 1, "ALIVE", where(w, f["name"]), f"{mode}: accepts answered {pattern}: it ends with {o.kind} {o.val!r} after {n}", key="accept")
                started_for = [pieces(y) for x in started(o.st) for y in list(x["args"]) + list(x["callee"].b)]
                got = [a for i, ok in enumerate(pattern) if ok for a in [Sym("conn", i)] if sum(w.conn_of(o.st, y) == a for y in started_for) != 1]
                if o.kind == "end":
                    c.require(not got, "CLOSED", where(w, f["name"]), f"{mode}: accepts answered {pattern}: {len(got)} connections are handled by no goroutine of their own", key="handled")
                blocks = [x["what"] for x in o.st.trace if x["kind"] == "block"] + ["send" for x in o.st.trace if x["kind"] == "send"]
                c.require(not blocks, "APART", where(w, f["name"]), f"{mode}: the accepting goroutine waits in {blocks}", key="waits")


def client(c, w, tcp, what, hello, shared):
    for e in started(tcp.st):
        f = w.p.funcs[e["callee"].f]
        w.hello = hello
        st = tcp.st.copy()
        st.trace, st.held = [], ()
        outs = list(w.I.run(f, e["args"], st, e["callee"].b))
        here = where(w, f["name"])
        c.require(outs, "CLOSED", here, f"{what}: no path", key="paths")
        for o in outs:
            c.paths += 1
            t = o.st.trace
            how = f"{what}{', dialled ' + ['and refused', 'successfully'][any(x['kind'] == 'conn' and x['conn'].k == 'out' or x['kind'] == 'go' for x in t)] if any(x['kind'] == 'dial' for x in t) else ''}"
            c.require(o.kind == "ret", "ALIVE", here, f"{how}: the proxy ends with {o.kind} {o.val!r}", key=f"stops:{o.kind}")
            if o.kind != "ret":
                continue
            conn = Sym("conn", 0)
            closes = [i for i, x in enumerate(t) if x["kind"] == "conn" and x["what"] == "Close" and x["conn"] == conn]
            sent = [(i, x) for i, x in enumerate(t) if x["kind"] == "send" and w.conn_of(o.st, x["x"]) == conn]
            c.require(bool(closes) != bool(sent) and len(sent) <= 1, "CLOSED", here, f"{how}: the connection is closed {len(closes)} times and handed on {len(sent)} times", key="closed")
            to = [x["addr"] for x in t if x["kind"] == "dial"]
            ok = hello[0] == "tls" and hello[1] == "daskgateway-c1"
            c.require(to == (["s1:8786"] if ok else []), "TO", here, f"{how}: dials {to}", key="dial")
            mine = hello[0] == "tls" and hello[1].startswith("daskgateway-")
            if sent:
                c.require(shared and not mine, "TO", here, f"{how}: the connection goes to the HTTP server", key="forward")
                whole(c, w, o.st, sent[0][1]["x"], how, hello)
            if shared and not mine and hello[0] != "short":
                c.require(sent, "CLOSED", here, f"{how}: it is not handed to the HTTP server", key="handed")
            gos = [x for x in t if x["kind"] == "go"]
            c.require(not gos or to, "TO", here, f"{how}: goroutines are started for it", key="goroutines")
            copies, ends = [], []
            for x in [x for x in t if x["kind"] == "copy"]:
                copies.append((w.conn_of(o.st, x["dst"]), w.conn_of(o.st, x["src"]), x["src"]))
            bad = False
            for g in gos:
                h = w.p.funcs[g["callee"].f]
                s2 = o.st.copy()
                s2.trace, s2.held = [], ()
                got = set()
                for r in w.I.run(h, g["args"], s2, g["callee"].b):
                    c.paths += 1
                    c.require(r.kind == "ret", "ALIVE", where(w, h["name"]), f"{how}: forwarding ends with {r.kind} {r.val!r}", key=f"forwarding:{r.kind}")
                    for x in [x for x in r.st.trace if x["kind"] == "copy"]:
                        got.add((w.conn_of(r.st, x["dst"]), w.conn_of(r.st, x["src"]), repr(x["src"])))
                        keep = x["src"]
                        if (w.conn_of(r.st, x["dst"]), w.conn_of(r.st, x["src"]), keep) not in copies:
                            copies.append((w.conn_of(r.st, x["dst"]), w.conn_of(r.st, x["src"]), keep))
                    done = sum(x["kind"] == "wait" and x["what"] == "Done" for x in r.st.trace)
                    if any(x["kind"] == "wait" and x["what"] == "Add" for x in t):
                        c.require(done == 1, "CLOSED", where(w, h["name"]), f"{how}: a forwarding goroutine reports its end {done} times, its connections are never closed", key="done")
            outs_closed = [i for i, x in enumerate(t) if x["kind"] == "conn" and x["what"] == "Close" and x["conn"].k == "out"]
            if gos or copies:
                pairs = sorted((str(a), str(b)) for a, b, _ in copies)
                out = Sym("out", "s1:8786")
                c.require(pairs == sorted([(str(conn), str(out)), (str(out), str(conn))]), "TO", here, f"{how}: data is copied {[f'{b} to {a}' for a, b in pairs]}", key="both")
                for a, b, src in copies:
                    if b == conn:
                        whole(c, w, o.st, src, how, hello)
                waits = [i for i, x in enumerate(t) if x["kind"] == "wait" and x["what"] == "Wait"] or [i for i, x in enumerate(t) if x["kind"] == "copy"] or [i for i, x in enumerate(t) if x["kind"] == "recv"]
                early = [i for i in closes + outs_closed if waits and i < max(waits)]
                c.require(waits and not early, "CLOSED", here, f"{how}: a connection is closed while data is forwarded", key="early")
                if any(x["kind"] == "wait" and x["what"] == "Add" for x in t):
                    n = sum(x["n"] for x in t if x["kind"] == "wait" and x["what"] == "Add")
                    c.require(n == len(gos), "CLOSED", here, f"{how}: waits for {n} goroutines, {len(gos)} are started", key="counted")
                c.require(outs_closed, "CLOSED", here, f"{how}: the scheduler's connection stays open", key="out")


def whole(c, w, st, conn, how, hello):
    """reading the handed on connection gives what was peeked at, then the rest"""
    v = conn
    if not isinstance(v, Iface):
        c.fail("WHOLE", "dask-gateway-proxy", f"{how}: the bare connection is handed on, what was read of it is lost", key="bare")
        return
    ms = w.p.methods.get(v.t)
    if not ms or "Read" not in ms:
        c.fail("WHOLE", "dask-gateway-proxy", f"{how}: what is handed on reads the bare connection, what was read of it is lost", key="bare")
        return
    f = w.p.funcs[ms["Read"]]
    own = f.get("blocks")
    c.require("WriteTo" not in ms or w.p.funcs[ms["WriteTo"]].get("file"), "WHOLE", where(w, ms["Read"]), f"{how}: io.Copy bypasses Read by the connection's WriteTo", key="WriteTo")
    if not own:
        c.fail("WHOLE", "dask-gateway-proxy", f"{how}: what is handed on reads the bare connection", key="bare")
        return
    # the peeked bytes are a symbol: give them three known ones
    s = st.copy()
    s.trace, s.held = [], ()
    ptr = v.v
    rec = w.I.get(s, s.heap[ptr.o], ptr.path) if isinstance(ptr, Ptr) else None
    peeked = [k for k, x in (rec.f.items() if isinstance(rec, SV) else ()) if isinstance(x, Sym) and x.k == "peeked"]
    if not c.require(len(peeked) == 1, "WHOLE", where(w, ms["Read"]), f"{how}: the peeked bytes are not kept", key="kept"):
        return
    w.I.store(s, Ptr(ptr.o, ptr.path + (peeked[0],)), w.I.slice(s, [11, 12, 13]))
    states = [(s, [])]
    for size in (2, 2, 2):
        nxt = []
        for s, got in states:
            buf = w.I.slice(s, [0] * size)
            for o in w.I.run(f, [ptr, buf], s):
                if not c.require(o.kind == "ret", "ALIVE", where(w, ms["Read"]), f"{how}: reading ends with {o.kind} {o.val!r}", key="read"):
                    continue
                n, err = o.val
                under = [x for x in o.st.trace if x["kind"] == "call" and x["name"].endswith(").Read")]
                if isinstance(n, int) and not under:
                    c.require(err is None, "WHOLE", where(w, ms["Read"]), f"{how}: peeked bytes come with an error", key="error")
                    nxt.append((o.st, got + w.I.seq(o.st, buf)[:n]))
                else:
                    nxt.append((o.st, got + ["rest"] * bool(under)))
        states = nxt
    for s, got in states:
        while got and got[-1] == "rest":
            got = got[:-1]
        c.require(got == [11, 12, 13], "WHOLE", where(w, ms["Read"]), f"{how}: the first bytes 11 12 13 are passed on as {got}", key="bytes")


def http_side(c, w, http, mode):
    for p in ("", "/", "//", "/x", "/clusters/c1", "/clusters/c1/", "/clusters/c1//a", "clusters/c1", "*"):
        for o in ask_http(w, http, p):
            c.paths += 1
            n = sum(x["kind"] in ("proxied", "replied") for x in o.st.trace)
            c.require(o.kind == "ret" and n == 1, "CLOSED", "dask-gateway-proxy", f"{mode}: a request for {p!r} ends with {o.kind} {o.val!r}, {n} replies", key="http")
            to = [x["host"] for x in o.st.trace if x["kind"] == "proxied"]
            c.require(all(x == "d1:8787" for x in to) and (not to or p.strip("/").startswith("clusters/c1")), "TO", "dask-gateway-proxy", f"{mode}: a request for {p!r} goes to {to}", key="http")

