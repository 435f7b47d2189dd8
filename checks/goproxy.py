"""The Go proxy run over a modelled network: the command line, the gateway's
routing endpoint, the listeners and the clients' connections."""

import json

from sa.gossa import Func, GoInterp, Iface, Map, Out, Ptr, Slice, State, SV, Sym, program
from sa.program import Broken

CONN = "*net.TCPConn"


class End(Exception):
    pass


def pieces(v):
    return v.v if isinstance(v, Iface) else v


class World:
    """one configuration of the proxy and the answers its environment gives

    ``script``: what successive requests to the gateway are answered with:
    ("refused",), ("status", n), ("table", routes, id), ("garbage",) or
    ("events", [batch, ...], how it ends: "end" | "broken" | "garbage")."""

    def __init__(self, flags=None, script=(), env=None, listens=True, conn=None, dial=True, accepts=()):
        self.p = program()
        self.flags = {"api-url": "http://gw/api/v1/routes", **(flags or {})}
        self.env = {"DASK_GATEWAY_PROXY_TOKEN": "sekrit"} if env is None else env
        self.script, self.listens, self.conn, self.dial, self.accepts = list(script), listens, conn, dial, list(accepts)
        self.defined = {}
        self.I = GoInterp(self.p, ext=self.ext, access=self.access, unroll=60)

    races = False

    # ---- the program's start
    def boot(self):
        """main's paths, up to the end of the script"""
        st = self.I.init(State())
        st.ghost["n"] = 0
        main = self.p.find("/cmd/dask-gateway-proxy.main")
        if len(main) != 1:
            raise Broken("the proxy has no main")
        return list(self.I.run(main[0], [], st))

    def access(self, I, st, kind, o, path, f, ins):
        h = (st.ghost.get("roots") or [x for e in st.trace if e["kind"] == "go" for x in [e["callee"], *e["args"]]]) if self.races else None
        if h and ins is not None:
            st.trace.append({"kind": "access", "how": kind, "o": o, "path": path, "held": st.held, "fn": f["name"] if f else None, "line": ins.get("line", 0), "shared": kind != "write" or bool(st.held) or o in reach(st, h)})

    # ---- errors and JSON
    def error(self, st, text):
        return Iface("*errors.errorString", Ptr(st.new(SV("errors.errorString", {"s": text}))))

    def decode(self, st, t, data, old=None):
        u = self.p.under(t)
        k = u["kind"]
        if data is None:
            return old if old is not None else self.I.zero(t)
        if k == "struct":
            if not isinstance(data, dict):
                raise ValueError(f"{data!r} for a struct")
            v = old if isinstance(old, SV) else SV(t)
            for f in u["fields"]:
                if not f["exported"]:
                    continue
                tag = f["tag"].partition('json:"')[2].partition('"')[0].split(",")[0]
                if tag == "-":
                    continue
                name = tag or f["name"]
                key = name if name in data else next((x for x in data if x.lower() == name.lower()), None)
                if key is not None:
                    v = SV(v.t, {**v.f, f["name"]: self.decode(st, f["type"], data[key], self.I.field(v, f["name"]))}, v.base)
            return v
        if k == "slice":
            if not isinstance(data, list):
                raise ValueError(f"{data!r} for a list")
            return self.I.slice(st, [self.decode(st, u["elem"], x) for x in data])
        if k == "map":
            if not isinstance(data, dict):
                raise ValueError(f"{data!r} for a map")
            return Map(st.new({x: self.decode(st, u["elem"], y) for x, y in data.items()}))
        if k == "pointer":
            return Ptr(st.new(self.decode(st, u["elem"], data)))
        if k == "basic":
            b = u["basic"]
            if b == "string" and isinstance(data, str):
                return data
            if b == "bool" and isinstance(data, bool):
                return data
            if ("int" in b) and isinstance(data, int) and not isinstance(data, bool) and not (b.startswith("u") and data < 0):
                return data
            if "float" in b and isinstance(data, (int, float)):
                return float(data)
            raise ValueError(f"{data!r} for {b}")
        raise Broken(f"JSON into {t}")

    def fill(self, I, st, ptr, data):
        """unmarshal into a pointer; what json returns"""
        ptr = ptr.v if isinstance(ptr, Iface) else ptr
        if data is GARBAGE:
            return self.error(st, "invalid character")
        try:
            t = I.get(st, st.heap[ptr.o], ptr.path)
            I.store(st, ptr, self.decode(st, t.t if isinstance(t, SV) else "?", data, t))
        except ValueError as e:
            return self.error(st, str(e))
        return None

    # ---- what the environment answers
    def ext(self, I, st, name, args, ins, f):
        h = self.extra(I, st, name, args, ins, f)
        if h is not None:
            return h
        m = name.rsplit(".", 1)[-1]
        # command line and environment
        if m in ("StringVar", "BoolVar", "DurationVar", "IntVar") and "flag." in name:
            ptr, flag, default = args[-4:-1]
            self.defined[flag] = m
            I.store(st, ptr, self.flags.get(flag, default))
            return [((), st)]
        if m in ("String", "Bool", "Int", "Duration") and "flag." in name:
            flag, default = args[-3:-1]
            self.defined[flag] = m + "Var"
            return [(Ptr(st.new(self.flags.get(flag, default))), st)]
        if m == "Parse" and "flag." in name:
            return [(None if "FlagSet" in name else (), st)]
        if name == "os.Getenv":
            st.trace.append({"kind": "getenv", "name": args[0]})
            return [(self.env.get(args[0], ""), st)]
        if name == "os.LookupEnv":
            st.trace.append({"kind": "getenv", "name": args[0]})
            return [((self.env.get(args[0], ""), args[0] in self.env), st)]
        # addresses
        if name == "net/url.Parse":
            s = args[0]
            if not isinstance(s, str):
                return None
            if "%zz" in s:
                return [((None, self.error(st, "bad url")), st)]
            scheme, _, rest = s.partition("://") if "://" in s else ("", "", s)
            host, slash, path = rest.partition("/")
            path, _, q = (slash + path).partition("?")
            return [((Ptr(st.new(SV("net/url.URL", {"Scheme": scheme, "Host": host, "Path": path, "RawQuery": q}))), None), st)]
        if name in ("(*net/url.URL).String", "(*net/url.URL).RequestURI", "(net/url.URL).String"):
            return [(Sym("uri", t="string"), st)]
        # listening
        if name == "net.Listen" or name == "(*net.ListenConfig).Listen":
            a = args[-1]
            ok = ((Iface("*net.TCPListener", Sym("listener", a)), None), st)
            if not self.listens:
                return [ok]
            s2 = st.copy()
            return [ok, ((None, self.error(s2, "address in use")), s2)]
        if m in ("Serve", "ServeTLS", "ListenAndServe", "ListenAndServeTLS") and "net/http" in name:
            st.ghost["server"] = (args[0], args[1] if len(args) > 1 else None, st.held)
            return [(self.error(st, "listener failed"), st)]
        # talking to the gateway
        if name in ("net/http.NewRequest", "net/http.NewRequestWithContext"):
            method, url = (args[0], args[1]) if name.endswith("NewRequest") else (args[1], args[2])
            hd = Map(st.new({}))
            r = Ptr(st.new(SV("net/http.Request", {"Method": method, "Header": hd, "URL": Sym("url", url), "Host": ""})))
            st.ghost[("url", r.o)] = url
            return [((r, None), st)]
        if name in ("(net/http.Header).Set", "(net/http.Header).Add"):
            if isinstance(args[0], Map):
                st.heap[args[0].o] = {**st.heap[args[0].o], args[1]: I.slice(st, [args[2]])}
                return [((), st)]
            return [((), st)]
        if name == "(net/http.Header).Get":
            return None
        if name == "(*net/http.Client).Do":
            return self.answer(I, st, args[1])
        if name == "encoding/json.NewDecoder" or name == "bufio.NewScanner" or name == "bufio.NewReader" and isinstance(pieces(args[0]), Sym) and pieces(args[0]).k == "body":
            return [(Sym("over", pieces(args[0]), m), st)]
        if name in ("(*encoding/json.Decoder).Decode", "(*bufio.Scanner).Scan", "(*encoding/json.Decoder).More") or name in ("io.ReadAll", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString"):
            b = args[0].a[0] if isinstance(args[0], Sym) and args[0].k == "over" else pieces(args[0])
            return self.read(I, st, b, name, args)
        if name in ("(*bufio.Scanner).Bytes", "(*bufio.Scanner).Text"):
            return [(st.ghost[("line", args[0].a[0])], st)]
        if name == "(*bufio.Scanner).Err":
            return [(st.ghost.get(("err", args[0].a[0])), st)]
        if name == "(*bufio.Scanner).Buffer":
            return [((), st)]
        if name == "encoding/json.Unmarshal":
            x = args[0]
            if isinstance(x, Sym) and x.k == "json":
                return [(self.fill(I, st, args[1], st.ghost[x]), st)]
            raise Broken(f"JSON of {x!r}")
        if m == "Close" and args and isinstance(pieces(args[0]), Sym) and pieces(args[0]).k == "body":
            b = pieces(args[0])
            st.ghost[("closed", b)] = True
            return [(None, st)]
        if name == "time.Sleep":
            st.trace.append({"kind": "sleep", "d": args[0]})
            return [((), st)]
        if name == "(time.Duration).Seconds":
            return [(Sym("seconds"), st)]
        return None

    def extra(self, I, st, name, args, ins, f):
        return None

    def answer(self, I, st, req):
        r = I.place(st, req)
        v = st.heap[r.o]
        url = st.ghost.get(("url", r.o))
        h = {k: [x for x in I.seq(st, z)] for k, z in st.heap[v.f["Header"].o].items()}
        n = st.ghost["n"]
        st.ghost["n"] = n + 1
        st.trace.append({"kind": "request", "method": v.f["Method"], "url": url, "headers": h, "n": n, "held": st.held})
        a = self.reply(I, st, n, v.f["Method"], url, h)
        if a is None:
            return [Out("end", n, st)]
        if a[0] == "refused":
            return [((None, self.error(st, "connection refused")), st)]
        body = Sym("body", n)
        code = a[1] if a[0] == "status" else 200
        st.ghost[("todo", body)] = [("json", {"error": "no"})] if a[0] == "status" else [("json", GARBAGE)] if a[0] == "garbage" else [("json", {"routes": a[1], "id": a[2]})] if a[0] == "table" else \
            [("json", {"events": b}) for b in a[1]] + {"end": [], "broken": [("error", None)], "garbage": [("json", GARBAGE)]}[a[2]]
        resp = SV("net/http.Response", {"StatusCode": code, "Status": f"{code}", "Body": Iface("body", body), "Header": Map(st.new({}))})
        return [((Ptr(st.new(resp)), None), st)]

    def reply(self, I, st, n, method, url, headers):
        """what the n-th request is answered with; None ends the script"""
        return self.script[n] if n < len(self.script) else None

    def read(self, I, st, b, name, args):
        todo = list(st.ghost.get(("todo", b), []))
        m = name.rsplit(".", 1)[-1]
        if m == "More":
            return [(bool(todo), st)]
        nxt = todo.pop(0) if todo else ("eof", None)
        st.ghost[("todo", b)] = todo
        eof = I.load(st, I.glob(st, {"f": "io.EOF", "t": "*error"}))
        if m == "Scan":
            if nxt[0] == "json":
                k = Sym("json", b, len(todo))
                st.ghost[k] = nxt[1]
                st.ghost[("line", b)] = k
                return [(True, st)]
            if nxt[0] == "error":
                st.ghost[("err", b)] = self.error(st, "connection reset")
            return [(False, st)]
        if m == "Decode":
            if nxt[0] == "json":
                return [(self.fill(I, st, args[1], nxt[1]), st)]
            return [(self.error(st, "connection reset") if nxt[0] == "error" else eof, st)]
        k = Sym("json", b, len(todo))
        if nxt[0] == "json":
            st.ghost[k] = nxt[1]
            return [((k, None), st)]
        return [((None, self.error(st, "reset") if nxt[0] == "error" else eof), st)]


GARBAGE = object()


def reach(st, roots):
    """the objects the values lead to"""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, Ptr) or isinstance(v, (Map, Slice)):
            if v.o not in seen:
                seen.add(v.o)
                x = st.heap.get(v.o)
                todo.extend(x.values() if isinstance(x, dict) else [x])
        elif isinstance(v, SV):
            todo.extend(v.f.values())
        elif isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, Iface):
            todo.append(v.v)
        elif isinstance(v, Func):
            todo.extend(v.b)
        elif isinstance(v, Sym) and ("at", v) in st.ghost:
            todo.append(Ptr(st.ghost[("at", v)]))
    return seen


def started(st):
    """the goroutines started"""
    return [e for e in st.trace if e["kind"] == "go"]


class Clients(World):
    """the proxy with clients that connect to it"""

    hello = None     # the client's first bytes, as peeked: ("short",) | ("plain",) | ("tls", server name) | ("head",) | ("record",)

    def extra(self, I, st, name, args, ins, f):
        m = name.rsplit(".", 1)[-1]
        if m == "Accept" and args and isinstance(pieces(args[0]), Sym) and pieces(args[0]).k == "listener":
            n = st.ghost.get("accepted", 0)
            st.ghost["accepted"] = n + 1
            st.trace.append({"kind": "accept", "n": n, "held": st.held})
            if n >= len(self.accepts):
                return [Out("end", "accepts", st)]
            if not self.accepts[n]:
                return [((None, self.error(st, "too many open files")), st)]
            return [((Iface(CONN, Sym("conn", n, t=CONN)), None), st)]
        if name in ("bufio.NewReader", "bufio.NewReaderSize"):
            c = pieces(args[0])
            if isinstance(c, Sym) and c.k == "conn":
                return [(Sym("reader", c), st)]
        if name == "(*bufio.Reader).Peek":
            c = args[0].a[0]
            st.trace.append({"kind": "block", "what": name, "fn": f["name"]})
            return self.peek(I, st, c, args[1])
        if name == "(*bufio.Reader).Buffered":
            return [(Sym("buffered", args[0].a[0]), st)]
        if name == "crypto/tls.Server":
            k = Sym("tls", args[0], args[1])
            return [(k, st)]
        if name in ("(*crypto/tls.Conn).Handshake", "(*crypto/tls.Conn).HandshakeContext"):
            cfg = args[0].a[1]
            fn = I.load(st, Ptr(cfg.o, cfg.path + ("GetConfigForClient",)))
            if not isinstance(fn, Func):
                raise Broken("the server name is read in an unknown way")
            info = Ptr(st.new(SV("crypto/tls.ClientHelloInfo", {"ServerName": self.hello[1]})))
            out = []
            for o in I.run(fn.f, [info], st, fn.b):
                out.append(Out(o.kind, self.error(o.st, "handshake") if o.kind == "ret" else o.val, o.st))
            return out
        if name in ("net.DialTimeout", "net.Dial", "(*net.Dialer).Dial"):
            a = next(x for x in args if isinstance(x, str) and x != "tcp")
            st.trace.append({"kind": "dial", "addr": a, "held": st.held})
            st.trace.append({"kind": "block", "what": name, "fn": f["name"]})
            n = st.ghost.get("dialled", 0)
            st.ghost["dialled"] = n + 1
            ok = ((Iface(CONN, Sym("out", a, t=CONN)), None), st)
            s2 = st.copy()
            return [ok, ((None, self.error(s2, "refused")), s2)]
        if m in ("Close", "CloseRead", "CloseWrite", "SetDeadline", "SetReadDeadline", "SetNoDelay", "SetKeepAlive", "SetKeepAlivePeriod", "SetWriteDeadline") and args and self.conn_of(st, args[0]) is not None:
            st.trace.append({"kind": "conn", "what": m, "conn": self.conn_of(st, args[0])})
            return [(None, st)]
        if name in ("io.Copy", "io.CopyBuffer"):
            st.trace.append({"kind": "copy", "dst": args[0], "src": args[1], "heap": dict(st.heap)})
            st.trace.append({"kind": "block", "what": name, "fn": f["name"]})
            s2 = st.copy()
            return [((Sym("n"), None), st), ((Sym("n"), self.error(s2, "reset")), s2)]
        if name.startswith("(*sync.WaitGroup)"):
            st.trace.append({"kind": "wait", "what": m, "n": args[1] if m == "Add" else 1})
            if m == "Go":
                st.trace.append({"kind": "go", "callee": args[1], "args": [], "name": getattr(args[1], "f", "?"), "line": ins["line"], "fn": f["name"], "held": st.held})
            if m == "Wait":
                st.trace.append({"kind": "block", "what": name, "fn": f["name"]})
            return [((), st)]
        # HTTP
        if name == "(*net/http/httputil.ReverseProxy).ServeHTTP":
            r = I.place(st, args[2])
            d = I.load(st, Ptr(I.place(st, args[0]).o, I.place(st, args[0]).path + ("Director",)))
            states = [st]
            if isinstance(d, Func):
                states = [o.st for o in I.run(d.f, [args[2]], st, d.b) if o.kind == "ret"]
            for s in states:
                u = I.load(s, I.load(s, Ptr(r.o, r.path + ("URL",))))
                s.trace.append({"kind": "proxied", "host": I.field(u, "Host"), "scheme": I.field(u, "Scheme"), "path": I.field(u, "Path"), "query": I.field(u, "RawQuery"), "held": s.held})
            return [((), s) for s in states]
        if name in ("net/http.Error", "net/http.NotFound"):
            st.trace.append({"kind": "replied", "status": args[2] if name.endswith("Error") else 404, "held": st.held})
            return [((), st)]
        return None

    def conn_of(self, st, v):
        """the connection a value stands for, through the wrappers around it"""
        v = pieces(v)
        while isinstance(v, Ptr):
            x = st.heap[v.o]
            if isinstance(x, SV) and isinstance(x.base, Sym) and x.base.k in ("conn", "out"):
                return x.base
            x = pieces(self.I.get(st, st.heap[v.o], v.path))
            if isinstance(x, (Sym, Ptr)):
                v = x
                continue
            v = next((pieces(y) for k, y in x.f.items() if isinstance(pieces(y), Sym) and pieces(y).k in ("conn", "out")), None) if isinstance(x, SV) else None
        if isinstance(v, SV):
            v = next((pieces(y) for y in v.f.values() if isinstance(pieces(y), Sym) and pieces(y).k in ("conn", "out")), None)
        return v if isinstance(v, Sym) and v.k in ("conn", "out") else None

    def peek(self, I, st, c, n):
        if isinstance(n, Sym):
            return [((Sym("peeked", c), None), st)]
        h = self.hello
        data = {"short": b"", "plain": b"GET / HTTP/1.1", "plain1": b"G", "head": b"\x16\x03", "record": b"\x16\x03\x01\x00\x40abc", "tls": b"\x16\x03\x01\x00\x05hello"}[h[0]]
        if n <= len(data):
            return [((I.slice(st, list(data[:n])), None), st)]
        return [((I.slice(st, list(data)), self.error(st, "EOF")), st)]
