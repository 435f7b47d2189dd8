"""The Go proxy, in SSA form, and an abstract interpreter for it.

``GoProgram`` builds /verif/gossa (which type-checks the proxy's current
sources and prints their SSA form) and loads what it says.  ``GoInterp``
explores a function's paths over abstract values: unknown values are symbols,
a branch on one splits the path, and a call that leaves the module is answered
by the check's ``ext`` policy or splits into its success and its failure.
"""

import itertools
import json
import os
import subprocess
import tempfile

from .program import Broken

MODULE = "github.com/dask/dask-gateway/dask-gateway-proxy"
WHERE = "dask-gateway-server/dask-gateway-proxy"
_cache = {}


class GoProgram:
    def __init__(self, repo=None):
        repo = repo or os.environ.get("VERIF_REPO", "/repo")
        self.root = os.path.join(repo, WHERE)
        here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "gossa")
        env = {**os.environ, "GOPROXY": "off", "GOFLAGS": "-mod=mod", "CGO_ENABLED": "0", "GOTOOLCHAIN": "local", "GO111MODULE": "on"}
        env.setdefault("HOME", "/root")
        with tempfile.TemporaryDirectory(prefix="gossa") as tmp:
            tool = os.path.join(tmp, "gossa")
            src = os.path.join(tmp, "src")
            os.mkdir(src)
            for n in ("main.go", "go.mod", "go.sum"):
                with open(os.path.join(here, n)) as f, open(os.path.join(src, n), "w") as g:
                    g.write(f.read())
            r = subprocess.run(["go", "build", "-o", tool, "."], cwd=src, env=env, capture_output=True, text=True)
            if r.returncode:
                raise Broken(f"the SSA printer does not build: {r.stderr[-400:]}")
            r = subprocess.run([tool, self.root, MODULE], env=env, capture_output=True, text=True)
            if r.returncode:
                raise Broken(f"the proxy does not type-check: {r.stderr[-400:]}")
        data = json.loads(r.stdout)
        self.types = data["types"]
        self.methods = data["methods"]
        self.funcs = {f["name"]: {**f, **{k: f.get(k) or [] for k in ("params", "freevars", "results")}} for f in data["functions"]}
        for f in self.funcs.values():
            if f.get("file", "").startswith(".."):
                del f["file"]
            for b in f.get("blocks") or ():
                b.update({k: b.get(k) or [] for k in ("instrs", "preds", "succs")})
        for t in self.types.values():
            t.update({k: t[k] or [] for k in ("fields", "elems") if k in t})
        self.packages = {p["path"] for p in data["packages"]}

    def own(self):
        """the module's functions that have a body"""
        return [f for f in self.funcs.values() if f.get("blocks") and f.get("file")]

    def find(self, *tail):
        """the functions whose qualified name ends so"""
        return [f for f in self.funcs.values() if f.get("blocks") and any(f["name"].endswith(t) for t in tail)]

    def loc(self, f, line=None):
        return f"{WHERE}/{f.get('file')}:{line or f['line']}"

    def under(self, t):
        return self.types.get(t, {"kind": "unknown"})


def program():
    key = os.environ.get("VERIF_REPO", "/repo")
    if key not in _cache:
        _cache[key] = GoProgram()
    return _cache[key]


class Sym:
    """an unknown value; ``nn`` when it is not nil"""
    __slots__ = ("k", "a", "t", "nn")

    def __init__(self, k, *a, t=None, nn=True):
        self.k, self.a, self.t, self.nn = k, a, t, nn

    def __eq__(self, o):
        return isinstance(o, Sym) and (self.k, self.a) == (o.k, o.a)

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return f"{self.k}({', '.join(map(repr, self.a))})" if self.a else str(self.k)


class Ptr:
    __slots__ = ("o", "path")

    def __init__(self, o, path=()):
        self.o, self.path = o, path

    def __eq__(self, x):
        return isinstance(x, Ptr) and (self.o, self.path) == (x.o, x.path)

    def __hash__(self):
        return hash((self.o, self.path))

    def __repr__(self):
        return f"&{self.o}{''.join('.' + str(p) for p in self.path)}"


class SV:
    """a struct's value; unset fields are those of ``base`` or zero"""
    __slots__ = ("t", "f", "base")

    def __init__(self, t, f=None, base=None):
        self.t, self.f, self.base = t, f or {}, base

    def __eq__(self, o):
        return isinstance(o, SV) and (self.t, self.f, self.base) == (o.t, o.f, o.base)

    def __hash__(self):
        return hash((self.t, self.base))

    def __repr__(self):
        return f"{self.t.rsplit('.', 1)[-1]}{self.f}"


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Iface) and (self.t, self.v) == (o.t, o.v)

    def __hash__(self):
        return hash((self.t, repr(self.v)))

    def __repr__(self):
        return f"<{self.t.rsplit('/', 1)[-1]} {self.v!r}>"


class Slice:
    """elements lo..hi of the array object ``o``"""
    __slots__ = ("o", "lo", "hi")

    def __init__(self, o, lo, hi):
        self.o, self.lo, self.hi = o, lo, hi

    def __eq__(self, x):
        return isinstance(x, Slice) and (self.o, self.lo, self.hi) == (x.o, x.lo, x.hi)

    def __hash__(self):
        return hash((self.o, self.lo, self.hi))

    def __repr__(self):
        return f"{self.o}[{self.lo}:{self.hi}]"


class Map:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Map) and self.o == x.o

    def __hash__(self):
        return hash(self.o)

    def __repr__(self):
        return f"map{self.o}"


class Func:
    __slots__ = ("f", "b")

    def __init__(self, f, b=()):
        self.f, self.b = f, tuple(b)

    def __eq__(self, x):
        return isinstance(x, Func) and (self.f, self.b) == (x.f, x.b)

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return f"func {self.f}"


class GoPanic(Exception):
    pass


class State:
    def __init__(self):
        self.heap, self.facts, self.held, self.trace, self.ghost, self.n = {}, {}, (), [], {}, 0

    def copy(self):
        s = State.__new__(State)
        s.heap, s.facts, s.held, s.trace, s.ghost, s.n = dict(self.heap), dict(self.facts), self.held, list(self.trace), dict(self.ghost), self.n
        return s

    def new(self, v):
        self.n += 1
        self.heap[self.n] = v
        return self.n

    def map(self, m):
        return {} if m is None else self.heap[m.o]


class Out:
    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    def __repr__(self):
        return f"{self.kind} {self.val!r}"


BITS = {"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "uintptr": 64, "byte": 8, "rune": 32}


class GoInterp:
    def __init__(self, prog, ext=None, unroll=6, opaque=None, access=None):
        self.prog, self.ext, self.unroll, self.access = prog, ext, unroll, access
        self.opaque = opaque or (lambda f: f.get("pkg", "").endswith("/logging"))
        self.globals = {}
        self.visited = set()
        self.cuts = 0
        self.steps = 0
        self.fresh = itertools.count(1)

    # ---- types
    def zero(self, t):
        u = self.prog.under(t)
        k = u["kind"]
        if k == "basic":
            b = u["basic"]
            return "" if "string" in b else False if "bool" in b else 0.0 if "float" in b else None if b in ("untyped nil", "unsafe.Pointer") else 0
        if k == "struct":
            return SV(t)
        if k == "array":
            return tuple(self.zero(u["elem"]) for _ in range(u["len"]))
        if k == "unknown" and not str(t).startswith(("*", "[]", "map[", "func", "chan", "interface", "<-chan", "error")):
            return SV(t)
        return None

    def field(self, v, name):
        if name in v.f:
            return v.f[name]
        u = self.prog.under(v.t)
        ft = next((x["type"] for x in u.get("fields", ()) if x["name"] == name), None)
        if v.base is not None:
            if self.prog.under(ft)["kind"] == "struct":
                return SV(ft, {}, Sym("field", v.base, name, t=ft))
            return Sym("field", v.base, name, t=ft, nn=False)
        return self.zero(ft)

    # ---- memory
    def get(self, st, v, path):
        for i, p in enumerate(path):
            if isinstance(v, SV):
                v = self.field(v, p)
            elif isinstance(v, tuple):
                v = v[p]
            elif isinstance(v, Sym):
                v = Sym("field", v, p)
            else:
                raise Broken(f"no {p} of {v!r}")
        return v

    def put(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(v, SV):
            return SV(v.t, {**v.f, p: self.put(self.field(v, p), path[1:], x)}, v.base)
        if isinstance(v, tuple):
            return v[:p] + (self.put(v[p], path[1:], x),) + v[p + 1:]
        raise Broken(f"no {p} of {v!r}")

    def place(self, st, p):
        """the place a pointer is of"""
        if p is None:
            raise GoPanic("nil pointer dereference")
        if isinstance(p, Sym):
            if not p.nn and st.facts.get(("nil", p)) is True:
                raise GoPanic("nil pointer dereference")
            key = ("at", p)
            if key not in st.ghost:
                e = self.prog.under(p.t).get("elem") if p.t else None
                st.ghost[key] = st.new(SV(e, {}, p) if self.prog.under(e)["kind"] in ("struct", "unknown") else Sym("deref", p, t=e))
            return Ptr(st.ghost[key])
        if not isinstance(p, Ptr):
            raise Broken(f"{p!r} is no pointer")
        return p

    def load(self, st, p, ins=None, f=None):
        p = self.place(st, p)
        if self.access:
            self.access(self, st, "read", p.o, p.path, f, ins)
        return self.get(st, st.heap[p.o], p.path)

    def store(self, st, p, v, ins=None, f=None):
        p = self.place(st, p)
        if self.access:
            self.access(self, st, "write", p.o, p.path, f, ins)
        st.heap[p.o] = self.put(st.heap[p.o], p.path, v)

    def seq(self, st, v):
        """a known slice's elements"""
        if v is None:
            return []
        if isinstance(v, Slice):
            a = st.heap[v.o]
            return list(a[v.lo:v.hi])
        raise Broken(f"the elements of {v!r} are not known")

    def slice(self, st, xs):
        return Slice(st.new(tuple(xs)), 0, len(xs))

    # ---- values
    def val(self, st, fr, v):
        if v is None:
            return None
        k = v["k"]
        if k == "reg":
            return fr[v["r"]]
        if k == "const":
            if v.get("nil"):
                return self.zero(v["t"])
            if "int" in v:
                return float(v["int"]) if "float" in self.prog.under(v["t"]).get("basic", "") else int(v["int"])
            if "float" in v:
                a, _, b = v["float"].partition("/")
                return float(a) / float(b or 1)
            return v["v"]
        if k == "func":
            return Func(v["f"])
        if k == "builtin":
            return Func("builtin." + v["f"])
        if k == "global":
            return self.glob(st, v)
        raise Broken(k)

    def glob(self, st, v):
        key = ("global", v["f"])
        if key not in st.ghost:
            t = self.prog.under(v["t"]).get("elem")
            st.ghost[key] = st.new(self.globals.get(v["f"], Sym("global", v["f"], t=t)))
        return Ptr(st.ghost[key])

    def init(self, st):
        """the packages' initialisers"""
        inits = [self.prog.funcs[p + ".init"] for p in sorted(self.prog.packages) if p + ".init" in self.prog.funcs]
        for f in self.prog.funcs.values():
            for v in [x for b in f.get("blocks") or () for i in b["instrs"] for x in i.values() if isinstance(x, dict) and x.get("k") == "global"]:
                key = ("global", v["f"])
                if key not in st.ghost and any(v["f"].startswith(p + ".") for p in self.prog.packages):
                    st.ghost[key] = st.new(self.zero(self.prog.under(v["t"]).get("elem")))
        for f in inits:
            if f.get("blocks"):
                outs = [o for o in self.run(f, [], st) if o.kind == "ret"]
                if len(outs) != 1:
                    raise Broken(f"{f['name']} initialises in {len(outs)} ways")
                st = outs[0].st
        return st

    def truth(self, st, v):
        if isinstance(v, bool):
            return [(v, st)]
        if isinstance(v, Sym):
            if v.k == "not":
                return [(not b, s) for b, s in self.truth(st, v.a[0])]
            if v in st.facts:
                return [(st.facts[v], st)]
            s2 = st.copy()
            st.facts[v], s2.facts[v] = True, False
            return [(True, st), (False, s2)]
        raise Broken(f"{v!r} as a condition")

    def equal(self, st, x, y):
        if y is None and x is not None:
            x, y = y, x
        if x is None:
            if y is None:
                return True
            if isinstance(y, Sym):
                if y.nn:
                    return False
                key = ("nil", y)
                return st.facts[key] if key in st.facts else Sym("isnil", y)
            return False
        if isinstance(x, Iface) and isinstance(y, Iface):
            return x.t == y.t and self.equal(st, x.v, y.v)
        sx, sy = isinstance(x, Sym), isinstance(y, Sym)
        if sx and sy and x == y:
            return True
        if sx or sy:
            if isinstance(x, (Ptr, Map, Func)) or isinstance(y, (Ptr, Map, Func)):
                return False
            d = st.ghost.get("distinct")
            if d and d(x, y):
                return False
            return Sym("==", *sorted((x, y), key=repr))
        return x == y

    def fit(self, n, t):
        b = self.prog.under(t).get("basic", "")
        if b in BITS and isinstance(n, int) and not isinstance(n, bool):
            w = BITS[b]
            n &= (1 << w) - 1
            if not b.startswith(("u", "byte")) and n >> (w - 1):
                n -= 1 << w
        return n

    def binop(self, st, i, x, y):
        op = i["tok"]
        if op == "==":
            return self.equal(st, x, y)
        if op == "!=":
            e = self.equal(st, x, y)
            return Sym("not", e) if isinstance(e, Sym) else not e
        if isinstance(x, Sym) or isinstance(y, Sym) or not isinstance(x, (int, float, str)) or not isinstance(y, (int, float, str)):
            if op in ("<", ">", "<=", ">="):
                if op in (">", "<="):
                    x, y = y, x
                s = Sym("<", x, y)
                return s if op in ("<", ">") else Sym("not", Sym("<", x, y)) if op == ">=" else Sym("not", s)
            return Sym("op" + op, x, y, t=i["t"])
        if op in ("/", "%"):
            if y == 0:
                raise GoPanic("division by zero")
            if isinstance(x, float):
                return x / y
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return self.fit(q if op == "/" else x - q * y, i["t"])
        if op == "&^":
            return x & ~y
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y,
             "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
        return self.fit(r, i["t"])

    def length(self, st, v):
        if v is None:
            return 0
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, Slice):
            return v.hi - v.lo
        if isinstance(v, Map):
            return len(st.heap[v.o])
        if isinstance(v, Sym):
            return st.facts.get(("len", v), Sym("len", v, t="int"))
        raise Broken(f"len of {v!r}")

    # ---- running
    def run(self, f, args, st, bindings=(), depth=0):
        """the paths of one call"""
        if isinstance(f, str):
            f = self.prog.funcs[f]
        if depth > 60:
            raise Broken("calls nest too deep")
        if not f.get("blocks"):
            yield from self.outside(f["name"], args, st, f.get("results", []), f, None)
            return
        self.visited.add(f["name"])
        regs = {p["r"]: a for p, a in zip(f["params"], args)}
        regs.update({p["r"]: b for p, b in zip(f["freevars"], bindings)})
        work = [(0, None, 0, regs, st, (), {})]
        while work:
            b, prev, at, regs, st, defers, counts = work.pop()
            self.steps += 1
            if self.steps > 4_000_000:
                raise Broken("too many steps")
            blk = f["blocks"][b]
            ins = blk["instrs"]
            if at == 0:
                c = counts.get(b, 0)
                if c > self.unroll:
                    self.cuts += 1
                    yield Out("cut", b, st)
                    continue
                counts = {**counts, b: c + 1}
                phis = [i for i in ins if i["op"] == "Phi"]
                if phis:
                    e = blk["preds"].index(prev)
                    vals = [self.val(st, regs, i["edges"][e]) for i in phis]
                    regs = {**regs, **{i["r"]: v for i, v in zip(phis, vals)}}
                    at = len(phis)
            done = False
            regs = dict(regs)
            while at < len(ins):
                i = ins[at]
                op = i["op"]
                try:
                    if op == "Jump":
                        work.append((blk["succs"][0], b, 0, regs, st, defers, counts))
                        done = True
                        break
                    if op == "If":
                        v = self.val(st, regs, i["x"])
                        for t, s in reversed(self.truth(st, v)):
                            if isinstance(v, Sym):
                                self.learn(s, v, t)
                            work.append((blk["succs"][0 if t else 1], b, 0, regs, s, defers, counts))
                        done = True
                        break
                    if op == "Return":
                        r = [self.val(st, regs, x) for x in i.get("results") or []]
                        yield Out("ret", tuple(r) if len(r) != 1 else r[0], st)
                        done = True
                        break
                    if op == "Panic":
                        raise GoPanic(repr(self.val(st, regs, i["x"])))
                    if op in ("Call", "Go", "Defer"):
                        callee, cargs, name = self.callee(st, regs, i["call"])
                        if op == "Defer":
                            defers = defers + ((callee, tuple(cargs), name, i),)
                            at += 1
                            continue
                        if op == "Go":
                            st.trace.append({"kind": "go", "callee": callee, "args": cargs, "name": name, "line": i["line"], "fn": f["name"], "held": st.held})
                            at += 1
                            continue
                        outs = list(self.invoke(callee, cargs, name, st, i, f, depth))
                        for n, o in enumerate(outs):
                            if o.kind == "ret":
                                work.append((b, prev, at + 1, {**regs, i["r"]: o.val}, o.st, defers, counts))
                            elif o.kind == "panic":
                                yield from self.unwind(f, o.val, o.st, defers, depth)
                            else:
                                yield o
                        done = True
                        break
                    if op == "RunDefers":
                        outs = list(self.deferred(f, defers, st, depth))
                        for o in outs:
                            if o.kind == "ret":
                                work.append((b, prev, at + 1, regs, o.st, (), counts))
                            else:
                                yield o
                        done = True
                        break
                    alts = self.step(f, i, regs, st)
                    if len(alts) == 1:
                        v, st = alts[0]
                        if "r" in i:
                            regs[i["r"]] = v
                        at += 1
                        continue
                    for v, s in reversed(alts):
                        work.append((b, prev, at + 1, {**regs, i["r"]: v}, s, defers, counts))
                    done = True
                    break
                except GoPanic as e:
                    st.trace.append({"kind": "panic", "what": str(e), "line": i["line"], "fn": f["name"]})
                    yield from self.unwind(f, str(e), st, defers, depth)
                    done = True
                    break
            if not done:
                raise Broken(f"{f['name']} block {b} has no end")

    def learn(self, st, v, t):
        """what a branch tells"""
        while v.k == "not":
            v, t = v.a[0], not t
        if v.k == "isnil":
            st.facts[("nil", v.a[0])] = t

    def deferred(self, f, defers, st, depth):
        if not defers:
            yield Out("ret", None, st)
            return
        callee, args, name, i = defers[-1]
        for o in list(self.invoke(callee, list(args), name, st, i, f, depth, deferred=True)):
            if o.kind == "ret":
                yield from self.deferred(f, defers[:-1], o.st, depth)
            else:
                yield o

    def unwind(self, f, what, st, defers, depth):
        st.ghost["panicking"] = what
        st.ghost["recovered"] = False
        for o in list(self.deferred(f, defers, st, depth)):
            if o.kind != "ret":
                yield o
                continue
            if o.st.ghost.get("recovered"):
                o.st.ghost["panicking"] = None
                if "recover" in f:
                    regs = {}
                    blk = f["blocks"][f["recover"]]
                    r = []
                    for i in blk["instrs"]:
                        if i["op"] == "Return":
                            r = [self.zero(t) for t in f["results"]]
                    yield Out("ret", tuple(r) if len(r) != 1 else r[0], o.st)
                else:
                    r = [self.zero(t) for t in f["results"]]
                    yield Out("ret", tuple(r) if len(r) != 1 else r[0], o.st)
            else:
                yield Out("panic", what, o.st)

    def callee(self, st, regs, c):
        args = [self.val(st, regs, a) for a in c.get("args") or []]
        if "invoke" in c:
            r = self.val(st, regs, c["recv"])
            m = c["invoke"]
            if r is None:
                raise GoPanic(f"nil interface's {m}")
            if isinstance(r, Iface):
                t = r.t
                ms = self.prog.methods.get(t, {})
                if m in ms:
                    return Func(ms[m]), [r.v] + args, ms[m]
                return None, [r.v] + args, f"({t}).{m}"
            return None, [r] + args, f"({c['iface']}).{m}"
        v = self.val(st, regs, c["fn"])
        if v is None:
            raise GoPanic("nil function")
        if isinstance(v, Func):
            return v, args, v.f
        return v, args, repr(v)

    def invoke(self, callee, args, name, st, i, f, depth, deferred=False):
        t = i.get("t")
        if isinstance(callee, Func) and callee.f.startswith("builtin."):
            alts = self.builtin(callee.f[8:], args, st, i, f)
            for v, s in alts:
                yield Out("ret", v, s)
            return
        g = self.prog.funcs.get(callee.f) if isinstance(callee, Func) else None
        if g is not None and g.get("blocks") and not self.opaque(g):
            if self.ext is not None:
                r = self.ext(self, st, name, args, i, f)
                if r is not None:
                    for o in r:
                        yield o if isinstance(o, Out) else Out("ret", *o)
                    return
            yield from self.run(g, args, st, callee.b, depth + 1)
            return
        res = g["results"] if g is not None else None
        if res is None:
            u = self.prog.under(t) if t else {"kind": "tuple", "elems": []}
            res = (u.get("elems") or []) if u["kind"] == "tuple" else [t]
        yield from self.outside(name, args, st, res, g, i, f)

    def outside(self, name, args, st, res, g, i, f=None):
        """a call that leaves the module"""
        line = i["line"] if i else 0
        ev = {"kind": "call", "name": name, "args": args, "line": line, "fn": f["name"] if f else None, "held": st.held, "heap": dict(st.heap)}
        short = name.rsplit("/", 1)[-1]
        if g is not None and g.get("pkg", "").endswith("/logging") and self.opaque(g):
            yield Out("ret", self.unknown(st, name, args, res), st)
            return
        m = name.rsplit(".", 1)[-1]
        if "sync.RWMutex)" in name or "sync.Mutex)" in name:
            lock = self.place(st, args[0])
            st.trace.append({**ev, "lock": lock})
            if m in ("Lock", "RLock"):
                if any(x == lock for x, _ in st.held) and not (m == "RLock" and all(k == "RLock" for x, k in st.held if x == lock)):
                    yield Out("deadlock", lock, st)
                    return
                st.held = st.held + ((lock, m),)
            elif m in ("Unlock", "RUnlock"):
                want = (lock, m.replace("Unlock", "Lock"))
                if want not in st.held:
                    raise GoPanic(f"{m} of a lock that is not held")
                h = list(st.held)
                h.remove(want)
                st.held = tuple(h)
            yield Out("ret", (), st)
            return
        r = self.ext(self, st, name, args, i, f) if self.ext else None
        if r is None:
            r = self.known(st, short, args, i)
            if r is not None:
                for v, s in r:
                    yield Out("ret", v, s)
                return
        st.trace.append(ev)
        if name.endswith(".init"):
            yield Out("ret", (), st)
            return
        if name == "os.Exit":
            yield Out("exit", args[0], st)
            return
        if r is None:
            r = self.either(st, name, args, res)
        for o in r:
            o = o if isinstance(o, Out) else Out("ret", *o)
            if o.kind == "ret":
                o.st.trace.append({"kind": "returned", "name": name, "val": o.val, "line": line, "args": args})
            yield o

    def unknown(self, st, name, args, res):
        r = [Sym("result", name, next(self.fresh), k, t=t) for k, t in enumerate(res)]
        return tuple(r) if len(r) != 1 else r[0]

    def either(self, st, name, args, res):
        """an unknown call's success and failure"""
        if res and res[-1] == "error":
            s2 = st.copy()
            n = next(self.fresh)
            good = [Sym("result", name, n, k, t=t) for k, t in enumerate(res[:-1])] + [None]
            bad = [self.zero(t) for t in res[:-1]] + [Sym("error", name, n, t="error")]
            pack = lambda r: tuple(r) if len(r) != 1 else r[0]
            return [(pack(good), st), (pack(bad), s2)]
        return [(self.unknown(st, name, args, res), st)]

    def known(self, st, name, args, i):
        """library functions of known arguments"""
        a = args
        strs = all(isinstance(x, str) for x in a)
        if name == "errors.New":
            return [(Iface("*errors.errorString", Ptr(st.new(SV("errors.errorString", {"s": a[0]})))), st)]
        if name == "fmt.Errorf":
            xs = self.seq(st, a[1])
            return [(Iface("*fmt.wrapError", Ptr(st.new(SV("fmt.wrapError", {"msg": a[0] if isinstance(a[0], str) else "?", "of": tuple(x for x in xs if "%w" in str(a[0]))})))), st)]
        if name in ("errors.Is", "errors.Unwrap"):
            def inner(e):
                x = st.heap[e.v.o] if isinstance(e, Iface) and isinstance(e.v, Ptr) else None
                return list(x.f.get("of", ())) if isinstance(x, SV) else []
            if name == "errors.Unwrap":
                return [((inner(a[0]) or [None])[0], st)]
            todo, sure = [a[0]], False
            while todo:
                e = todo.pop()
                q = self.equal(st, e, a[1])
                if q is True:
                    return [(True, st)]
                sure = sure or isinstance(q, Sym)
                todo += inner(e)
            return [(Sym("errorIs", a[0], a[1]) if sure else False, st)]
        if strs and name.startswith("strings."):
            fn = {"HasPrefix": str.startswith, "HasSuffix": str.endswith, "TrimPrefix": str.removeprefix, "TrimSuffix": str.removesuffix, "Contains": lambda x, y: y in x, "ToLower": str.lower, "ToUpper": str.upper,
                  "TrimLeft": str.lstrip, "TrimRight": str.rstrip, "Trim": str.strip, "Index": lambda x, y: len(x[:x.find(y)].encode()) if y in x else -1, "LastIndex": lambda x, y: len(x[:x.rfind(y)].encode()) if y in x else -1,
                  "TrimSpace": str.strip, "EqualFold": lambda x, y: x.lower() == y.lower()}.get(name[8:])
            if fn:
                return [(fn(*a), st)]
            if name == "strings.CutPrefix":
                return [((a[0].removeprefix(a[1]), a[0].startswith(a[1])), st)]
            if name == "strings.Cut":
                x, sep, y = a[0].partition(a[1])
                return [((x, y, bool(sep)), st)]
            if name == "strings.Split":
                return [(self.slice(st, a[0].split(a[1]) if a[1] else list(a[0])), st)]
        if name in ("strings.IndexRune", "strings.IndexByte") and isinstance(a[0], str) and isinstance(a[1], int):
            c = chr(a[1])
            return [(len(a[0][:a[0].find(c)].encode()) if c in a[0] else -1, st)]
        if name == "strings.SplitN" and isinstance(a[0], str):
            return [(self.slice(st, a[0].split(a[1], a[2] - 1) if a[2] > 0 else a[0].split(a[1])), st)]
        if name == "strings.Join":
            xs = self.seq(st, a[0])
            if all(isinstance(x, str) for x in xs):
                return [(a[1].join(xs), st)]
        if name == "strconv.FormatUint" or name == "strconv.FormatInt":
            return [(str(a[0]) if isinstance(a[0], int) and a[1] == 10 else Sym("text", a[0], t="string"), st)]
        if name == "strconv.Itoa":
            return [(str(a[0]) if isinstance(a[0], int) else Sym("text", a[0], t="string"), st)]
        if name == "fmt.Sprintf" and isinstance(a[0], str):
            xs = [x.v if isinstance(x, Iface) else x for x in self.seq(st, a[1])]
            out, k, j = [], 0, 0
            s = a[0]
            while j < len(s):
                if s[j] != "%":
                    out.append(s[j])
                    j += 1
                elif s[j + 1] == "%":
                    out.append("%")
                    j += 2
                elif s[j + 1] in "sdvq" and k < len(xs):
                    x = xs[k]
                    out.append(str(x) if isinstance(x, (str, int)) and s[j + 1] != "q" else Sym("text", x))
                    k += 1
                    j += 2
                else:
                    return [(Sym("sprintf", s, *map(repr, xs), t="string"), st)]
            if all(isinstance(x, str) for x in out):
                return [("".join(out), st)]
            return [(Sym("sprintf", s, *map(repr, xs), t="string"), st)]
        return None

    def builtin(self, n, a, st, i, f):
        if n == "len":
            return [(self.length(st, a[0]), st)]
        if n == "cap":
            if isinstance(a[0], Slice):
                return [(len(st.heap[a[0].o]) - a[0].lo, st)]
            return [(self.length(st, a[0]), st)]
        if n == "append":
            if isinstance(a[1], Sym) or isinstance(a[0], Sym):
                return [(Sym("append", a[0], a[1], t=i["t"]), st)]
            more = list(a[1].encode()) if isinstance(a[1], str) else self.seq(st, a[1])
            return [(self.slice(st, self.seq(st, a[0]) + more), st)]
        if n == "copy":
            if isinstance(a[0], Slice) and isinstance(a[1], Slice):
                k = min(a[0].hi - a[0].lo, a[1].hi - a[1].lo)
                src = self.seq(st, a[1])[:k]
                d = list(st.heap[a[0].o])
                d[a[0].lo:a[0].lo + k] = src
                st.heap[a[0].o] = tuple(d)
                return [(k, st)]
            st.trace.append({"kind": "copy", "args": a, "line": i["line"]})
            return [(Sym("copied", a[0], a[1], t="int"), st)]
        if n == "delete":
            if a[0] is not None:
                self.mapaccess(st, a[0], "write", f, i)
                d = dict(st.heap[a[0].o])
                d.pop(a[1], None)
                st.heap[a[0].o] = d
            return [(None, st)]
        if n == "recover":
            w = st.ghost.get("panicking")
            st.ghost["recovered"] = True
            return [(Sym("panicvalue", str(w)) if w is not None else None, st)]
        if n in ("min", "max") and all(isinstance(x, (int, float, str)) for x in a):
            return [((min if n == "min" else max)(a), st)]
        if n == "close":
            st.trace.append({"kind": "close", "args": a, "line": i["line"]})
            return [(None, st)]
        if n in ("print", "println"):
            return [(None, st)]
        if n == "clear":
            if isinstance(a[0], Map):
                self.mapaccess(st, a[0], "write", f, i)
                st.heap[a[0].o] = {}
            return [(None, st)]
        if n.startswith("ssa:wrapnilchk"):
            if a[0] is None:
                raise GoPanic("nil pointer dereference")
            return [(a[0], st)]
        raise Broken(f"builtin {n}")

    def mapaccess(self, st, m, kind, f, i):
        if self.access and isinstance(m, Map):
            self.access(self, st, kind, m.o, (), f, i)

    def step(self, f, i, regs, st):
        op = i["op"]
        v = lambda x: self.val(st, regs, x)
        if op == "Alloc":
            return [(Ptr(st.new(self.zero(i["elem"]))), st)]
        if op == "BinOp":
            return [(self.binop(st, i, v(i["x"]), v(i["y"])), st)]
        if op == "UnOp":
            x = v(i["x"])
            t = i["tok"]
            if t == "*":
                return [(self.load(st, x, i, f), st)]
            if t == "!":
                return [(Sym("not", x) if isinstance(x, Sym) else not x, st)]
            if t == "-":
                return [(Sym("neg", x, t=i["t"]) if isinstance(x, Sym) else self.fit(-x, i["t"]), st)]
            if t == "^":
                return [(self.fit(~x, i["t"]), st)]
            if t == "<-":
                st.trace.append({"kind": "recv", "ch": x, "line": i["line"], "fn": f["name"]})
                r = self.ext(self, st, "<-", [x], i, f) if self.ext else None
                if r is not None:
                    return [(z.val, z.st) if isinstance(z, Out) else z for z in r]
                r = Sym("received", x, next(self.fresh), t=i["t"])
                return [((r, Sym("open", x)) if i.get("commaok") else r, st)]
            raise Broken(t)
        if op in ("ChangeInterface", "ChangeType", "MultiConvert"):
            return [(v(i["x"]), st)]
        if op == "Convert":
            x = v(i["x"])
            a, b = self.prog.under(i["from"]), self.prog.under(i["t"])
            if isinstance(x, Sym):
                return [(Sym("conv", i["t"], x, t=i["t"]), st)]
            if b["kind"] == "slice" and isinstance(x, str):
                return [(self.slice(st, list(x.encode()) if "byte" in str(b["elem"]) or "uint8" in str(b["elem"]) else [ord(c) for c in x]), st)]
            if b.get("basic") == "string" and a["kind"] == "slice":
                xs = self.seq(st, x)
                if all(isinstance(z, int) for z in xs):
                    return [(bytes(xs).decode("utf8", "replace") if "32" not in str(a["elem"]) and "rune" not in str(a["elem"]) else "".join(map(chr, xs)), st)]
                return [(Sym("string", *xs, t="string"), st)]
            if b.get("basic") == "string" and isinstance(x, int):
                return [(chr(x), st)]
            if "float" in b.get("basic", ""):
                return [(float(x), st)]
            if isinstance(x, float) and b.get("basic") in BITS:
                return [(self.fit(int(x), i["t"]), st)]
            return [(self.fit(x, i["t"]), st)]
        if op == "MakeInterface":
            return [(Iface(i["from"], v(i["x"])), st)]
        if op == "MakeClosure":
            return [(Func(i["fn"], [v(b) for b in i.get("bindings") or []]), st)]
        if op == "MakeMap":
            return [(Map(st.new({})), st)]
        if op == "MakeChan":
            return [(Sym("chan", next(self.fresh), t=i["t"]), st)]
        if op == "MakeSlice":
            n = v(i["len"])
            if isinstance(n, Sym):
                return [(Sym("buffer", n, next(self.fresh), t=i["t"]), st)]
            z = self.zero(self.prog.under(i["t"])["elem"])
            return [(self.slice(st, [z] * n), st)]
        if op == "FieldAddr":
            p = self.place(st, v(i["x"]))
            return [(Ptr(p.o, p.path + (i["field"],)), st)]
        if op == "Field":
            x = v(i["x"])
            return [(self.get(st, x, (i["field"],)), st)]
        if op in ("IndexAddr", "Index"):
            x, n = v(i["x"]), v(i["i"])
            if isinstance(x, Ptr):
                a = self.load(st, x)
                if isinstance(n, int) and isinstance(a, tuple):
                    if not 0 <= n < len(a):
                        raise GoPanic("index out of range")
                    return [(Ptr(x.o, x.path + (n,)), st)]
                raise Broken(f"index {n!r} of {a!r}")
            if isinstance(x, Slice) and isinstance(n, int):
                if not 0 <= n < x.hi - x.lo:
                    raise GoPanic("index out of range")
                return [(Ptr(x.o, (x.lo + n,)), st)]
            if x is None:
                raise GoPanic("index out of range")
            if isinstance(x, str) and isinstance(n, int):
                bs = x.encode()
                if not 0 <= n < len(bs):
                    raise GoPanic("index out of range")
                return [(bs[n], st)]
            if isinstance(x, tuple) and isinstance(n, int):
                if not 0 <= n < len(x):
                    raise GoPanic("index out of range")
                return [(x[n], st)]
            if isinstance(x, Sym):
                k = self.length(st, x)
                if isinstance(k, int) and isinstance(n, int) and not 0 <= n < k:
                    raise GoPanic("index out of range")
                if not isinstance(k, int):
                    low = st.facts.get(("atleast", x))
                    if not (isinstance(low, int) and isinstance(n, int) and 0 <= n < low):
                        raise GoPanic("index out of range")
                if op == "Index":
                    return [(Sym("elem", x, n, t=i["t"]), st)]
                e = self.prog.under(i["t"]).get("elem")
                key = ("elem", x, n)
                if key not in st.ghost:
                    st.ghost[key] = st.new(Sym("elem", x, n, t=e))
                return [(Ptr(st.ghost[key]), st)]
            raise Broken(f"index {n!r} of {x!r}")
        if op == "Lookup":
            x, n = v(i["x"]), v(i["i"])
            if isinstance(x, str) or (isinstance(x, Sym) and not i.get("commaok") and self.prog.under(x.t).get("basic") == "string"):
                if isinstance(x, str) and isinstance(n, int):
                    bs = x.encode()
                    if not 0 <= n < len(bs):
                        raise GoPanic("index out of range")
                    return [(bs[n], st)]
                return [(Sym("elem", x, n, t=i["t"]), st)]
            et = i["t"] if not i.get("commaok") else self.prog.under(i["t"])["elems"][0]
            if isinstance(x, Sym):
                r, ok = Sym("lookup", x, n, t=et, nn=False), Sym("has", x, n)
                return [((r, ok) if i.get("commaok") else r, st)]
            self.mapaccess(st, x, "read", f, i)
            d = st.map(x)
            alts = []
            if n in d:
                r = (d[n], True)
                return [(r if i.get("commaok") else r[0], st)]
            for k in d:
                e = self.equal(st, k, n)
                if e is True:
                    return [((d[k], True) if i.get("commaok") else d[k], st)]
                if isinstance(e, Sym):
                    if st.facts.get(e) is True:
                        return [((d[k], True) if i.get("commaok") else d[k], st)]
                    if e not in st.facts:
                        s2 = st.copy()
                        s2.facts[e] = True
                        st.facts[e] = False
                        alts.append(((d[k], True) if i.get("commaok") else d[k], s2))
            z = self.zero(et)
            return alts + [((z, False) if i.get("commaok") else z, st)]
        if op == "MapUpdate":
            m = v(i["m"])
            if m is None:
                raise GoPanic("assignment to entry in nil map")
            if isinstance(m, Sym):
                st.trace.append({"kind": "mapupdate", "m": m, "key": v(i["key"]), "v": v(i["v"]), "line": i["line"]})
                return [(None, st)]
            self.mapaccess(st, m, "write", f, i)
            st.heap[m.o] = {**st.heap[m.o], v(i["key"]): v(i["v"])}
            return [(None, st)]
        if op == "Store":
            self.store(st, v(i["addr"]), v(i["v"]), i, f)
            return [(None, st)]
        if op == "Extract":
            x = v(i["x"])
            return [(x[i["i"]] if isinstance(x, tuple) else Sym("extract", x, i["i"], t=i["t"]), st)]
        if op == "TypeAssert":
            x = v(i["x"])
            to = i["to"]
            ok = None
            if x is None:
                ok, r = False, None
            elif isinstance(x, Iface):
                if self.prog.under(to)["kind"] == "interface":
                    ok, r = True, x
                else:
                    ok, r = x.t == to, x.v
            else:
                ok, r = True, Sym("as", to, x, t=to) if x.t != to else x
                if not x.nn and st.facts.get(("nil", x)) is not False:
                    ok = False
            if not ok and not i.get("commaok"):
                raise GoPanic(f"type assertion of {x!r} to {to}")
            if not ok:
                r = self.zero(to)
            return [((r, ok) if i.get("commaok") else r, st)]
        if op == "Slice":
            x, lo, hi = v(i["x"]), v(i["lo"]), v(i["hi"])
            lo = 0 if lo is None else lo
            if isinstance(x, Ptr):
                a = self.load(st, x)
                if x.path:
                    raise Broken("slice of a nested array")
                hi = len(a) if hi is None else hi
                return [(Slice(x.o, lo, hi), st)]
            if isinstance(x, str) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
                bs = x.encode()
                hi = len(bs) if hi is None else hi
                if not 0 <= lo <= hi <= len(bs):
                    raise GoPanic("slice bounds out of range")
                return [(bs[lo:hi].decode("utf8", "surrogateescape"), st)]
            if x is None:
                if lo or hi:
                    raise GoPanic("slice bounds out of range")
                return [(None, st)]
            if isinstance(x, Slice) and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
                hi = x.hi - x.lo if hi is None else hi
                if not 0 <= lo <= hi <= len(st.heap[x.o]) - x.lo:
                    raise GoPanic("slice bounds out of range")
                return [(Slice(x.o, x.lo + lo, x.lo + hi), st)]
            return [(Sym("slice", x, lo, hi, t=i["t"]), st)]
        if op == "Range":
            x = v(i["x"])
            if isinstance(x, (str, Map)) or x is None:
                if isinstance(x, Map):
                    self.mapaccess(st, x, "read", f, i)
                items = [(len(x[:k].encode()), ord(c)) for k, c in enumerate(x)] if isinstance(x, str) else list(st.map(x).items())
                return [(Ptr(st.new(("iter", tuple(items), 0))), st)]
            raise Broken(f"range over {x!r}")
        if op == "Next":
            p = v(i["x"])
            _, items, k = st.heap[p.o]
            if k < len(items):
                st.heap[p.o] = ("iter", items, k + 1)
                return [((True,) + tuple(items[k]), st)]
            return [((False, None, None), st)]
        if op == "Send":
            st.trace.append({"kind": "send", "ch": v(i["ch"]), "x": v(i["x"]), "line": i["line"], "fn": f["name"], "held": st.held})
            return [(None, st)]
        if op == "Select":
            st.trace.append({"kind": "select", "line": i["line"], "fn": f["name"]})
            out = []
            n = len(i["states"]) + (0 if i["blocking"] else 1)
            for k in range(n):
                s = st if k == n - 1 else st.copy()
                idx = k if k < len(i["states"]) else -1
                rs = []
                for j, z in enumerate(i["states"]):
                    ch = self.val(s, regs, z["ch"])
                    if z["dir"] == 2:
                        rs.append(Sym("received", ch, next(self.fresh)))
                    elif j == k:
                        s.trace.append({"kind": "send", "ch": ch, "x": self.val(s, regs, z["send"]), "line": i["line"], "fn": f["name"], "held": s.held})
                out.append(((idx, Sym("open", next(self.fresh))) + tuple(rs), s))
            return out
        raise Broken(f"SSA instruction {op}")
