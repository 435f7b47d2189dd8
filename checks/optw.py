"""Cluster option fields of the server and of the client, built and called abstractly."""

from sa.interp import Interp
from sa.program import Broken
from sa.query import dict_keys
from sa.state import Obj
from sa.values import FALSE, NONE, TRUE, V, const, is_const, cval

SERVER = "dask_gateway_server.options"
CLIENT = "dask_gateway.options"
NAN, INF = float("nan"), float("inf")

# what a request can carry: the values JSON has, at and around every bound used below
VALUES = [None, True, False, 0, 1, -1, 2, 3, 4, 5, 10**30, -(10**30), 0.0, 0.5, 0.49, 1.0, 2.5, 2.51, 4.0, 1e300, INF, -INF, NAN,
          "", "a", "b", "x", "y", "1", "2.0", "true", [], ["a"], [1], {}, {"a": 1}, {"a": {"b": [1]}}]


class Kind:
    """a declared field: its published type, its parameters, its default"""

    def __init__(self, name, typ, default, lo=None, hi=None, options=None, target=None, args=None):
        self.name, self.typ, self.default, self.lo, self.hi, self.options, self.target = name, typ, default, lo, hi, options, target
        self.args = args

    def accept(self, x):
        """(accepted, value) by the documented rule"""
        t = self.typ
        if t == "string":
            return (isinstance(x, str), x)
        if t == "bool":
            return (isinstance(x, bool), x)
        if t == "mapping":
            return (isinstance(x, dict), x)
        if t == "select":
            return (isinstance(x, str) and x in self.options, x)
        if not isinstance(x, int if t == "int" else (int, float)):
            return (False, x)
        if t == "float":
            x = float(x)
        if self.lo is not None and not x >= self.lo or self.hi is not None and not x <= self.hi:
            return (False, x)
        return (True, x)


KINDS = [
    Kind("s", "string", "d"),
    Kind("b", "bool", True),
    Kind("i", "int", 2, 1, 4, target="worker_i"),
    Kind("j", "int", 3),
    Kind("k", "int", 0, 0, None),
    Kind("l", "int", -1, None, 0),
    Kind("f", "float", 1.0, 0.5, 2.5, target="worker_f"),
    Kind("g", "float", 0.25),
    Kind("h", "float", 7.0, 0.0, None),
    Kind("n", "float", -7.0, None, 0.0),
    Kind("c", "select", "x", options={"x": "x", "y": 5, "a": None}, target="worker_c"),
    Kind("m", "mapping", {"p": 1}),
]
CLS = {"string": "String", "bool": "Bool", "int": "Integer", "float": "Float", "select": "Select", "mapping": "Mapping"}


def put(st, x):
    """a Python value as an abstract one"""
    if isinstance(x, V):
        return x
    if isinstance(x, dict):
        return st.alloc(Obj("dict", layers=tuple(("kv", const(k), put(st, v)) for k, v in x.items())))
    if isinstance(x, list):
        return st.alloc(Obj("list", lk="list", segs=tuple(("one", put(st, v)) for v in x)))
    if isinstance(x, tuple):
        return V("tuple", *[put(st, v) for v in x])
    return const(x)


class Unknown(Exception):
    pass


def get(st, v):
    """the Python value an abstract one stands for; Unknown when it is not fully known"""
    if is_const(v) and v.k == "const":
        return cval(v)
    if v.k == "tuple":
        return tuple(get(st, x) for x in v.a)
    o = st.obj(v)
    if o is not None and o.kind == "dict":
        d = {}
        for l in o.layers:
            if l[0] == "kv":
                d[get(st, l[1])] = get(st, l[2])
            elif l[0] == "del":
                d.pop(get(st, l[1]), None)
            elif l[0] == "src":
                d.update(get(st, l[1]))
            else:
                raise Unknown(l)
        return d
    if o is not None and o.kind == "list":
        out = []
        for g in o.segs:
            if g[0] != "one":
                raise Unknown(g)
            out.append(get(st, g[1]))
        return out
    raise Unknown(v)


def same(a, b):
    """equal, and of the same types throughout"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return a == b or a != a and b != b
    return a == b


def fits(prog, mod, typ):
    c = prog.modules.get(mod)
    if c is None:
        raise Broken(f"no module {mod}")
    return prog.cls(mod, CLS[typ])


def make(I, st, qual, args=(), kw=None):
    """(state, object) of every way the construction returns, and the exceptions it can raise"""
    outs = I.run_value(V("cls", qual), [put(st, a) for a in args], st, {k: put(st, v) for k, v in (kw or {}).items()}, awaited=False)
    return [(o.st, o.val) for o in outs if o.kind == "ret"], [o for o in outs if o.kind != "ret"]


def server_kw(k):
    kw = {"default": k.default}
    if k.typ in ("int", "float"):
        kw["min"], kw["max"] = k.lo, k.hi
    if k.typ == "select":
        kw["options"] = [a if a == b else (a, b) for a, b in k.options.items()]
    if k.target:
        kw["target"] = k.target
    return kw


def server_field(I, st, k, default=...):
    kw = server_kw(k)
    if default is not ...:
        kw["default"] = default
    return make(I, st, fits(I.prog, SERVER, k.typ).qual, [k.name], kw)


PY = {"string": "str", "bool": "bool", "int": "int", "float": "float", "select": "str", "mapping": "dict"}


def exact(c, I, st, f, kind, side, lo=None, hi=None, rules=("TYPE", "BOUNDS", "VALUE", "COMPLETE")):
    """One field with unknown bounds and an unknown candidate: what each way of validate() establishes about the candidate."""
    x = V("param", "candidate")
    cls = I.prog.classes[st.obj(f).cls]
    m = cls.find_method("validate")
    c.require(m is not None, rules[0], cls.qual, "the field has no check", key=f"{side}:{kind}:none")
    if m is None:
        return
    outs = I.run_function(m, [x], selfv=f, st=st.fork())
    c.analysed(*I.inlined)
    conv = V("call", V("builtin", "float"), (x,), (), 0)
    B = lambda n: V("builtin", n)
    ok = 0

    def rels(F, b):
        out = None
        for r in (x, conv):
            for q in (b, V("call", V("builtin", "float"), (b,), (), 0)):
                p = F.relation(r, q)
                out = p if out is None else out & p
        return out
    for o in outs:
        F = o.st.facts
        w = m.qual
        if kind == "float":
            isint, isfl = F.truth(V("isinstance", x, B("int"))), F.truth(V("isinstance", x, B("float")))
            typed = True if isint or isfl else False if isint is False and isfl is False else None
        else:
            typed = F.truth(V("isinstance", x, B(PY[kind])))
        below = [rels(F, lo) <= {"<", "u"} if lo is not None else False, rels(F, hi) <= {">", "u"} if hi is not None else False]
        inside = (lo is None or not rels(F, lo) & {"<", "u"}) and (hi is None or not rels(F, hi) & {">", "u"})
        if kind == "select":
            dom = F.domain(x)
            inside = dom is not None and dom <= {const("x"), const("y"), const("a")}
            gone = all(F.truth(V("cmp", "==", x, const(k))) is False for k in ("x", "y", "a"))
            below = [gone or dom is not None and not dom & {const("x"), const("y"), const("a")}]
            typed = True if inside else typed
        if o.kind == "ret":
            ok += 1
            c.require(typed is True, rules[0], w, f"a value is accepted by a {kind} field of the {side} without being known to be of that type", key=f"{side}:{kind}:type")
            c.require(inside, rules[1], w, f"a value that may lie outside the declared {'choices' if kind == 'select' else 'bounds'} (or compare as neither, like nan) is accepted by a {kind} field of the {side}", key=f"{side}:{kind}:bounds")
            want = {x, conv} if kind == "float" else {x}
            good = o.val in want or kind == "select" and o.val.k == "const" and F.domain(x) == frozenset([o.val])
            if kind == "float" and o.val is x:
                good = F.truth(V("isinstance", x, B("float"))) is True
            c.require(good, rules[2], w, f"what a {kind} field of the {side} returns is not the value it was given" + (" as a float" if kind == "float" else ""), key=f"{side}:{kind}:value")
        else:
            c.require(typed is False or any(below), rules[3], w, f"a {kind} field of the {side} refuses a value of its type within its bounds", key=f"{side}:{kind}:refuse")
    c.require(ok > 0, rules[3], m.qual, f"a {kind} field of the {side} refuses everything", key=f"{side}:{kind}:all")


def bounded(I, st, kind, build):
    """the four ways to bound a number field, with unknown bounds and default: (state, field, lo, hi)"""
    p = {n: V("param", n) for n in ("lo", "hi", "d")}
    out = []
    for lo in (None, p["lo"]):
        for hi in (None, p["hi"]):
            s = st.fork()
            for v in p.values():
                s.facts = s.facts.assume(V("cmp", "is", v, NONE), False)
                s.facts = s.facts.assume(V("isinstance", v, V("builtin", kind)), True)
                if kind == "float":
                    s.facts = s.facts.assume(V("isinstance", v, V("builtin", "int")), False)
            r, x = build(s, p["d"], lo if lo is not None else NONE, hi if hi is not None else NONE)
            out += [(s2, f, lo, hi) for s2, f in r]
    return out
