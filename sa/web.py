"""HTTP surface of the gateway server: every registered route with its handler value."""
import ast

from .interp import Interp
from .program import Broken
from .state import events, walk_events
from .values import V, show

METHODS = {"get", "post", "put", "delete", "patch", "head", "options", "view"}
SRV = "dask_gateway_server"


class Route:
    def __init__(self, method, path, handler, state, owner, func, where):
        self.method = method
        self.path = path
        self.handler = handler
        self.state = state
        self.owner = owner          # qualified class of self for bound handlers
        self.func = func
        self.where = where

    def __repr__(self):
        return f"{self.method.upper()} {self.path}"


def interp(prog, types, **kw):
    hints = {
        ("item", "backend"): SRV + ".backends.base.Backend",
        ("item", "authenticator"): SRV + ".auth.Authenticator",
        ("item", "gateway"): SRV + ".app.DaskGateway",
    }
    hints.update(kw.pop("hints", {}))
    return Interp(prog, types, hints=hints, **kw)


def web_callee(v):
    """aiohttp.web.get(...) style callee -> method"""
    if v.k == "ext":
        t = v.a[0].split(".")
        if t[:2] == ["aiohttp", "web"] and t[-1] in METHODS and len(t) == 3:
            return t[-1]
        if t[:2] == ["aiohttp", "web"] and t[-1] == "route":
            return "route"
    return None


def table_callee(v):
    if v.k == "attr" and v.a[1] in METHODS | {"route"}:
        b = v.a[0]
        if b.k == "call" and b.a[0].k == "ext" and b.a[0].a[0].endswith("RouteTableDef"):
            return v.a[1]
    return None


def routes(prog, types):
    """-> (list of Route, number of registrations seen syntactically)"""
    out = []
    # 1. decorator tables, module level
    for m in prog.modules.values():
        if not m.name.startswith(SRV):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "RouteTableDef"
                   or isinstance(n, ast.Name) and n.id == "RouteTableDef" for n in ast.walk(m.tree)):
            continue
        I = interp(prog, types)
        outs, fid = I.run_module(m)
        if len(outs) != 1:
            raise Broken(f"module {m.name} does not evaluate to one state ({len(outs)})")
        st = outs[0].st
        for e in events(st.trace):
            if e.kind == "decorate":
                d = e.decorator
                if d.k == "call":
                    meth = table_callee(d.a[0])
                    if meth:
                        a = list(d.a[1])
                        if meth == "route":
                            meth = str(a.pop(0).a[0]).lower()
                        out.append(Route(meth, path_of(a), e.value, st, None, None, f"{m.rel()}:{e.line}"))
    # 2. registrations in functions: web.get(path, handler), router.add_get(path, handler)
    for m in prog.modules.values():
        if not m.name.startswith(SRV):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr.startswith("add_") and n.func.attr[4:] in (
                        METHODS | {"static", "resource", "subapp", "domain"}):
                    f = func_at(prog, m, n)
                    out.append(Route("?" + n.func.attr, "?", None, None, None, f, f"{m.rel()}:{n.lineno}"))
    for f in list(prog.funcs.values()):
        if not f.module.name.startswith(SRV):
            continue
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call)
                 and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_routes",)]
        if not calls:
            continue
        I = interp(prog, types)
        selfv = V("param", "self")
        if f.cls is not None:
            I.term_types[selfv] = f.cls.qual
        args = [V("param", p) for p in f.params() if p != "self"]
        got = {}

        def on_event(st, e):
            if e.kind == "call":
                meth = web_callee(e.callee)
                if meth:
                    a = list(e.args)
                    if meth == "route":
                        meth = str(a.pop(0).a[0]).lower()
                    got[(meth, path_of(a), a[1])] = (st, e)
        I.on_event = on_event
        I.run_function(f, args, selfv=selfv if f.cls is not None else None)
        for (meth, path, h), (st, e) in got.items():
            out.append(Route(meth, path, h, st, f.cls.qual if f.cls else None, f, e.loc()))
    return out


def path_of(a):
    from .values import cval, is_const
    if not a or a[0].k != "const":
        return show(a[0]) if a else "?"
    return a[0].a[0]


def func_at(prog, m, node):
    best = None
    for f in prog.funcs.values():
        if f.module is m and f.node.lineno <= node.lineno <= (f.node.end_lineno or 0):
            if best is None or f.node.lineno > best.node.lineno:
                best = f
    return best
