"""Whole-program, flow-insensitive class-type inference (subset constraints).

Nodes:  ('v', func, name) local/param, ('g', mod, name) global,
        ('a', topclass, attr) instance field, ('r', func) return value,
        ('e', node) element of a container, ('t', n) temporary.
The solution maps each node to a set of project class names (instances of).
It is only used to resolve receivers: which class a symbolic object has.
"""
import ast

from .program import dotted

ADD = {"append", "add", "appendleft", "put", "put_nowait", "insert", "put_after", "put_backoff", "push"}
GET = {"get", "pop", "popleft", "setdefault", "popitem", "get_nowait"}
SAME = {"values", "copy", "keys", "union", "difference", "intersection"}


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.sol = {}
        self.edges = {}
        self.cplx = {}
        self.work = []
        self.ntmp = 0
        self.elem_of = set()
        self._tops = {}
        for m in prog.modules.values():
            for f in m.all_funcs:
                self._func(f)
            self._body(m.tree.body, ("mod", m.name), m)
        for c in prog.classes.values():
            for k, n in c.assigns.items():
                self._trait(c, k, n)
        self._solve()

    # -- public --------------------------------------------------------
    def attr_types(self, cls, attr):
        return self.sol.get(("a", self.top(cls), attr), set())

    def attr_elem_types(self, cls, attr, depth=1):
        n = ("a", self.top(cls), attr)
        for _ in range(depth):
            n = ("e", n)
        return self.sol.get(n, set())

    def param_types(self, func, name):
        return self.sol.get(("v", func.qual, name), set())

    # -- constraint generation -------------------------------------------
    def top(self, cls):
        q = cls.qual
        if q not in self._tops:
            self._tops[q] = cls.mro()[-1].qual
        return self._tops[q]

    def tmp(self):
        self.ntmp += 1
        return ("t", self.ntmp)

    def elem(self, n):
        d = 0
        x = n
        while x[0] == "e":
            d += 1
            x = x[1]
        if d >= 3:
            return n
        e = ("e", n)
        if e not in self.elem_of:
            self.elem_of.add(e)
            for a in list(self.edges.get(n, ())):
                self._link_elems(n, a)
            for a, bs in list(self.edges.items()):
                if n in bs:
                    self._link_elems(a, n)
        return e

    def _link_elems(self, a, b):
        ea, eb = ("e", a), ("e", b)
        if ea in self.elem_of or eb in self.elem_of:
            d = 0
            x = a
            while x[0] == "e":
                d += 1
                x = x[1]
            if d >= 3:
                return
            self.elem_of.add(ea)
            self.elem_of.add(eb)
            self.edge(ea, eb)
            self.edge(eb, ea)

    def edge(self, a, b):
        if a is None or b is None or a == b:
            return
        s = self.edges.setdefault(a, set())
        if b in s:
            return
        s.add(b)
        self._link_elems(a, b)
        if self.sol.get(a):
            self.work.append(a)

    def add(self, n, cq):
        if n is None:
            return
        s = self.sol.setdefault(n, set())
        if cq not in s:
            s.add(cq)
            self.work.append(n)

    def on(self, n, fn):
        if n is None:
            return
        self.cplx.setdefault(n, []).append((fn, set()))
        if self.sol.get(n):
            self.work.append(n)

    def _solve(self):
        budget = 2000000
        while self.work and budget:
            budget -= 1
            n = self.work.pop()
            cur = self.sol.get(n, set())
            for fn, done in list(self.cplx.get(n, ())):
                for c in list(cur):
                    if c not in done:
                        done.add(c)
                        fn(c)
            for b in list(self.edges.get(n, ())):
                s = self.sol.setdefault(b, set())
                if not cur <= s:
                    s |= cur
                    self.work.append(b)

    def _trait(self, c, k, n):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d and d.split(".")[-1] == "Instance" and n.args:
                x = dotted(n.args[0])
                r = self.prog.resolve(c.module, x) if x else None
                if r and r[0] == "class":
                    self.add(("a", self.top(c), k), r[1])
            r = self.prog.resolve(c.module, d) if d else None
            if r and r[0] == "class":
                self.add(("a", self.top(c), k), r[1])

    def _func(self, f):
        node = f.node
        if f.cls is not None and f.kind in ("function", "property", "setter") and f.outer is None:
            ps = f.params()
            if ps:
                self.add(("v", f.qual, ps[0]), f.cls.qual)
        self._body(node.body, f, f.module)
        for d in node.args.defaults:
            pass

    def _scope_var(self, scope, name, module):
        """node of a variable as seen from scope"""
        if isinstance(scope, tuple):
            r = self.prog.resolve_name(module, name)
            if r and r[0] == "glob":
                return ("g", r[1], r[2])
            return ("g", module.name, name)
        f = scope
        while f is not None:
            if name in self._locals(f):
                return ("v", f.qual, name)
            f = f.outer
        r = self.prog.resolve_name(module, name)
        if r and r[0] == "glob":
            return ("g", r[1], r[2])
        return None

    def _locals(self, f):
        loc = getattr(f, "_locals", None)
        if loc is None:
            loc = set()
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                loc.add(x.arg)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            stack = list(f.node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    loc.add(n.name)
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    loc.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
                if isinstance(n, ast.arg):
                    loc.add(n.arg)
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    pass
                stack.extend(ast.iter_child_nodes(n))
            f._locals = loc
        return loc

    def _body(self, body, scope, module):
        for n in body:
            self._stmt(n, scope, module)

    def _assign(self, t, vn, scope, module):
        if isinstance(t, ast.Name):
            self.edge(vn, self._scope_var(scope, t.id, module))
        elif isinstance(t, ast.Attribute):
            b = self._expr(t.value, scope, module)
            attr = t.attr

            def fn(c):
                cls = self.prog.classes[c]
                self.edge(vn, ("a", self.top(cls), attr))
                self.edge(("a", self.top(cls), attr), vn) if vn in self.elem_of or ("e", vn) in self.elem_of else None

            self.on(b, fn)
        elif isinstance(t, ast.Subscript):
            b = self._expr(t.value, scope, module)
            if b is not None:
                self.edge(vn, self.elem(b))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self._assign(e, self.elem(vn) if vn else None, scope, module)
        elif isinstance(t, ast.Starred):
            self._assign(t.value, vn, scope, module)

    def _stmt(self, n, scope, module):
        X = lambda e: self._expr(e, scope, module) if e is not None else None
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(n, ast.Assign):
            v = X(n.value)
            for t in n.targets:
                self._assign(t, v, scope, module)
        elif isinstance(n, ast.AnnAssign):
            v = X(n.value)
            if v:
                self._assign(n.target, v, scope, module)
        elif isinstance(n, ast.AugAssign):
            v = X(n.value)
            self._assign(n.target, v, scope, module)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            v = X(n.iter)
            if v is not None:
                self._assign(n.target, self.elem(v), scope, module)
            self._body(n.body + n.orelse, scope, module)
        elif isinstance(n, ast.Return):
            v = X(n.value)
            if v and not isinstance(scope, tuple):
                self.edge(v, ("r", scope.qual))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = X(i.context_expr)
                if i.optional_vars is not None and v:
                    self._assign(i.optional_vars, v, scope, module)
            self._body(n.body, scope, module)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    X(c)
                elif isinstance(c, ast.stmt):
                    self._stmt(c, scope, module)
                elif isinstance(c, ast.ExceptHandler):
                    self._body(c.body, scope, module)

    def _bind(self, f, argn, kwn, selfn=None, skip_self=False):
        ps = f.params()
        if f.cls is not None and f.outer is None and f.kind in ("function", "class", "property") and ps:
            if selfn is not None and f.kind != "class":
                self.edge(selfn, ("v", f.qual, ps[0]))
            if skip_self:
                ps = ps[1:]
        for p, a in zip(ps, argn):
            if a:
                self.edge(a, ("v", f.qual, p))
                if ("e", ("v", f.qual, p)) in self.elem_of:
                    self.edge(("v", f.qual, p), a)
        kws = {x.arg for x in f.node.args.kwonlyargs} | set(ps)
        for k, a in kwn.items():
            if a:
                if k in kws:
                    self.edge(a, ("v", f.qual, k))

    def _ret(self, f, out):
        if f.is_gen:
            self.edge(("y", f.qual), self.elem(out))
        else:
            self.edge(("r", f.qual), out)

    def _expr(self, e, scope, module):
        X = lambda x: self._expr(x, scope, module)
        if e is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            return self._scope_var(scope, e.id, module)
        if isinstance(e, (ast.Await,)):
            return X(e.value)
        if isinstance(e, ast.NamedExpr):
            v = X(e.value)
            self._assign(e.target, v, scope, module)
            return v
        if isinstance(e, ast.Yield):
            v = X(e.value)
            if v and not isinstance(scope, tuple):
                self.edge(v, ("y", scope.qual))
            return None
        if isinstance(e, ast.Attribute):
            r = self._static(e, scope, module)
            if r is not None:
                if r[0] == "glob":
                    return ("g", r[1], r[2])
                return None
            b = X(e.value)
            out = self.tmp()
            attr = e.attr

            def fn(c):
                cls = self.prog.classes[c]
                m = cls.find_method(attr)
                if m is not None and m.kind == "property":
                    self._bind(m, [], {}, None)
                    self._ret(m, out)
                elif m is None:
                    an = ("a", self.top(cls), attr)
                    self.edge(an, out)
                    if ("e", out) in self.elem_of or ("e", an) in self.elem_of:
                        self.edge(out, an) if False else self._link_elems(an, out)

            self.on(b, fn)
            return out
        if isinstance(e, ast.Subscript):
            b = X(e.value)
            X(e.slice)
            if isinstance(e.slice, ast.Slice):
                return b
            return self.elem(b) if b else None
        if isinstance(e, ast.IfExp):
            X(e.test)
            out = self.tmp()
            self.edge(X(e.body), out)
            self.edge(X(e.orelse), out)
            return out
        if isinstance(e, ast.BoolOp):
            out = self.tmp()
            for v in e.values:
                self.edge(X(v), out)
            return out
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = self.tmp()
            for v in e.elts:
                n = X(v.value if isinstance(v, ast.Starred) else v)
                if n:
                    if isinstance(v, ast.Starred):
                        self.edge(self.elem(n), self.elem(out))
                    else:
                        self.edge(n, self.elem(out))
            return out
        if isinstance(e, ast.Dict):
            out = self.tmp()
            for k, v in zip(e.keys, e.values):
                n = X(v)
                if n:
                    self.edge(n, self.elem(out))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                it = X(g.iter)
                if it:
                    self._assign(g.target, self.elem(it), scope, module)
                for c in g.ifs:
                    X(c)
            out = self.tmp()
            n = X(e.value if isinstance(e, ast.DictComp) else e.elt)
            if isinstance(e, ast.DictComp):
                X(e.key)
            if n:
                self.edge(n, self.elem(out))
            return out
        if isinstance(e, ast.Lambda):
            X(e.body)
            return None
        if isinstance(e, ast.Call):
            return self._call(e, scope, module)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                X(c)
        return None

    def _static(self, e, scope, module):
        d = dotted(e)
        if d is None:
            return None
        head = d.split(".")[0]
        f = scope if not isinstance(scope, tuple) else None
        while f is not None:
            if head in self._locals(f):
                return None
            f = f.outer
        return self.prog.resolve(module, d)

    def _call(self, e, scope, module):
        X = lambda x: self._expr(x, scope, module)
        argn = [X(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kwn = {k.arg: X(k.value) for k in e.keywords if k.arg}
        for k in e.keywords:
            if k.arg is None:
                X(k.value)
        out = self.tmp()
        fn = e.func
        r = self._static(fn, scope, module) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if r is not None:
            if r[0] == "class":
                c = self.prog.classes[r[1]]
                self.add(out, c.qual)
                init = c.find_method("__init__")
                if init:
                    self._bind(init, argn, kwn, out, skip_self=True)
                return out
            if r[0] == "func":
                f = self.prog.funcs[r[1]]
                self._bind(f, argn, kwn)
                self._ret(f, out)
                return out
        if isinstance(fn, ast.Name):
            # nested function?
            f = scope if not isinstance(scope, tuple) else None
            while f is not None:
                q = f"{f.qual}.{fn.id}"
                if q in self.prog.funcs:
                    g = self.prog.funcs[q]
                    self._bind(g, argn, kwn)
                    self._ret(g, out)
                    return out
                f = f.outer
            if fn.id in ("list", "set", "tuple", "sorted", "iter", "reversed", "frozenset", "dict", "islice", "chain", "next") and argn:
                for a in argn:
                    if a:
                        if fn.id == "next":
                            self.edge(self.elem(a), out)
                        else:
                            self.edge(self.elem(a), self.elem(out))
                return out
            if fn.id in ("enumerate", "zip"):
                for a in argn:
                    if a:
                        self.edge(self.elem(a), self.elem(self.elem(out)))
                return out
            if fn.id in ("ensure_future", "awaitable", "wait_for", "shield"):
                return argn[0] if argn else None
            return out
        if isinstance(fn, ast.Attribute):
            if fn.attr in ("ensure_future", "wait_for", "shield", "create_task") and argn:
                return argn[0]
            # super().m(...)
            if (
                isinstance(fn.value, ast.Call)
                and dotted(fn.value.func) == "super"
                and not isinstance(scope, tuple)
                and scope.cls is not None
            ):
                for c in scope.cls.mro()[1:]:
                    if fn.attr in c.methods:
                        m = c.methods[fn.attr]
                        self._bind(m, argn, kwn, None, skip_self=True)
                        self._ret(m, out)
                        break
                return out
            b = X(fn.value)
            name = fn.attr

            def oncls(cq):
                c = self.prog.classes[cq]
                ms = []
                m = c.find_method(name)
                if m:
                    ms.append(m)
                for s in c.subclasses():
                    if name in s.methods:
                        ms.append(s.methods[name])
                for m in ms:
                    self._bind(m, argn, kwn, None, skip_self=m.kind != "static")
                    self._ret(m, out)

            self.on(b, oncls)
            if b is not None:
                if name in ADD:
                    for a in argn:
                        if a:
                            self.edge(a, self.elem(b))
                if name in ("extend", "update"):
                    for a in argn:
                        if a:
                            self.edge(self.elem(a), self.elem(b))
                if name in GET:
                    self.edge(self.elem(b), out)
                if name in SAME:
                    self.edge(self.elem(b), self.elem(out))
                if name == "items":
                    self.edge(self.elem(b), self.elem(self.elem(out)))
            return out
        X(fn)
        return out
