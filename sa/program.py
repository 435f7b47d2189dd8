"""Loading of the project's sources: modules, classes, functions, imports."""
import ast
import os

from .desugar import desugar

REPO = os.environ.get("VERIF_REPO", "/repo")
SERVER = os.path.join(REPO, "dask-gateway-server", "dask_gateway_server")
CLIENT = os.path.join(REPO, "dask-gateway", "dask_gateway")


class Broken(Exception):
    """The analysis cannot be carried out (an anchor vanished, ...)."""


class Func:
    def __init__(self, qual, name, node, module, cls=None, outer=None):
        self.qual = qual
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.decorators = list(getattr(node, "decorator_list", []))
        self.kind = "function"
        for d in self.decorators:
            n = dotted(d)
            if n == "staticmethod":
                self.kind = "static"
            elif n == "classmethod":
                self.kind = "class"
            elif n in ("property", "cached_property", "functools.cached_property"):
                self.kind = "property"
            elif n and (n.endswith(".setter") or n.endswith(".deleter")):
                self.kind = "setter"

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_trivial(self):
        """Only a docstring / pass / raise NotImplementedError / ..."""
        for s in getattr(self.node, "body", [None]):
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)):
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets):
                continue
            if isinstance(s, ast.Raise) and s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                if dotted(e) == "NotImplementedError":
                    continue
            return False
        return True

    def __repr__(self):
        return f"<Func {self.qual}>"


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return ".".join(reversed(parts))
    return None


class Class:
    def __init__(self, qual, name, node, module):
        self.qual = qual
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.assigns = {}
        self.bases = []
        self.prog = None
        self._mro = None

    @property
    def line(self):
        return self.node.lineno

    def mro(self):
        if self._mro is None:
            out = [self]
            lists = []
            for b in self.bases:
                c = self.prog.classes.get(b)
                if c is not None:
                    lists.append(list(c.mro()))
            lists.append([self.prog.classes[b] for b in self.bases if b in self.prog.classes])
            # C3 merge (fall back to depth-first)
            lists = [l for l in lists if l]
            while lists:
                for l in lists:
                    cand = l[0]
                    if not any(cand in m[1:] for m in lists):
                        break
                else:
                    cand = lists[0][0]
                out.append(cand)
                lists = [[x for x in m if x is not cand] for m in lists]
                lists = [l for l in lists if l]
            self._mro = out
        return self._mro

    def ext_bases(self):
        """Names of all external (non-project) ancestors."""
        out = set()
        for c in self.mro():
            for b in c.bases:
                if b not in self.prog.classes:
                    out.add(b)
        return out

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro():
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def is_subclass(self, qual):
        return any(c.qual == qual for c in self.mro())

    def subclasses(self, strict=True):
        return [
            c
            for c in self.prog.classes.values()
            if self in c.mro() and (c is not self or not strict)
        ]

    def is_enum(self):
        return any(b.split(".")[-1] in ("IntEnum", "Enum", "Flag", "IntFlag", "StrEnum")
                   for b in self.ext_bases())

    def enum_members(self):
        out = {}
        for k, n in self.assigns.items():
            if isinstance(n, ast.Constant):
                out[k] = n.value
        return out

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.imports = {}
        self.star = []
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.all_funcs = []

    def rel(self):
        return os.path.relpath(self.path, REPO)


class Program:
    def __init__(self, packages=None):
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        for pkg, root in packages or [("dask_gateway_server", SERVER), ("dask_gateway", CLIENT)]:
            self._load_pkg(pkg, root)
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.prog = self
            for b in c.node.bases:
                d = dotted(b)
                if d is None:
                    continue
                r = self.resolve(c.module, d)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.bases.append(r[1] if r and r[0] == "ext" else d)
        self.func_of_node = {id(f.node): f for f in self.funcs.values()}
        self._by_method = None

    # -- loading -------------------------------------------------------
    def _load_pkg(self, pkg, root):
        if not os.path.isdir(root):
            raise Broken(f"package directory {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "node_modules"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                name = pkg if rel == "__init__" else f"{pkg}.{rel}"
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = desugar(ast.parse(src, path))
                except SyntaxError as exc:
                    raise Broken(f"{path} does not parse: {exc}")
                m = Module(name, path, tree, src)
                m.is_pkg = f == "__init__.py"
                self.modules[name] = m

    def _index(self, m):
        def resolve_from(node):
            if node.level:
                base = m.name.split(".")
                drop = node.level - (1 if m.is_pkg else 0)
                base = base[: len(base) - drop] if drop else base
                mod = ".".join(base + ([node.module] if node.module else []))
            else:
                mod = node.module or ""
            return mod

        def visit_imports(body):
            for n in body:
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            m.imports[a.asname] = ("mod", a.name)
                        else:
                            top = a.name.split(".")[0]
                            m.imports[top] = ("mod", top)
                elif isinstance(n, ast.ImportFrom):
                    mod = resolve_from(n)
                    for a in n.names:
                        if a.name == "*":
                            m.star.append(mod)
                        else:
                            m.imports[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(n, (ast.If, ast.Try)):
                    for blk in ("body", "orelse", "finalbody"):
                        visit_imports(getattr(n, blk, []))
                    for h in getattr(n, "handlers", []):
                        visit_imports(h.body)

        visit_imports(m.tree.body)

        def visit(body, prefix, cls, outer, toplevel):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{n.name}"
                    i = 2
                    while q in self.funcs and self.funcs[q].node is not n:
                        q = f"{prefix}.{n.name}#{i}"
                        i += 1
                    f = Func(q, n.name, n, m, cls, outer)
                    self.funcs[q] = f
                    m.all_funcs.append(f)
                    if cls is not None and outer is None:
                        if f.kind != "setter" and not (
                            n.name in cls.methods and cls.methods[n.name].kind == "property"
                        ):
                            cls.methods[n.name] = f
                    elif toplevel:
                        m.funcs[n.name] = f
                    visit(n.body, q, cls, f, False)
                elif isinstance(n, ast.ClassDef):
                    q = f"{prefix}.{n.name}"
                    c = Class(q, n.name, n, m)
                    c.prog = self
                    self.classes[q] = c
                    if toplevel:
                        m.classes[n.name] = c
                    for s in n.body:
                        if isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.assigns[t.id] = s.value
                        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                            if s.value is not None:
                                c.assigns[s.target.id] = s.value
                    visit(n.body, q, c, None, False)
                else:
                    if toplevel and isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                m.globals.setdefault(t.id, n.value)
                            elif isinstance(t, ast.Tuple):
                                for e in t.elts:
                                    if isinstance(e, ast.Name):
                                        m.globals.setdefault(e.id, None)
                    elif toplevel and isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        m.globals.setdefault(n.target.id, n.value)
                    for blk in ("body", "orelse", "finalbody"):
                        b = getattr(n, blk, None)
                        if isinstance(b, list):
                            visit(b, prefix, cls, outer, toplevel)
                    for h in getattr(n, "handlers", []):
                        visit(h.body, prefix, cls, outer, toplevel)

        visit(m.tree.body, m.name, None, None, True)

    # -- name resolution -----------------------------------------------
    def resolve(self, module, dotted_name, seen=None):
        """-> ('class', qual) | ('func', qual) | ('mod', name) | ('glob', mod, name)
        | ('ext', dotted) | None"""
        parts = dotted_name.split(".")
        r = self.resolve_name(module, parts[0], seen)
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == "mod":
                sub = self.modules.get(f"{r[1]}.{p}")
                mod = self.modules.get(r[1])
                rr = self.resolve_name(mod, p, seen) if mod is not None else None
                if rr is None and sub is not None:
                    rr = ("mod", sub.name)
                if rr is None:
                    rr = ("ext", f"{r[1]}.{p}")
                r = rr
            elif r[0] == "ext":
                r = ("ext", f"{r[1]}.{p}")
            elif r[0] == "class":
                c = self.classes[r[1]]
                f = c.find_method(p)
                if f:
                    r = ("func", f.qual)
                else:
                    return None
            else:
                return None
        return r

    def resolve_name(self, module, name, seen=None):
        if module is None:
            return None
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen = seen | {(module.name, name)}
        if name in module.classes:
            return ("class", module.classes[name].qual)
        if name in module.funcs:
            return ("func", module.funcs[name].qual)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                if imp[1] in self.modules:
                    return ("mod", imp[1])
                return ("ext", imp[1])
            _, mod, nm = imp
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], nm, seen)
                if r is not None:
                    return r
                if f"{mod}.{nm}" in self.modules:
                    return ("mod", f"{mod}.{nm}")
            return ("ext", f"{mod}.{nm}")
        if name in module.globals:
            return ("glob", module.name, name)
        for s in module.star:
            if s in self.modules:
                r = self.resolve_name(self.modules[s], name, seen)
                if r is not None:
                    return r
        return None

    # -- lookups by stable names ---------------------------------------
    def cls(self, modname, name):
        m = self.modules.get(modname)
        c = None
        if m is not None:
            r = self.resolve_name(m, name)
            if r and r[0] == "class":
                c = self.classes[r[1]]
        if c is None:
            cands = [x for x in self.classes.values() if x.name == name
                     and x.qual.startswith(modname.split(".")[0] + ".")]
            if len(cands) == 1:
                c = cands[0]
        if c is None:
            raise Broken(f"class {modname}.{name} not found")
        return c

    def method(self, cls, name):
        f = cls.find_method(name)
        if f is None:
            raise Broken(f"method {cls.qual}.{name} not found")
        return f

    def methods_named(self, name):
        if self._by_method is None:
            self._by_method = {}
            for c in self.classes.values():
                for k, f in c.methods.items():
                    self._by_method.setdefault(k, []).append(f)
        return self._by_method.get(name, [])

    def loc(self, module, node):
        return f"{module.rel()}:{getattr(node, 'lineno', 0)}"
