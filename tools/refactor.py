"""Behaviour-preserving rewrites of the project's Python sources, to test that the checks stay quiet.

    python3 tools/refactor.py KIND[,KIND...] DEST     a rewritten copy of the two packages under DEST
"""
import ast
import builtins
import copy
import os
import shutil
import sys

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(fn):
    """nodes of a function without nested functions, classes and lambdas"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for x in ast.iter_child_nodes(n):
            if not isinstance(x, (*FUNCS, ast.ClassDef, ast.Lambda)):
                todo.append(x)


class Blocks(ast.NodeTransformer):
    """rewrites statement lists"""

    def block(self, body):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node


class Ret(Blocks):
    """return e -> r = e; return r"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out += [ast.Assign([ast.Name("result_", ast.Store())], s.value), ast.Return(ast.Name("result_", ast.Load()))]
            else:
                out.append(s)
        return out


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Rename(ast.NodeTransformer):
    """local variables renamed"""

    def fn(self, n):
        if any(isinstance(x, FUNCS + (ast.ClassDef, ast.Lambda)) for b in n.body for x in ast.walk(b)):
            return self.generic_visit(n)
        params = {a.arg for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs, *[x for x in (n.args.vararg, n.args.kwarg) if x]]}
        glob = {x for s in own(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        local = {x.id for x in own(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in own(n) if isinstance(x, ast.ExceptHandler) and x.name}
        local -= params | glob
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in own(n)):
            return n
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in local:
                    x.id += "_v"
                if isinstance(x, ast.ExceptHandler) and x.name in local:
                    x.name += "_v"
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class Hoist(Blocks):
    """arguments of calls get names"""

    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            c = v.value if isinstance(v, ast.Await) else v
            if isinstance(c, ast.Call) and self.plain(c.func) and not any(isinstance(a, ast.Starred) for a in c.args) and not any(k.arg is None for k in c.keywords):
                n = 0
                for holder, f in [(c.args, i) for i in range(len(c.args))] + [(k, "value") for k in c.keywords]:
                    a = holder[f] if isinstance(f, int) else getattr(holder, f)
                    if isinstance(a, (ast.Constant, ast.Lambda, ast.GeneratorExp)) or any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(a)):
                        continue
                    n += 1
                    name = f"arg_{n}"
                    out.append(ast.Assign([ast.Name(name, ast.Store())], a))
                    if isinstance(f, int):
                        holder[f] = ast.Name(name, ast.Load())
                    else:
                        setattr(holder, f, ast.Name(name, ast.Load()))
            out.append(s)
        return out

    def plain(self, f):
        if isinstance(f, ast.Name):
            return f.id not in ("super", "locals")
        return isinstance(f, ast.Attribute) and (self.plain(f.value) or isinstance(f.value, ast.Name))

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, FUNCS):
                self.visit(s)
        return n

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, (*FUNCS, ast.ClassDef)):
                self.visit(s)
        return n


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Else(Blocks):
    """if c: return x; rest -> if c: return x else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and body[i + 1:] and i + 1 < len(body):
                return body[:i] + [ast.If(s.test, s.body, self.block(body[i + 1:]))]
        return body


class UnElse(Blocks):
    """if c: return x else: rest -> if c: return x; rest"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and leaves(s.body):
                out += [ast.If(s.test, s.body, []), *self.block(s.orelse)]
            else:
                out.append(s)
        return out


class Format(ast.NodeTransformer):
    """f-strings -> str.format"""

    def visit_JoinedStr(self, n):
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                conv = "" if v.conversion == -1 else "!" + chr(v.conversion)
                spec = ""
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ":" + "".join(x.value for x in v.format_spec.values)
                text += "{" + conv + spec + "}"
                args.append(self.visit(v.value))
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])


class Comp(Blocks):
    """x = [e for ...] -> a loop"""

    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and len(v.generators) == 1 and not v.generators[0].is_async and s.targets[0].id not in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}:
                t = s.targets[0].id
                g = v.generators[0]
                init = {ast.ListComp: ast.List([], ast.Load()), ast.SetComp: ast.Call(ast.Name("set", ast.Load()), [], []), ast.DictComp: ast.Dict([], [])}[type(v)]
                name = ast.Name(t, ast.Load())
                if isinstance(v, ast.DictComp):
                    add = ast.Assign([ast.Subscript(name, v.key, ast.Store())], v.value)
                else:
                    add = ast.Expr(ast.Call(ast.Attribute(name, "append" if isinstance(v, ast.ListComp) else "add", ast.Load()), [v.elt], []))
                b = [add]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                out += [ast.Assign(s.targets, init), ast.For(g.target, g.iter, b, [])]
            else:
                out.append(s)
        return out

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, (*FUNCS, ast.ClassDef)):
                self.visit(s)
        return n

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, FUNCS):
                self.visit(s)
        return n

    def visit_FunctionDef(self, n):
        # loop variables must not clash with the function's names
        names = [x.id for x in own(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        k = 0
        for x in own(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp)):
                k += 1
                mine = {y.id for g in x.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id in mine:
                        y.id += f"_{k}"
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_FunctionDef


class Nest(ast.NodeTransformer):
    """if a and b -> nested"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b), where used as a condition"""

    def cond(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), self.cond(v)) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n


class Flip(ast.NodeTransformer):
    """a < b -> b > a; x is not None -> not x is None"""

    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not any(isinstance(x, (ast.Call, ast.Await)) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n


class Aug(ast.NodeTransformer):
    """x += 1 -> x = x + 1"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, (ast.Name, ast.Attribute)) and isinstance(n.value, ast.Constant):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class Cond(Blocks):
    """x = a if c else b -> if"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and isinstance(s.targets[0], ast.Name):
                v = s.value
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                out.append(ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)]))
            else:
                out.append(s)
        return out


class Extract(ast.NodeTransformer):
    """each method's body goes to a helper"""

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit(s)
            self.owner = n.name.lower()
            out += self.split(s, True) if isinstance(s, FUNCS) else [s]
        n.body = out
        return n

    def split(self, s, method):
        a = s.args
        if s.decorator_list or s.name.startswith("__") or not a.args or a.args[0].arg != "self" or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(s)) or len([x for x in s.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]) < 2:
            return [s]
        if any(isinstance(x, ast.Name) and x.id in ("locals", "super") for x in own(s)):
            return [s]
        h = copy.deepcopy(s)
        h.name = f"_{self.owner}_{s.name}"
        h.args.defaults = []
        h.args.kw_defaults = [None for _ in h.args.kwonlyargs]
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]], [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs])
        if a.vararg:
            call.args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
        if a.kwarg:
            call.keywords.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
        s.body = doc + [ast.Return(ast.Await(call) if isinstance(s, ast.AsyncFunctionDef) else call)]
        return [s, h]


class Tail(Extract):
    """the second half of each method goes to a helper"""

    def split(self, s, method):
        a = s.args
        if s.decorator_list or s.name.startswith("__") or not a.args or a.args[0].arg != "self" or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(s)) or len(s.body) < 4:
            return [s]
        if any(isinstance(x, (*FUNCS, ast.Lambda)) for b in s.body for x in ast.walk(b)) or any(isinstance(x, ast.Name) and x.id in ("locals", "super") for x in own(s)) or any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Global)) for x in own(s)):
            return [s]
        k = len(s.body) // 2
        first, rest = s.body[:k], s.body[k:]
        if any(isinstance(x, ast.Return) for b in first for x in ast.walk(b)) and False:
            return [s]
        stored = {x.id for b in first for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        # definitely assigned at the top level of the first half only
        sure = {x.id for b in first if isinstance(b, ast.Assign) for t in b.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
        params = [x.arg for x in [*a.args[1:], *a.kwonlyargs, *[y for y in (a.vararg, a.kwarg) if y]]]
        used = {x.id for b in rest for x in ast.walk(b) if isinstance(x, ast.Name)}
        need = [x for x in [*params, *sorted(stored - set(params))] if x in used]
        if any(x in stored and x not in sure and x not in params for x in need):
            return [s]
        h = type(s)(name=f"_{self.owner}_rest_of_{s.name}", args=ast.arguments([], [ast.arg("self"), *[ast.arg(x) for x in need]], None, [], [], None, []), body=rest, decorator_list=[], returns=None, type_params=[])
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        s.body = first + [ast.Return(ast.Await(call) if isinstance(s, ast.AsyncFunctionDef) else call)]
        return [s, h]


class Alias(ast.NodeTransformer):
    """self.db, self.log, ... get a local name"""

    NAMES = ("db", "log", "queue", "proxy", "core_client", "custom_client", "_session", "task_pool")

    def fn(self, n):
        self.generic_visit(n)
        if not n.args.args or n.args.args[0].arg != "self" or n.name in ("__init__", "setup", "on_setup", "do_setup", "cleanup", "_cleanup"):
            return n
        if any(isinstance(x, (*FUNCS, ast.Lambda)) for b in n.body for x in ast.walk(b)):
            return n
        for name in self.NAMES:
            uses = [x for x in own(n) if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self"]
            if len(uses) < 2 or any(isinstance(x.ctx, ast.Store) for x in uses):
                continue

            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    self.generic_visit(x)
                    if x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self":
                        return ast.Name("the_" + name.lstrip("_"), ast.Load())
                    return x
            doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            rest = [R().visit(b) for b in n.body[len(doc):]]
            n.body = doc + [ast.Assign([ast.Name("the_" + name.lstrip("_"), ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()))] + rest
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class Kw(ast.NodeTransformer):
    """self.f(x) -> self.f(p=x), for methods whose name has one signature in the project"""

    sigs = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in self.sigs and self.sigs[f.attr] and not any(isinstance(a, ast.Starred) for a in n.args):
            names = self.sigs[f.attr]
            if len(n.args) <= len(names):
                n.keywords = [ast.keyword(p, a) for p, a in zip(names, n.args)] + n.keywords
                n.args = []
        return n


class Enum(ast.NodeTransformer):
    """for x in l -> for _, x in enumerate(l)"""

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name("_i", ast.Store()), n.target], ast.Store())
        return n


class ListFirst(ast.NodeTransformer):
    """for x in l -> for x in list(l)"""

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        return n


class RangeLen(Blocks):
    """for x in l -> for i in range(len(l)): x = l[i]"""

    n = 0

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For):
                RangeLen.n += 1
                l, i = f"_l{RangeLen.n}", f"_i{RangeLen.n}"
                out.append(ast.Assign([ast.Name(l, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], [])))
                s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(l, ast.Load())], [])], [])
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(ast.Name(l, ast.Load()), ast.Name(i, ast.Load()), ast.Load())))
                s.target = ast.Name(i, ast.Store())
            out.append(s)
        return out


class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in d: v = d[k]"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and isinstance(it.func.value, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            d, k, v = it.func.value, n.target.elts[0], n.target.elts[1]
            n.iter, n.target = d, k
            n.body.insert(0, ast.Assign([v], ast.Subscript(d, ast.Name(k.id, ast.Load()), ast.Load())))
        return n


class Noop(ast.NodeTransformer):
    """statements that do nothing"""

    def fn(self, n):
        self.generic_visit(n)
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        n.body = doc + [ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None))] + n.body[len(doc):]
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class DictCall(ast.NodeTransformer):
    """{"a": x} -> dict(a=x)"""

    def visit_Dict(self, n):
        self.generic_visit(n)
        import keyword
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and not keyword.iskeyword(k.value) for k in n.keys):
            return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n


class DictSteps(Blocks):
    """d = {"a": x, "b": y} -> d = {}; d["a"] = x; ..."""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Dict) and s.value.keys and all(k is not None for k in s.value.keys) and self.infn:
                t = s.targets[0].id
                if t in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}:
                    out.append(s)
                    continue
                out.append(ast.Assign(s.targets, ast.Dict([], [])))
                for k, v in zip(s.value.keys, s.value.values):
                    out.append(ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), k, ast.Store())], v))
            else:
                out.append(s)
        return out

    infn = 0

    def fn(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def visit_ClassDef(self, n):
        i, self.infn = self.infn, 0
        for s in n.body:
            self.visit(s)
        self.infn = i
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class TryElse(Blocks):
    """try: a; return f() -> the returned value computed inside, returned after"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Try) and s.body and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None and not s.orelse and not s.finalbody and s.handlers and all(leaves(h.body) and not isinstance(h.body[-1], (ast.Break,)) for h in s.handlers) and s is body[-1]:
                s.body[-1] = ast.Assign([ast.Name("outcome_", ast.Store())], s.body[-1].value)
                out += [s, ast.Return(ast.Name("outcome_", ast.Load()))]
            else:
                out.append(s)
        return out


class Gather(Blocks):
    """x = await f() -> c = f(); x = await c"""

    def block(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Await) and isinstance(v.value, ast.Call):
                out.append(ast.Assign([ast.Name("pending_", ast.Store())], v.value))
                v.value = ast.Name("pending_", ast.Load())
            out.append(s)
        return out


class Percent(ast.NodeTransformer):
    """f-strings -> concatenation"""

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(ast.Call(ast.Name("str", ast.Load()), [self.visit(v.value)], []))
            else:
                return n
        if not parts:
            return ast.Constant("")
        e = parts[0]
        for p in parts[1:]:
            e = ast.BinOp(e, ast.Add(), p)
        return e


def names_in(nodes, ctx):
    return {x.id for b in nodes for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


class Part(ast.NodeTransformer):
    """parts of methods go to helper methods"""

    def visit_ClassDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit(s)
            out.append(s)
            if isinstance(s, FUNCS) and not s.decorator_list and s.args.args and s.args.args[0].arg == "self" and s.name != "__init__" \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in own(s)) and not any(isinstance(x, ast.Name) and x.id in ("locals", "super") for x in own(s)):
                self.fn, self.owner, self.k, self.new = s, n.name.lower(), 0, []
                self.blocks(s.body)
                out += self.new
        n.body = out
        return n

    def blocks(self, body):
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(s, (*FUNCS, ast.ClassDef)):
                    self.blocks(b)
            for h in getattr(s, "handlers", ()):
                self.blocks(h.body)
            if self.wanted(s):
                self.move(s)

    def move(self, s):
        body = s.body
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Import, ast.ImportFrom, ast.Lambda, ast.Delete, *FUNCS, ast.ClassDef)) for b in body for x in ast.walk(b)):
            return
        if sum(1 for b in body for x in ast.walk(b) if isinstance(x, ast.stmt)) < 2 or any(isinstance(x, ast.Raise) and x.exc is None for b in body for x in ast.walk(b)):
            return
        stored = names_in(body, ast.Store) | {x.name for b in body for x in ast.walk(b) if isinstance(x, ast.ExceptHandler) and x.name}
        inside = {id(x) for b in body for x in ast.walk(b)}
        outside = {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and id(x) not in inside}
        a = self.fn.args
        params = {x.arg for x in [*a.args, *a.kwonlyargs, *[y for y in (a.vararg, a.kwarg) if y]]}
        if stored & (outside | params):
            return
        local = params | {x.id for x in ast.walk(self.fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(self.fn) if isinstance(x, ast.ExceptHandler) and x.name}
        local |= {x.name for x in ast.walk(self.fn) if isinstance(x, (*FUNCS, ast.ClassDef))}
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(self.fn)):
            return
        need = sorted((names_in(body, ast.Load) & local) - stored - {"self"})
        self.k += 1
        name = f"_{self.owner}_{self.fn.name}_{self.k}"
        wait = any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith)) or isinstance(x, ast.comprehension) and x.is_async for b in body for x in ast.walk(b))
        if wait and not isinstance(self.fn, ast.AsyncFunctionDef):
            return
        h = (ast.AsyncFunctionDef if wait else ast.FunctionDef)(name=name, args=ast.arguments([], [ast.arg("self"), *[ast.arg(x) for x in need]], None, [], [], None, []), body=body, decorator_list=[], returns=None, type_params=[])
        call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        s.body = [ast.Expr(ast.Await(call) if wait else call)]
        self.new.append(h)


class LoopBody(Part):
    """the bodies of for loops go to helper methods"""

    def wanted(self, s):
        return isinstance(s, (ast.For, ast.AsyncFor))


class IfBody(Part):
    """the bodies of ifs go to helper methods"""

    def wanted(self, s):
        return isinstance(s, ast.If)


class TryBody(Part):
    """the bodies of tries go to helper methods"""

    def wanted(self, s):
        return isinstance(s, ast.Try)


class Guard(ast.NodeTransformer):
    """for x in l: if c: A -> for x in l: if not c: continue; A"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body[-1]
            n.body = n.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], []), *i.body]
        return n


class WhileIdx(Blocks):
    """for x in l -> i = 0; while i < len(l): x = l[i]; i += 1; ..."""

    n = 0

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse:
                WhileIdx.n += 1
                l, i = f"_l{WhileIdx.n}", f"_i{WhileIdx.n}"
                out.append(ast.Assign([ast.Name(l, ast.Store())], ast.Call(ast.Name("list", ast.Load()), [s.iter], [])))
                out.append(ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)))
                s = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Call(ast.Name("len", ast.Load()), [ast.Name(l, ast.Load())], [])]),
                              [ast.Assign([s.target], ast.Subscript(ast.Name(l, ast.Load()), ast.Name(i, ast.Load()), ast.Load())), ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1)), *s.body], [])
            out.append(s)
        return out


class InlineVar(Blocks):
    """x = e; f(x) -> f(e), where x is used once, right away and first"""

    def fn(self, n):
        self.uses = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.uses[x.id] = self.uses.get(x.id, 0) + 1
        return self.generic_visit(n)

    visit_FunctionDef = visit_AsyncFunctionDef = fn

    def block(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and getattr(self, "uses", {}).get(p.targets[0].id) == 2 and isinstance(s, (ast.Return, ast.Assign, ast.Expr)):
                v, name = s.value, p.targets[0].id
                a = v.value if isinstance(v, ast.Await) else v
                if isinstance(a, ast.Call) and a.args and isinstance(a.args[0], ast.Name) and a.args[0].id == name and isinstance(a.func, (ast.Name, ast.Attribute)) and not (isinstance(p.value, ast.Await) and isinstance(a.func, ast.Attribute)):
                    a.args[0] = p.value
                    out[-1] = s
                    continue
                if isinstance(v, ast.Name) and v.id == name:
                    s.value = p.value
                    out[-1] = s
                    continue
            out.append(s)
        return out


class Swap(Blocks):
    """neighbouring assignments of constants and plain values change places"""

    def block(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if self.simple(a) and self.simple(b):
                ta, tb = ast.dump(a.targets[0]).replace("Store", "Load"), ast.dump(b.targets[0]).replace("Store", "Load")
                if ta not in ast.dump(b.value) and tb not in ast.dump(a.value) and ta != tb and not (isinstance(b.targets[0], ast.Name) and b.targets[0].id in names_in([a], ast.Load)) and not (isinstance(a.targets[0], ast.Name) and a.targets[0].id in names_in([b], ast.Load)):
                    out[i], out[i + 1] = b, a
                    i += 1
            i += 1
        return out

    def simple(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.expr_context)) for x in ast.walk(s.value))

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, (*FUNCS, ast.ClassDef)):
                self.visit(s)
        return n

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, (*FUNCS, ast.ClassDef)):
                self.visit(s)
        return n


KINDS = {k.__name__.lower(): k for k in (Ret, Invert, Rename, Hoist, Else, UnElse, Format, Comp, Nest, DeMorgan, Flip, Aug, Cond, Extract, Tail, Alias, Kw, Enum, ListFirst, RangeLen, Items, Noop, DictCall, DictSteps, TryElse, Gather, Percent, LoopBody, IfBody, TryBody, Guard, WhileIdx, InlineVar, Swap)}
DIRS = ("dask-gateway/dask_gateway", "dask-gateway-server/dask_gateway_server")


def signatures(trees):
    sigs = {}
    for t in trees.values():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, FUNCS):
                        a = f.args
                        s = tuple(x.arg for x in a.args[1:]) if not a.vararg and not a.posonlyargs and a.args and a.args[0].arg == "self" and not f.decorator_list else ()
                        sigs[f.name] = s if sigs.get(f.name, s) == s else ()
    return sigs


def main(kinds, dest, src="/repo"):
    trees = {}
    for d in DIRS:
        for root, _, files in os.walk(os.path.join(src, d)):
            for f in files:
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    trees[os.path.relpath(p, src)] = ast.parse(open(p).read())
    Kw.sigs = signatures(trees)
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(src, dest, symlinks=True, ignore=shutil.ignore_patterns(".git", "node_modules"))
    for p, t in trees.items():
        if p.endswith("_version.py"):
            continue
        for k in kinds:
            t = KINDS[k]().visit(t)
        text = ast.unparse(ast.fix_missing_locations(t))
        compile(text, p, "exec")
        with open(os.path.join(dest, p), "w") as f:
            f.write(text + "\n")


if __name__ == "__main__":
    main(sys.argv[1].split(","), sys.argv[2])
