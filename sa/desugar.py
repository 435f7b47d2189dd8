"""Loops written over indices, as loops over the elements (line numbers stay)"""
import ast
import copy

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
CHANGES = {"append", "remove", "pop", "insert", "clear", "extend", "sort", "reverse", "popleft", "appendleft", "add", "discard", "update"}


def dotted(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def same(a, b):
    return ast.dump(a, annotate_fields=False).replace("Store()", "Load()") == ast.dump(b, annotate_fields=False).replace("Store()", "Load()")


def call_of(n, name, args):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name and len(n.args) == args and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args)


class Subst(ast.NodeTransformer):
    def __init__(self, seq, i, name):
        self.seq, self.i, self.name = seq, i, name

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == self.i and same(n.value, self.seq):
            return ast.copy_location(ast.Name(self.name, ast.Load()), n)
        return n


class Loops(ast.NodeTransformer):
    def __init__(self, func):
        self.loads = {}
        for x in ast.walk(func):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                self.loads[x.id] = self.loads.get(x.id, 0) + 1

    def nested(self, n):
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = nested

    def loop(self, n, body):
        """body: the nodes the target is visible in"""
        it, t = n.iter, n.target
        if call_of(it, "enumerate", 1) and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and not self.loads.get(t.elts[0].id):
            n.iter, n.target = it.args[0], t.elts[1]
            return True
        if call_of(it, "range", 1) and call_of(it.args[0], "len", 1) and isinstance(t, ast.Name) and dotted(it.args[0].args[0]):
            seq = it.args[0].args[0]
            inside = sum(isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) for b in body for x in ast.walk(b))
            reads = sum(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Name) and x.slice.id == t.id and same(x.value, seq) for b in body for x in ast.walk(b))
            if inside != reads or inside != self.loads.get(t.id, 0):
                return False
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in (t.id, seq.id if isinstance(seq, ast.Name) else None):
                        return False
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and same(x, seq):
                        return False
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGES and same(x.func.value, seq):
                        return False
            name = f"__each_{t.id}"
            n.iter = seq
            n.target = ast.copy_location(ast.Name(name, ast.Store()), t)
            return Subst(seq, t.id, name)
        return False

    def visit_For(self, n):
        r = self.loop(n, n.body)
        if isinstance(r, Subst):
            n.body = [r.visit(b) for b in n.body]
            # x = l[i] first: the element's own name
            b = n.body[0]
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.Name) and b.value.id == n.target.id and len(n.body) > 1 \
                    and sum(isinstance(x, ast.Name) and x.id == n.target.id for y in n.body for x in ast.walk(y)) == 1:
                n.target = b.targets[0]
                n.body = n.body[1:]
        self.generic_visit(n)
        return n

    def comp(self, n):
        for i, g in enumerate(n.generators):
            body = ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]) + g.ifs + [x for h in n.generators[i + 1:] for x in [h.iter, *h.ifs]]
            r = self.loop(g, body)
            if isinstance(r, Subst):
                g.ifs = [r.visit(x) for x in g.ifs]
                for h in n.generators[i + 1:]:
                    h.iter, h.ifs = r.visit(h.iter), [r.visit(x) for x in h.ifs]
                if isinstance(n, ast.DictComp):
                    n.key, n.value = r.visit(n.key), r.visit(n.value)
                else:
                    n.elt = r.visit(n.elt)
        self.generic_visit(n)
        return n

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp


def pair(p, s):
    """c = g(); x = await c -> the name c"""
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.Call) and isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign)) \
            and isinstance(s.value, ast.Await) and isinstance(s.value.value, ast.Name) and s.value.value.id == p.targets[0].id \
            and not any(isinstance(x, ast.Call) for t in getattr(s, "targets", ()) for x in ast.walk(t)):
        return p.targets[0].id
    return None


def inline_awaited(f):
    """c = g(); x = await c, where c has no other use: x = await g()"""
    uses = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Name):
            uses[x.id] = uses.get(x.id, 0) + 1
        for nm in ("body", "orelse", "finalbody"):
            b = getattr(x, nm, None)
            if isinstance(b, list):
                for p, s in zip(b, b[1:]):
                    n = pair(p, s)
                    if n:
                        uses[n] = uses.get(n, 0) - 2
    for x in ast.walk(f):
        for nm in ("body", "orelse", "finalbody"):
            b = getattr(x, nm, None)
            if isinstance(b, list):
                out = []
                for s in b:
                    n = pair(out[-1], s) if out else None
                    if n and uses[n] == 0:
                        s.value.value = out.pop().value
                    out.append(s)
                setattr(x, nm, out)


def counted(w, before):
    """while i < len(l): x = l[i]; i += 1; ... after i = 0 -> the loop over range(len(l)), or None"""
    t = w.test
    if w.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name) and call_of(t.comparators[0], "len", 1) and dotted(t.comparators[0].args[0])):
        return None
    i = t.left.id
    start = [s for s in before if any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(s))]
    if not start or not (isinstance(start[-1], ast.Assign) and len(start[-1].targets) == 1 and isinstance(start[-1].targets[0], ast.Name) and isinstance(start[-1].value, ast.Constant) and start[-1].value.value == 0
                         and type(start[-1].value.value) is int):
        return None
    steps = [s for s in w.body if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.value, ast.Constant) and s.value.value == 1
             or isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add)
             and isinstance(s.value.left, ast.Name) and s.value.left.id == i and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1]
    if len(steps) != 1:
        return None
    k = w.body.index(steps[0])
    for s in w.body[:k] + w.body[k + 1:]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, (ast.Store, ast.Del)):
                return None
    if any(isinstance(x, ast.Name) and x.id == i for s in w.body[k + 1:] for x in ast.walk(s)):
        return None
    if any(continues(s) for s in w.body[:k]):
        return None
    f = ast.For(ast.copy_location(ast.Name(i, ast.Store()), t.left), ast.Call(ast.Name("range", ast.Load()), [t.comparators[0]], []), w.body[:k] + w.body[k + 1:] or [ast.Pass()], [])
    ast.copy_location(f, w)
    f.iter = ast.copy_location(f.iter, t)
    f.iter.func = ast.copy_location(f.iter.func, t)
    for s in f.body:
        if isinstance(s, ast.Pass):
            ast.copy_location(s, w)
    return f


def continues(s):
    """the statement may go on with the next round of the loop it is in"""
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
        return any(continues(x) for x in s.orelse)
    return any(continues(x) for x in ast.iter_child_nodes(s) if isinstance(x, (ast.stmt, ast.ExceptHandler, ast.match_case)))


def count_loops(f):
    for x in reversed(list(ast.walk(f))):
        for nm in ("body", "orelse", "finalbody"):
            b = getattr(x, nm, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.While):
                        r = counted(s, b[:j])
                        i = s.test.left.id if r is not None else None
                        # only the loop itself uses the counter
                        if r is not None and sum(isinstance(y, ast.Name) and y.id == i and isinstance(y.ctx, ast.Load) for y in ast.walk(f)) == sum(isinstance(y, ast.Name) and y.id == i and isinstance(y.ctx, ast.Load) for y in ast.walk(s)):
                            b[j] = r


class Displays(ast.NodeTransformer):
    """dict(a=x) as {"a": x}"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords and all(k.arg for k in n.keywords):
            return ast.copy_location(ast.Dict([ast.copy_location(ast.Constant(k.arg), k.value) for k in n.keywords], [k.value for k in n.keywords]), n)
        return n


def desugar(tree):
    if not any(isinstance(x, ast.Name) and x.id == "dict" and not isinstance(x.ctx, ast.Load) for x in ast.walk(tree)):
        tree = Displays().visit(tree)
    for f in [x for x in ast.walk(tree) if isinstance(x, FUNCS)]:
        inline_awaited(f)
        count_loops(f)
        v = Loops(f)
        f.body = [v.visit(s) for s in f.body]
    return tree
