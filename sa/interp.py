"""Path-sensitive abstract interpretation of the project's Python code.

The interpreter follows every abstract path through an entry point, inlining
project functions, joining loops to a fixpoint over a representative element,
and records for each path the facts (finite domains, order relations, truth of
opaque conditions) and the events (calls, stores, suspensions, ...).  Nothing is
executed and no solver is involved: contradictory branches are pruned only by the
finite fact store in values.Facts.
"""
import ast
import sys

from .program import Broken, Class, Func, dotted
from .state import Body, Ev, Obj, Out, State, events, walk_events
from .query import subterms
from .types import Types
from .values import (
    FALSE, NONE, TRUE, Facts, V, boolv, const, cval, enum, is_const, mkstr, show, truth_const,
)
from .calls import CallsMixin
from .loops import LoopsMixin

sys.setrecursionlimit(20000)


class Ctx:
    __slots__ = ("func", "module", "fid", "chain", "cls", "selfv", "wbody")

    def __init__(self, func, module, fid, chain, cls=None, selfv=None, wbody=None):
        self.func = func
        self.module = module
        self.fid = fid
        self.chain = chain
        self.cls = cls
        self.selfv = selfv
        self.wbody = wbody


OPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}


class Interp(CallsMixin, LoopsMixin):
    MAXDEPTH = 24
    MAXSTATES = 20000

    def __init__(self, prog, types=None, opaque=None, raises=None, hints=None,
                 volatile=None, rely=None, wanted_attr_opaque=None, on_event=None, results=None):
        self.prog = prog
        self.types = types or Types(prog)
        self.opaque = opaque or (lambda f, recv: False)
        self.raises_policy = raises
        self.hints = hints or {}
        self.volatile = volatile
        self.rely = rely
        self.on_event = on_event
        self.results = results
        self.shield = None  # what asyncio.shield makes of its argument
        self.unroll = 0  # iterations of while loops followed one by one
        self.asks = None  # fn(I, st, base, name) -> value of a query without effect
        self.environ = None
        self.recursion = 2  # how often a function may be entered before it has returned
        self.run_tasks = False  # waiting for a task runs its coroutine
        self.park = None    # fn(I, st, task) -> the path ends here, where a task is waited for
        self.awaits = None  # fn(I, st, value) -> [(effect(st) or None, exception or None)] for awaiting a stored value
        self.closed = ()      # instances whose attributes are all known
        self.sink = []
        self.ctx = None
        self.stack = []
        self.nstates = 0
        self.inlined = set()
        self.sites = set()
        self.enum_tab = {}
        self.term_types = {}
        for c in prog.classes.values():
            if c.is_enum():
                self.enum_tab[c.qual] = frozenset(
                    enum(c.qual, k, v) for k, v in c.enum_members().items()
                )

    # ------------------------------------------------------------------
    # entry points
    # ------------------------------------------------------------------
    def new_state(self):
        return State()

    def run_function(self, func, args, st=None, selfv=None, kwargs=None, awaited=True):
        """Abstractly run a project function; returns list of Out (ret/raise)."""
        st = st or self.new_state()
        save, self.sink = self.sink, []
        try:
            res = self.inline(func, selfv, list(args), dict(kwargs or {}), st, func.node,
                              force=True)
            outs = [Out("ret", s, v) for s, v in res] + self.sink
        finally:
            self.sink = save
        return outs

    def run_value(self, fv, args, st, kwargs=None, awaited=True):
        """Call an abstract function value and (by default) await the result."""
        save, self.sink = self.sink, []
        try:
            outs = []
            for s, v in self.call(fv, list(args), dict(kwargs or {}), None, st, awaited=awaited):
                for s2, v2 in self.do_await(v, s, None) if awaited else [(s, v)]:
                    outs.append(Out("ret", s2, v2))
            outs += self.sink
        finally:
            self.sink = save
        return outs

    def run_module(self, mod, st=None):
        """Interpret a module body (handler registrations etc.)."""
        st = st or self.new_state()
        fid = st.fresh()
        st.frames = dict(st.frames)
        st.frames[fid] = {}
        save = self.ctx, self.sink
        self.ctx = Ctx(None, mod, fid, (fid,))
        self.sink = []
        try:
            outs = self.exec_block(mod.tree.body, st)
            return outs + self.sink, fid
        finally:
            self.ctx, self.sink = save

    def run_classes(self, mod, st=None):
        """Interpret the class definitions of a module: containers held by classes, and class decorators."""
        st = st or self.new_state()
        fid = st.fresh()
        st.frames = dict(st.frames)
        st.frames[fid] = {}
        save = self.ctx, self.sink
        self.ctx = Ctx(None, mod, fid, (fid,))
        self.sink = []
        try:
            cur = [st]
            for n in mod.tree.body:
                if not isinstance(n, ast.ClassDef):
                    continue
                me = V("cls", f"{mod.name}.{n.name}")
                for b in n.body:
                    if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(
                            b.value, (ast.Dict, ast.List, ast.Set, ast.Call, ast.DictComp)):
                        nxt = []
                        for s in cur:
                            for s2, v in self.ev(b.value, s):
                                s2 = s2.fork()
                                s2.store = {**s2.store, (me, b.targets[0].id): v}
                                nxt.append(s2)
                        cur = nxt
                for d in reversed(n.decorator_list):
                    nxt = []
                    for s in cur:
                        for s2, f in self.ev(d, s):
                            nxt += [s3 for s3, _ in self.call(f, [me], {}, d, s2)]
                    cur = nxt
            return cur
        finally:
            self.ctx, self.sink = save

    # ------------------------------------------------------------------
    # events and facts
    # ------------------------------------------------------------------
    def emit(self, st, kind, node, **a):
        ev = Ev(kind, node, self.ctx.func if self.ctx else None, st.facts, st.heap, st.store,
                tuple(self.stack), **a)
        st.emit(ev)
        if self.on_event:
            self.on_event(st, ev)
        return ev

    def enums(self, b):
        return self.enum_tab.get(b.a[0])

    def assume(self, st, t, val):
        f = st.facts.assume(t, val, self.enums)
        if f is None:
            return None
        if f is st.facts:
            return st
        return st.with_facts(f)

    def tick(self, n=1):
        self.nstates += n
        if self.nstates > 3000000:
            raise Broken("analysis budget exhausted (too many abstract states)")

    # ------------------------------------------------------------------
    # classes of values
    # ------------------------------------------------------------------
    def classes_of(self, v, st, depth=0):
        """candidate project classes of a value (set of Class); empty=unknown"""
        if depth > 8 or not isinstance(v, V):
            return set()
        o = st.obj(v)
        if o is not None:
            if o.kind == "inst" and o.cls in self.prog.classes:
                return {self.prog.classes[o.cls]}
            return set()
        t = st.facts.typ.get(v)
        if t is not None:
            return {self.prog.classes[t]} if t in self.prog.classes else set()
        if v in self.term_types:
            return {self.prog.classes[self.term_types[v]]}
        out = self._types_of(v, st, 0, depth)
        neg = {k[2] for k in st.facts.typ if isinstance(k, tuple) and k[0] == "not" and k[1] is v}
        if neg:
            out = {c for c in out if not any(c.is_subclass(n) for n in neg)}
        return out

    def _types_of(self, v, st, edepth, depth):
        """classes of (edepth-fold element of) v"""
        if depth > 8 or not isinstance(v, V):
            return set()
        P = self.prog.classes
        if edepth == 0:
            t = st.facts.typ.get(v)
            if t is not None:
                return {P[t]} if t in P else set()
            if v in self.term_types:
                return {P[self.term_types[v]]}
        k = v.k
        if k == "attr":
            out = set()
            for c in self._types_of(v.a[0], st, 0, depth + 1) | (
                self.classes_of(v.a[0], st, depth + 1)
            ):
                h = None
                for b in c.mro():
                    h = h or self.hints.get((b.name, v.a[1], edepth))
                if h:
                    out.add(P[h])
                    continue
                for q in self.types.attr_elem_types(c, v.a[1], edepth):
                    if q in P:
                        out.add(P[q])
            return out
        if k == "elem":
            return self._types_of(v.a[0], st, edepth + 1, depth + 1)
        if k == "item":
            h = None
            if v.a[1].k == "const":
                h = self.hints.get(("item", v.a[1].a[0]))
            if h and edepth == 0:
                return {P[h]}
            return self._types_of(v.a[0], st, edepth + 1, depth + 1)
        if k in ("values",):
            return self._types_of(v.a[0], st, edepth, depth + 1)
        if k == "await":
            return self._types_of(v.a[0], st, edepth, depth + 1)
        if k == "call":
            out = set()
            c = v.a[0]
            if c.k == "cls" and edepth == 0:
                return {P[c.a[0]]} if c.a[0] in P else set()
            qs = []
            if c.k == "func":
                qs = [c.a[0]]
            elif c.k == "bound":
                qs = [c.a[1]]
            for q in qs:
                n = ("r", q)
                f = self.prog.funcs.get(q)
                h = self.hints.get(("ret", f.name, edepth)) if f else None
                if h:
                    return {P[h]}
                for _ in range(edepth):
                    n = ("e", n)
                for x in self.types.sol.get(n, ()):
                    if x in P:
                        out.add(P[x])
            return out
        if k == "ref" and edepth:
            return set()
        return set()

    def the_class(self, v, st, member=None):
        cs = self.classes_of(v, st)
        if not cs:
            return None
        if len(cs) > 1 and member is not None:
            cs2 = {
                c for c in cs
                if c.find_method(member) or c.find_assign(member)
                or ("a", self.types.top(c), member) in self.types.sol
                or self._assigns_field(c, member)
            }
            cs = cs2 or cs
        # prefer the most general when one is an ancestor of the others
        for c in cs:
            if all(o.is_subclass(c.qual) for o in cs):
                return c
        return None if len(cs) > 1 else next(iter(cs))

    def _assigns_field(self, c, name):
        tab = getattr(c, "_fields", None)
        if tab is None:
            tab = set()
            for b in c.mro():
                for m in b.methods.values():
                    ps = m.params()
                    if not ps:
                        continue
                    for n in ast.walk(m.node):
                        if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                                and isinstance(n.value, ast.Name) and n.value.id == ps[0]):
                            tab.add(n.attr)
            c._fields = tab
        return name in tab

    def is_exact(self, v, st):
        o = st.obj(v)
        return o is not None and o.kind == "inst"

    # ------------------------------------------------------------------
    # conditions
    # ------------------------------------------------------------------
    def ev_cond(self, n, st):
        """-> list of (state, bool)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            res = []
            cur = [st]
            for x in n.values:
                nxt = []
                for s in cur:
                    for s2, b in self.ev_cond(x, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            res.append((s2, b))
                cur = nxt
            return res + [(s, isand) for s in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.ev_cond(n.operand, st)]
        out = []
        for s, v in self.ev(n, st):
            out.extend(self.branch(s, v))
        return out

    def branch(self, st, v):
        """decide/fork on the truthiness of a value"""
        b = self.truth(st, v)
        if b is not None:
            return [(st, b)]
        self.tick()
        out = []
        for val in (True, False):
            s = self.assume_truth(st, v, val)
            if s is not None:
                out.append((s, val))
        return out

    def truth(self, st, v):
        o = st.obj(v)
        if o is not None:
            return self.obj_truth(st, v, o)
        if v.k == "all":
            return None
        return st.facts.truth(v)

    def obj_truth(self, st, v, o):
        if o.kind == "list":
            if any(s[0] == "one" for s in o.segs):
                return True
            if not o.segs:
                return False
            return st.facts.tr.get(V("nonempty", v, self._objkey(o)))
        if o.kind == "dict":
            live = False
            unknown = False
            for l in o.layers:
                if l[0] == "kv":
                    live = True
                elif l[0] != "del":
                    unknown = True
            if live:
                return True
            if not unknown:
                return False
            return st.facts.tr.get(V("nonempty", v, self._objkey(o)))
        if o.kind == "inst":
            c = self.prog.classes.get(o.cls)
            if c is not None and (c.find_method("__bool__") or c.find_method("__len__")):
                return None
            return True
        return True

    def _objkey(self, o):
        if o.kind == "list":
            return V("k", *[V("seg", s[0], len(s[1]) if s[0] == "rep" else 0,
                              s[1] if s[0] in ("one", "sym") else 0) for s in o.segs])
        return V("k", *[V("lay", l[0]) for l in o.layers])

    def assume_truth(self, st, v, val):
        o = st.obj(v)
        if o is not None:
            if o.kind in ("list", "dict"):
                k = V("nonempty", v, self._objkey(o))
                f = st.facts.copy()
                f.tr[k] = val
                s = st.with_facts(f)
                if not val and o.kind == "list":
                    s.setobj(v, o.replace(segs=()))
                # a set/list that is just the copy of one symbolic iterable
                return s
            return st
        if v.k == "all":
            # all(<entries>): true => every entry's condition holds of the
            # representative element; false => nothing known
            if val:
                s = st
                for cond, pol in v.a[0]:
                    s = self.assume(s, cond, pol)
                    if s is None:
                        return None
                f = s.facts.copy()
                f.tr[v] = True
                for cond, _ in v.a[0]:
                    if any(x.k == "opaque_entry" for x in subterms(cond)):
                        continue
                    for x in subterms(cond):
                        if x.k == "elem":
                            f.tr[V("every", x)] = True
                return s.with_facts(f)
            f = st.facts.copy()
            f.tr[v] = False
            return st.with_facts(f)
        if v.k == "not":
            return self.assume_truth(st, v.a[0], not val)
        if v.k == "isinstance":
            return self._assume_isinstance(st, v, val)
        return self.assume(st, v, val)

    def _assume_isinstance(self, st, v, val):
        f = st.facts.assume(v, val, self.enums)
        if f is None:
            return None
        t, cls = v.a
        if isinstance(cls, V) and cls.k == "cls":
            f = f.copy() if f is st.facts else f
            if val:
                f.typ[t] = cls.a[0]
                f.ne[t] = f.ne.get(t, frozenset()) | {NONE}
            else:
                f.typ[("not", t, cls.a[0])] = cls.a[0]
        return st.with_facts(f)

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev_list(self, nodes, st):
        """evaluate nodes left to right -> list of (state, [values])"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        nxt.append((s2, vs + [V("star", v)]))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev(self, n, st):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Broken(f"unsupported expression {type(n).__name__} at line {getattr(n, 'lineno', '?')}")
        return m(n, st)

    def ev_Constant(self, n, st):
        return [(st, const(n.value))]

    def ev_Name(self, n, st):
        return [(st, self.lookup(n.id, st))]

    def lookup(self, name, st):
        for fid in reversed(self.ctx.chain):
            fr = st.frames.get(fid)
            if fr is not None and name in fr:
                return fr[name]
        return self.global_value(self.ctx.module, name, st)

    def global_value(self, module, name, st):
        r = self.prog.resolve_name(module, name)
        return self.resolved_value(r, name, st)

    def resolved_value(self, r, name, st):
        if r is None:
            import builtins
            if hasattr(builtins, name):
                return V("builtin", name)
            return V("glob", self.ctx.module.name if self.ctx else "?", name)
        if r[0] == "class":
            return V("cls", r[1])
        if r[0] == "func":
            return V("func", r[1])
        if r[0] == "mod":
            return V("mod", r[1])
        if r[0] == "ext":
            import builtins
            nm = r[1].split(".")
            if nm[0] == "builtins" and len(nm) == 2:
                return V("builtin", nm[1])
            return V("ext", r[1])
        # project global
        m = self.prog.modules[r[1]]
        node = m.globals.get(r[2])
        if node is not None and self._simple_global(m, r[2]):
            v = self._eval_static(node, m, st)
            if v is not None:
                return v
        return V("glob", r[1], r[2])

    def _simple_global(self, m, name):
        tab = getattr(m, "_simple", None)
        if tab is None:
            cnt = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    for x in n.names:
                        cnt[x] = 99
            for n in m.tree.body:
                for x in ast.walk(n) if not isinstance(
                        n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        cnt[x.id] = cnt.get(x.id, 0) + 1
            tab = m._simple = cnt
        return tab.get(name) == 1

    LITERAL = (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict, ast.BinOp, ast.UnaryOp,
               ast.JoinedStr, ast.FormattedValue, ast.Name, ast.Attribute, ast.Call, ast.expr_context,
               ast.operator, ast.unaryop, ast.Lambda, ast.arguments, ast.arg, ast.Compare, ast.cmpop,
               ast.Subscript, ast.keyword, ast.Starred)

    def _eval_static(self, node, module, st):
        """evaluate a literal-ish expression in module scope (pure)"""
        for x in ast.walk(node):
            if not isinstance(x, self.LITERAL):
                return None
            if isinstance(x, ast.Call) and dotted(x.func) not in (
                    "frozenset", "set", "tuple", "list", "dict", "range", "str", "int", "float"):
                return None
        save = self.ctx
        self.ctx = Ctx(None, module, None, ())
        try:
            r = self.ev(node, st)
        finally:
            self.ctx = save
        if len(r) == 1:
            s, v = r[0]
            if s is not st:
                st.heap, st.n = s.heap, s.n
            return v
        return None

    def ev_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            out.extend(self.getattr(b, n.attr, s, n))
        return out

    def unset(self, o, name):
        """whether the instance has no such attribute until one of its methods sets it"""
        c = self.prog.classes.get(o.cls)
        if c is None or name in o.attrs or c.find_method(name) is not None or any(name in b.assigns for b in c.mro()):
            return False
        return any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"
                   for b in c.mro() for f in b.methods.values() for x in ast.walk(f.node))

    def ver(self, base, name, st):
        if self.volatile is not None and self.volatile(self, base, name, st):
            return st.epoch
        return 0

    def getattr(self, b, name, st, node=None):
        """-> list of (state, value)"""
        k = b.k
        if k == "ref" and (b, name) in st.store and st.obj(b).kind == "dict":
            return [(st, st.store[(b, name)])]
        if k == "mod":
            m = self.prog.modules[b.a[0]]
            r = self.prog.resolve_name(m, name)
            if r is None and f"{b.a[0]}.{name}" in self.prog.modules:
                r = ("mod", f"{b.a[0]}.{name}")
            return [(st, self.resolved_value(r or ("ext", f"{b.a[0]}.{name}"), name, st))]
        if k == "ext":
            return [(st, V("ext", f"{b.a[0]}.{name}"))]
        if k == "super":
            selfv, cls = b.a
            c = self.prog.classes[cls]
            start = self.the_class(selfv, st) or c
            mro = start.mro()
            idx = mro.index(c) + 1 if c in mro else 1
            for x in mro[idx:]:
                if name in x.methods:
                    return [(st, V("bound", selfv, x.methods[name].qual))]
            return [(st, V("attr", b, name, 0))]
        if k == "cls":
            c = self.prog.classes[b.a[0]]
            if c.is_enum():
                mem = c.enum_members()
                if name in mem:
                    return [(st, enum(c.qual, name, mem[name]))]
            f = c.find_method(name)
            if f is not None:
                if f.kind == "class":
                    return [(st, V("bound", b, f.qual))]
                return [(st, V("func", f.qual))]
            for x in c.mro():
                if (V("cls", x.qual), name) in st.store:
                    return [(st, st.store[(V("cls", x.qual), name)])]
            a = c.find_assign(name)
            if a is not None:
                v = self._eval_static(a[1], a[0].module, st)
                if v is not None:
                    return [(st, v)]
            return [(st, V("attr", b, name, 0))]
        if k == "enum":
            if name == "name":
                return [(st, const(b.a[1]))]
            if name == "value":
                return [(st, const(b.a[2]))]
            c = self.prog.classes[b.a[0]]
            f = c.find_method(name)
            if f is not None:
                return [(st, V("bound", b, f.qual))]
        o = st.obj(b)
        if o is not None:
            if o.kind == "inst":
                if name in o.attrs:
                    return [(st, o.attrs[name])]
                c = self.prog.classes.get(o.cls)
                if c is not None:
                    f = c.find_method(name)
                    if f is not None:
                        if f.kind == "property":
                            return self.inline(f, b, [], {}, st, node)
                        if f.kind == "static":
                            return [(st, V("func", f.qual))]
                        if f.kind == "class":
                            return [(st, V("bound", V("cls", c.qual), f.qual))]
                        return [(st, V("bound", b, f.qual))]
                    for x in c.mro():
                        if (V("cls", x.qual), name) in st.store:
                            return [(st, st.store[(V("cls", x.qual), name)])]
                    a = c.find_assign(name)
                    if a is not None and isinstance(a[1], (ast.Constant, ast.Tuple, ast.Dict, ast.List, ast.Set, ast.UnaryOp)):
                        v = self._eval_static(a[1], a[0].module, st)
                        if v is not None:
                            return [(st, v)]
                    if c.find_method("__getattr__") and self._is_mapping(c):
                        m = o.attrs.get("_mapping")
                        if m is not None:
                            return self.getitem(m, const(name), st, node)
                if b in self.closed and self.unset(o, name):
                    return self.do_raise(st, "AttributeError", node)
                return [(st, V("attr", b, name, self.ver(b, name, st)))]
            if o.kind in ("closure", "partial") and name in ("__name__", "__doc__"):
                return [(st, V("attr", b, name, 0))]
            return [(st, V("bm", b, name))]
        if k in ("func", "bound") and name.startswith("__"):
            return [(st, V("attr", b, name, 0))]
        if k == "const" or k == "str" or k == "tuple":
            return [(st, V("bm", b, name))]
        # symbolic object
        key = (b, name)
        if key in st.store:
            return [(st, st.store[key])]
        c = self.the_class(b, st, name)
        if c is not None:
            f = c.find_method(name)
            if f is not None:
                if f.kind == "property":
                    if self.opaque(f, c):
                        return [(st, V("attr", b, name, self.ver(b, name, st)))]
                    return self.inline(f, b, [], {}, st, node)
                if f.kind == "static":
                    return [(st, V("func", f.qual))]
                if f.kind == "class":
                    return [(st, V("bound", V("cls", c.qual), f.qual))]
                return [(st, V("bound", b, f.qual))]
            if c.find_method("__getattr__") and self._is_mapping(c) and name not in (
                    "get", "items", "keys", "values"):
                return self.getitem(b, const(name), st, node)
            a = c.find_assign(name)
            if (
                a is not None
                and isinstance(a[1], (ast.Constant, ast.Tuple, ast.Dict, ast.List, ast.Set))
                and not any(name in s.assigns for s in c.subclasses())
                and not self._assigns_field(c, name)
            ):
                v = self._eval_static(a[1], a[0].module, st)
                if v is not None:
                    return [(st, v)]
        d = st.facts.dom.get(b)
        if d is not None and name in ("name", "value") and all(x.k == "enum" for x in d):
            return [(st, V("attr", b, name, 0))]
        return [(st, V("attr", b, name, self.ver(b, name, st)))]

    def _is_mapping(self, c):
        return any(b.split(".")[-1] in ("Mapping", "dict", "MutableMapping") for b in c.ext_bases())

    def ev_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                for s2, vs in self.ev_list([p or ast.Constant(value=None) for p in parts], s):
                    out.extend(self.slice(b, vs, s2, n))
            else:
                for s2, i in self.ev(n.slice, s):
                    out.extend(self.getitem(b, i, s2, n))
        return out

    def ev_Slice(self, n, st):
        return [(s, V("slice", *vs)) for s, vs in self.ev_list(
            [p or ast.Constant(value=None) for p in (n.lower, n.upper, n.step)], st)]

    def ev_Index(self, n, st):
        return self.ev(n.value, st)

    def slice(self, b, vs, st, node):
        o = st.obj(b)
        if o is not None and o.kind == "list":
            if all(x is NONE for x in vs):
                return [(st, st.alloc(o))]
            if all(s[0] == "one" for s in o.segs) and all(is_const(x) for x in vs):
                items = list(o.segs)[slice(*[cval(x) for x in vs])]
                s = st.fork()
                return [(s, s.alloc(o.replace(segs=tuple(items))))]
            s = st.fork()
            segs = tuple(("part", sg, V("tuple", *vs)) if sg[0] != "part" else sg for sg in o.segs)
            return [(s, s.alloc(o.replace(segs=segs)))]
        if b.k == "const" and isinstance(b.a[0], (str, bytes)) and all(is_const(x) for x in vs):
            return [(st, const(b.a[0][slice(*[cval(x) for x in vs])]))]
        if b.k == "tuple" and all(is_const(x) for x in vs):
            return [(st, V("tuple", *b.a[slice(*[cval(x) for x in vs])]))]
        return [(st, V("slice_of", b, *vs))]

    def getitem(self, b, i, st, node=None, default=None, missing=None):
        """b[i] -> list of (state, value); `missing` is the value used by .get"""
        if self.environ is not None and b is V("ext", "os.environ") and i.k == "const":
            x = self.environ.get(i.a[0])
            if x is None and default is None and missing is None:
                self.do_raise(st.fork(), "KeyError", node)
                return []
            return [(st, const(x) if x is not None else missing if missing is not None else default)]
        o = st.obj(b)
        if o is not None:
            if o.kind == "inst":
                c = self.prog.classes.get(o.cls)
                f = c.find_method("__getitem__") if c else None
                if f is not None:
                    return self.inline(f, b, [i], {}, st, node)
                if (b, i) in st.store:
                    return [(st, st.store[(b, i)])]
                return [(st, V("item", b, i))]
            if o.kind == "dict":
                return self.dict_get(b, o, i, st, node, missing)
            if o.kind == "list":
                if is_const(i) and isinstance(cval(i), int):
                    segs = o.segs
                    if all(s[0] == "one" for s in segs):
                        try:
                            return [(st, segs[cval(i)][1])]
                        except IndexError:
                            return self.do_raise(st, "IndexError", node)
                    if cval(i) >= 0 and all(s[0] == "one" for s in segs[: cval(i) + 1]):
                        return [(st, segs[cval(i)][1])]
                    if cval(i) == -1 and segs and segs[-1][0] == "one":
                        return [(st, segs[-1][1])]
                return [(st, V("item", b, i))]
        if b.k == "tuple" and is_const(i) and isinstance(cval(i), int):
            try:
                return [(st, b.a[cval(i)])]
            except IndexError:
                return self.do_raise(st, "IndexError", node)
        if b.k == "const" and is_const(i) and isinstance(b.a[0], (str, bytes)) and isinstance(cval(i), int):
            try:
                return [(st, const(b.a[0][cval(i)]))]
            except IndexError:
                return self.do_raise(st, "IndexError", node)
        if b.k == "cls":
            c = self.prog.classes[b.a[0]]
            if c.is_enum() and i.k == "const" and i.a[0] in c.enum_members():
                return [(st, enum(c.qual, i.a[0], c.enum_members()[i.a[0]]))]
            return [(st, V("item", b, i))]
        if (b, i) in st.store:
            return [(st, st.store[(b, i)])]
        c = self.the_class(b, st, "__getitem__")
        if c is not None:
            f = c.find_method("__getitem__")
            if f is not None and not self._is_mapping(c):
                return self.inline(f, b, [i], {}, st, node)
        return [(st, V("item", b, i))]

    def dict_get(self, b, o, i, st, node, missing=None):
        for l in reversed(o.layers):
            if l[0] == "kv":
                if l[1] is i:
                    return [(st, l[2])]
                if is_const(l[1]) and is_const(i):
                    continue
                eq = st.facts.cmp("==", l[1], i)
                if eq is True:
                    return [(st, l[2])]
                if eq is False:
                    continue
                # fork on key equality
                out = []
                s = self.assume(st, V("cmp", "==", l[1], i), True)
                if s is not None:
                    out.append((s, l[2]))
                s = self.assume(st, V("cmp", "==", l[1], i), False)
                if s is not None:
                    rest = o.replace(layers=o.layers[: o.layers.index(l)])
                    out.extend(self.dict_get(b, rest, i, s, node, missing))
                return out
            if l[0] == "del":
                if l[1] is i:
                    if missing is not None:
                        return [(st, missing)]
                    return self.do_raise(st, "KeyError", node)
                continue
            if l[0] == "src":
                return self.getitem(l[1], i, st, node, missing=missing) if missing is None else \
                    self.sym_get(l[1], i, missing, st)
            if l[0] == "rep":
                return [(st, V("item", b, i))]
        if o.d.get("default"):
            s = st.fork()
            v = s.alloc(o.default)
            oo = s.obj(b) or o
            s.setobj(b, oo.replace(layers=oo.layers + (("kv", i, v),)))
            return [(s, v)]
        if missing is not None:
            return [(st, missing)]
        if all(l[0] == "kv" for l in o.layers) and is_const(i) and all(is_const(l[1]) for l in o.layers):
            return self.do_raise(st, "KeyError", node)
        return [(st, V("item", b, i))]

    def sym_get(self, m, k, default, st):
        """m.get(k, default) on a symbolic mapping"""
        if (m, k) in st.store:
            return [(st, st.store[(m, k)])]
        o = st.obj(m)
        if o is not None and o.kind == "dict":
            return self.dict_get(m, o, k, st, None, default)
        if o is not None and o.kind == "inst":
            c = self.prog.classes.get(o.cls)
            if c is not None and self._is_mapping(c) and "_mapping" in o.attrs:
                return self.sym_get(o.attrs["_mapping"], k, default, st)
        if default is NONE:
            return [(st, V("item", m, k))]
        out = []
        t = V("cmp", "in", k, m)
        s = self.assume(st, t, True)
        if s is not None:
            out.append((s, V("item", m, k)))
        s = self.assume(st, t, False)
        if s is not None:
            out.append((s, default))
        return out

    def ev_BinOp(self, n, st):
        out = []
        op = BIN[type(n.op)]
        for s, (a, b) in [(s, v) for s, v in self.ev_list([n.left, n.right], st)]:
            out.extend(self.binop(op, a, b, s, n))
        return out

    def binop(self, op, a, b, st, node):
        oa, ob = st.obj(a), st.obj(b)
        if op == "%" and (a.k == "const" and isinstance(a.a[0], (str, bytes))):
            return [(st, self.pct_format(a.a[0], b, st))]
        if op == "+":
            if oa is not None and oa.kind == "list":
                s = st.fork()
                return [(s, s.alloc(Obj("list", lk=oa.lk, segs=oa.segs + self.segs_of(b, s))))]
            if ob is not None and ob.kind == "list":
                s = st.fork()
                return [(s, s.alloc(Obj("list", lk=ob.lk, segs=self.segs_of(a, s) + ob.segs)))]
            if a.k == "tuple" and b.k == "tuple":
                return [(st, V("tuple", *(a.a + b.a)))]
            strish = lambda x: x.k == "str" or (x.k == "const" and isinstance(x.a[0], (str, bytes)))
            if strish(a) or strish(b):
                return [(st, mkstr(a, b))]
        if op == "|" and oa is not None and oa.kind == "dict":
            s = st.fork()
            layers = oa.layers + (ob.layers if ob is not None and ob.kind == "dict" else (("src", b),))
            return [(s, s.alloc(oa.replace(layers=layers)))]
        if op in ("-", "|", "&", "^") and ((oa and oa.kind == "list") or (ob and ob.kind == "list")):
            return self.set_op(op, a, b, st, node)
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                     "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 64 else None,
                     "&": lambda: x & y, "|": lambda: x | y, "<<": lambda: x << y if y < 200 else None}[op]()
                if r is not None:
                    return [(st, const(r))]
            except Exception:
                pass
        if op == "*" and oa is not None and oa.kind == "list":
            s = st.fork()
            return [(s, s.alloc(oa.replace(segs=(("rep", tuple((x[1], None) for x in oa.segs if x[0] == "one")),))))]
        # linear arithmetic normal form for + and -
        if op == "-" or (op == "+" and (_numeric(a) or _numeric(b))):
            return [(st, linear(op, a, b))]
        if op in ("*",) and b.n < a.n:
            a, b = b, a
        return [(st, V("binop", op, a, b))]

    def pct_format(self, fmt, b, st):
        isb = isinstance(fmt, bytes)
        f = fmt.decode("latin1") if isb else fmt
        args = list(b.a) if b.k == "tuple" else [b]
        import re
        parts = []
        pos = 0
        i = 0
        for m in re.finditer(r"%(?:\((\w+)\))?[-#0 +]*\d*(?:\.\d+)?([sdrfxiX%])", f):
            parts.append(const(f[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                parts.append(const("%"))
                continue
            if m.group(1):
                parts.append(V("item", b, const(m.group(1))))
                continue
            if i < len(args):
                a = args[i]
                i += 1
                parts.append(a if m.group(2) in "sd" else const(repr(cval(a))) if m.group(2) == "r" and a.k == "const" else V("fmt", m.group(2), a))
            else:
                parts.append(V("item", b, const(i)))
        parts.append(const(f[pos:]))
        return mkstr(*parts)

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(s, boolv(b)) for s, b in self.ev_cond(n, st)]
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                if v.k == "const" and isinstance(v.a[0], (int, float)):
                    out.append((s, const(-v.a[0])))
                else:
                    out.append((s, linear("-", const(0), v)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, V("unary", type(n.op).__name__, v)))
        return out

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                if last:
                    res.extend(self.ev(x, s))
                    continue
                if isinstance(x, (ast.BoolOp, ast.UnaryOp)) and (
                        isinstance(x, ast.BoolOp) or isinstance(x.op, ast.Not)):
                    pass
                for s2, v in self.ev(x, s):
                    for s3, b in self.branch(s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            # the value itself is the result
                            res.append((s3, v if s3.obj(v) is not None or is_const(v) or not _boolish(v) else boolv(b)))
            cur = nxt
        return res

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            out = []
            for s, (a, b) in [(s, v) for s, v in self.ev_list([n.left, n.comparators[0]], st)]:
                out.append((s, self.compare(OPS[type(n.ops[0])], a, b, s)))
            return out
        # chained: a < b < c
        res = []
        cur = [(s, v) for s, v in self.ev(n.left, st)]
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for s, a in cur:
                for s2, b in self.ev(c, s):
                    t = self.compare(OPS[type(op)], a, b, s2)
                    for s3, bb in self.branch(s2, t):
                        if not bb:
                            res.append((s3, FALSE))
                        else:
                            nxt.append((s3, b))
            cur = nxt
        return res + [(s, TRUE) for s, _ in cur]

    def compare(self, op, a, b, st):
        neg = False
        if op in ("not in",):
            op, neg = "in", True
        if op == "in":
            t = self.contains(a, b, st)
        else:
            if a.k == "lin" or b.k == "lin":
                a, b, op = _canon_lin(a, b, op)
            r = self._cmp_objs(op, a, b, st)
            if r is None:
                r = st.facts.cmp(op, a, b)
            t = boolv(r) if r is not None else V("cmp", op, a, b)
        if neg:
            return FALSE if t is TRUE else TRUE if t is FALSE else V("not", t)
        return t

    def _cmp_objs(self, op, a, b, st):
        oa, ob = st.obj(a), st.obj(b)
        if op in ("is", "is not", "==", "!="):
            for x, y in ((a, b), (b, a)):
                if x.k == "cls" and x.a[0] in self.prog.classes and not self.prog.classes[x.a[0]].ext_bases() and y.k == "builtin" and y.a[0] in ("tuple", "list", "dict", "set", "str", "bytes", "int", "float", "bool"):
                    return op in ("is not", "!=")
        if op in ("is", "is not"):
            if (oa is not None and is_const(b)) or (ob is not None and is_const(a)):
                return op == "is not"
            if oa is not None and ob is not None:
                return (a is b) == (op == "is")
        if op in ("==", "!=") and ((oa is not None and b is NONE) or (ob is not None and a is NONE)):
            return op == "!="
        if a.k == "tuple" and b.k == "tuple" and op in ("==", "!="):
            if len(a.a) != len(b.a):
                return op == "!="
        if op in ("==", "!=") and oa is not None and ob is not None and oa.kind == ob.kind == "dict":
            if all(l[0] == "kv" and is_const(l[1]) for l in oa.layers + ob.layers):
                da, db = ({l[1]: l[2] for l in x.layers} for x in (oa, ob))
                if set(da) != set(db):
                    return op == "!="
                rs = [True if da[k] == db[k] else self._cmp_objs("==", da[k], db[k], st) if st.obj(da[k]) or st.obj(db[k]) else st.facts.cmp("==", da[k], db[k]) for k in da]
                if False in rs or all(r is True for r in rs):
                    return (False not in rs) == (op == "==")
        return None

    def contains(self, x, coll, st):
        """membership as a boolean value"""
        o = st.obj(coll)
        if coll.k == "tuple":
            items = list(coll.a)
        elif o is not None and o.kind == "list":
            if all(s[0] == "one" for s in o.segs):
                items = [s[1] for s in o.segs]
            elif len(o.segs) == 1 and o.segs[0][0] == "sym":
                return self.contains(x, o.segs[0][1], st)
            else:
                return self._in_term(x, V("k", *[self._segterm(s) for s in o.segs]), st)
        elif o is not None and o.kind == "dict":
            items = []
            for l in o.layers:
                if l[0] == "kv":
                    items.append(l[1])
                elif l[0] == "src" and len(o.layers) == 1:
                    return self.contains(x, l[1], st)
                else:
                    if any(l2[0] == "kv" and l2[1] is x for l2 in o.layers):
                        return TRUE
                    return self._in_term(x, coll, st)
        elif coll.k == "const" and x.k == "const" and isinstance(coll.a[0], str) and isinstance(x.a[0], str):
            return boolv(x.a[0] in coll.a[0])
        else:
            if coll.k == "keys":
                coll = coll.a[0]
            return self._in_term(x, coll, st)
        # finite collection
        d = st.facts.domain(x)
        if x.k == "enum" or (d is not None) or any(i.k == "enum" for i in items):
            t = V("inset", x, V("k", *items))
        if not items:
            return FALSE
        r = [st.facts.cmp("==", x, i) for i in items]
        if any(z is True for z in r):
            return TRUE
        if all(z is False for z in r):
            return FALSE
        return V("oneof", x, *items)

    def _segterm(self, s):
        if s[0] in ("one", "sym"):
            return V(s[0], s[1])
        if s[0] == "rep":
            return V("rep", *[e[0] for e in s[1]])
        return V("part", self._segterm(s[1]))

    def _in_term(self, x, coll, st):
        t = V("cmp", "in", x, coll)
        k = st.facts.tr.get(t)
        return t if k is None else boolv(k)

    def ev_IfExp(self, n, st):
        out = []
        for s, b in self.ev_cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def ev_JoinedStr(self, n, st):
        cur = [(st, [])]
        for p in n.values:
            nxt = []
            for s, vs in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, vs + [const(p.value)]))
                else:
                    for s2, v in self.ev(p.value, s):
                        spec = "".join(x.value for x in p.format_spec.values) if p.format_spec is not None and all(isinstance(x, ast.Constant) for x in p.format_spec.values) else None
                        if v.k == "const" and p.conversion in (-1, 114) and (p.format_spec is None) == (spec is None) and (spec or p.conversion == 114):
                            try:
                                v = const(format(repr(cval(v)) if p.conversion == 114 else cval(v), spec or ""))
                            except (ValueError, TypeError):
                                self.do_raise(s2, "ValueError", n)
                                continue
                        elif p.conversion == 114:
                            v = V("fmt", "r", v)
                        elif p.format_spec is not None:
                            v = V("fmt", ast.dump(p.format_spec), v)
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return [(s, self.strof(mkstr(*vs), s)) for s, vs in cur]

    def strof(self, v, st):
        return v

    def ev_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def ev_Tuple(self, n, st):
        out = []
        for s, vs in self.ev_list(n.elts, st):
            if any(v.k == "star" for v in vs):
                s = s.fork()
                segs = ()
                for v in vs:
                    segs += self.segs_of(v.a[0], s) if v.k == "star" else (("one", v),)
                if all(x[0] == "one" for x in segs):
                    out.append((s, V("tuple", *[x[1] for x in segs])))
                else:
                    out.append((s, s.alloc(Obj("list", lk="tuple", segs=segs))))
            else:
                out.append((s, V("tuple", *vs)))
        return out

    def _mklist(self, n, st, lk):
        out = []
        for s, vs in self.ev_list(n.elts, st):
            s = s.fork()
            segs = ()
            for v in vs:
                segs += self.segs_of(v.a[0], s) if v.k == "star" else (("one", v),)
            out.append((s, s.alloc(Obj("list", lk=lk, segs=segs))))
        return out

    def ev_List(self, n, st):
        return self._mklist(n, st, "list")

    def ev_Set(self, n, st):
        return self._mklist(n, st, "set")

    def ev_Dict(self, n, st):
        cur = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ls in cur:
                if k is None:
                    for s2, d in self.ev(v, s):
                        m = self.mapping_items(d, s2, n)
                        if m is not None:
                            nxt.append((m[0], ls + m[1]))
                            continue
                        nxt.append((s2, ls + self.layers_of(d, s2)))
                else:
                    for s2, (kv, vv) in self.ev_list([k, v], s):
                        nxt.append((s2, _addkv(ls, kv, vv)))
            cur = nxt
        out = []
        for s, ls in cur:
            s = s.fork()
            out.append((s, s.alloc(Obj("dict", layers=ls))))
        return out

    def layers_of(self, d, st):
        o = st.obj(d)
        if o is not None and o.kind == "dict":
            return o.layers
        if o is not None and o.kind == "inst" and "_mapping" in o.attrs:
            return self.layers_of(o.attrs["_mapping"], st)
        if d is NONE:
            return ()
        return (("src", d),)

    def ev_Lambda(self, n, st):
        s = st.fork()
        f = Func(f"{self.ctx.func.qual if self.ctx.func else self.ctx.module.name}.<lambda>:{n.lineno}",
                 "<lambda>", n, self.ctx.module, self.ctx.cls, self.ctx.func)
        return [(s, s.alloc(Obj("closure", func=f, chain=self.ctx.chain, selfv=self.ctx.selfv,
                                cls=self.ctx.cls)))]

    def ev_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            s = s.fork()
            s.setvar(self.ctx.fid, n.target.id, v)
            out.append((s, v))
        return out

    def ev_Await(self, n, st):
        out = []
        if isinstance(n.value, ast.Call):
            vals = self.ev_Call(n.value, st, awaited="await")
        else:
            vals = self.ev(n.value, st)
        for s, v in vals:
            out.extend(self.do_await(v, s, n))
        return out

    def ev_Starred(self, n, st):
        return [(s, V("star", v)) for s, v in self.ev(n.value, st)]

    def ev_Yield(self, n, st):
        vals = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            if self.ctx.wbody is not None:
                out.extend(self.ctx.wbody(v, s))
                continue
            s = s.fork()
            self.emit(s, "yield", n, value=v)
            y = s.frames[self.ctx.fid].get("__yield__")
            if y is not None:
                o = s.obj(y)
                s.setobj(y, o.replace(segs=o.segs + (("one", v),)))
            if self.ctx.func is not None and self.ctx.func.is_async and False:
                self.suspend(s, n)
            out.append((s, V("sent", s.fresh())))
        return out

    def ev_YieldFrom(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            s = s.fork()
            y = s.frames[self.ctx.fid].get("__yield__")
            if y is not None:
                o = s.obj(y)
                s.setobj(y, o.replace(segs=o.segs + self.segs_of(v, s)))
            out.append((s, NONE))
        return out

    def ev_ListComp(self, n, st):
        return self.comprehension(n, st, "list")

    def ev_SetComp(self, n, st):
        return self.comprehension(n, st, "set")

    def ev_GeneratorExp(self, n, st):
        return self.comprehension(n, st, "gen")

    def ev_DictComp(self, n, st):
        return self.comprehension(n, st, "dict")

    # ------------------------------------------------------------------
    # raising
    # ------------------------------------------------------------------
    def do_raise(self, st, excname, node, exact=True, value=None):
        s = st.fork()
        v = value or V("exc", excname, bool(exact), s.fresh())
        self.sink.append(Out("raise", s, v))
        return []

    def exc_name(self, v, st):
        """(type name, exact?) of an exception value"""
        o = st.obj(v)
        if o is not None and o.kind == "inst":
            return o.cls, True
        t = st.facts.typ.get(v)
        if v.k == "exc":
            return (t or v.a[0]), v.a[1] and t is None
        if v.k == "call" and v.a[0].k in ("ext", "builtin"):
            return v.a[0].a[0], True
        if v.k == "call" and v.a[0].k == "cls":
            return v.a[0].a[0], True
        if v.k in ("ext", "builtin", "cls"):
            return v.a[0], True
        return (t or "BaseException"), False

    def exc_ancestors(self, name):
        out = {name}
        if name in self.prog.classes:
            c = self.prog.classes[name]
            for b in c.mro():
                out.add(b.qual)
            for b in c.ext_bases():
                out |= self.exc_ancestors(b)
            return out
        short = name.split(".")[-1]
        out.add(short)
        import builtins
        if short == "CancelledError":
            return out | {"BaseException", "CancelledError"}
        if short == "TimeoutError":
            return out | {"TimeoutError", "OSError", "Exception", "BaseException"}
        b = getattr(builtins, short, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            for x in b.__mro__:
                out.add(x.__name__)
            return out
        if short.startswith("HTTP") and "aiohttp" in name:
            out |= {"HTTPException", "aiohttp.web.HTTPException", "Exception", "BaseException"}
            return out
        return out | {"Exception", "BaseException"}

    def exc_match(self, v, hname, st):
        """True / False / None(maybe)"""
        name, exact = self.exc_name(v, st)
        anc = self.exc_ancestors(name)
        short = lambda x: x.split(".")[-1]
        if hname in anc or (hname not in self.prog.classes and short(hname) in {short(a) for a in anc}):
            return True
        if exact:
            return False
        if any(k == ("not", v, hname) for k in st.facts.typ if isinstance(k, tuple)):
            return False
        hanc = self.exc_ancestors(hname)
        if name in hanc or short(name) in {short(a) for a in hanc}:
            return None
        return False

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, st):
        cur = [st]
        done = []
        for n in stmts:
            nxt = []
            for s in cur:
                for o in self.exec_stmt(n, s):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = self.dedupe(nxt)
            if len(cur) > self.MAXSTATES:
                raise Broken(f"too many paths at line {n.lineno}")
            if not cur:
                break
        return done + [Out("next", s) for s in cur]

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        return list(seen.values())

    def exec_stmt(self, n, st):
        self.tick()
        save, self.sink = self.sink, []
        try:
            outs = getattr(self, "st_" + type(n).__name__, self.st_unsupported)(n, st)
            return outs + self.sink
        finally:
            self.sink = save

    def st_unsupported(self, n, st):
        raise Broken(f"unsupported statement {type(n).__name__} at line {n.lineno}")

    def nexts(self, pairs):
        return [Out("next", s) for s, _ in pairs]

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [Out("next", st)]
        return self.nexts(self.ev(n.value, st))

    def st_Pass(self, n, st):
        return [Out("next", st)]

    st_Import = st_ImportFrom = st_Global = st_Pass

    def st_Import(self, n, st):
        if self.ctx.func is None:
            return [Out("next", st)]
        s = st.fork()
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            tgt = a.name if a.asname else a.name.split(".")[0]
            s.setvar(self.ctx.fid, nm, V("mod", tgt) if tgt in self.prog.modules else V("ext", tgt))
        return [Out("next", s)]

    def st_ImportFrom(self, n, st):
        if self.ctx.func is None:
            return [Out("next", st)]
        s = st.fork()
        m = self.ctx.module
        if n.level:
            base = m.name.split(".")
            drop = n.level - (1 if m.is_pkg else 0)
            base = base[: len(base) - drop] if drop else base
            mod = ".".join(base + ([n.module] if n.module else []))
        else:
            mod = n.module
        for a in n.names:
            r = None
            if mod in self.prog.modules:
                r = self.prog.resolve_name(self.prog.modules[mod], a.name)
            s.setvar(self.ctx.fid, a.asname or a.name,
                     self.resolved_value(r, a.name, s) if r else V("ext", f"{mod}.{a.name}"))
        return [Out("next", s)]

    def st_Nonlocal(self, n, st):
        return [Out("next", st)]

    def st_FunctionDef(self, n, st):
        f = self.prog.func_of_node.get(id(n))
        if f is None:
            f = Func(f"{self.ctx.func.qual if self.ctx.func else self.ctx.module.name}.{n.name}", n.name, n,
                     self.ctx.module, self.ctx.cls, self.ctx.func)
        if self.ctx.func is None and not n.decorator_list:
            s = st.fork()
            s.setvar(self.ctx.fid, n.name, V("func", f.qual) if f.qual in self.prog.funcs else NONE)
            return [Out("next", s)]
        s = st.fork()
        if self.ctx.func is None and f.qual in self.prog.funcs:
            v = V("func", f.qual)
        else:
            v = s.alloc(Obj("closure", func=f, chain=self.ctx.chain, selfv=self.ctx.selfv, cls=self.ctx.cls))
        outs = self.apply_decorators(n.decorator_list, v, s)
        res = []
        for s2, v2 in outs:
            s2 = s2.fork()
            s2.setvar(self.ctx.fid, n.name, v2)
            res.append(Out("next", s2))
        return res

    st_AsyncFunctionDef = st_FunctionDef

    def apply_decorators(self, decs, v, st):
        cur = [(st, v)]
        for d in reversed(decs):
            nxt = []
            for s, fv in cur:
                for s2, dv in self.ev(d, s):
                    nxt.extend(self.apply_decorator(dv, fv, s2, d))
            cur = nxt
        return cur

    def apply_decorator(self, dv, fv, st, node):
        o = st.obj(dv)
        if dv.k in ("func", "bound") or (o is not None and o.kind in ("closure", "partial")):
            return self.call(dv, [fv], {}, node, st)
        s = st.fork()
        self.emit(s, "decorate", node, decorator=dv, value=fv)
        return [(s, fv)]

    def st_ClassDef(self, n, st):
        return [Out("next", st)]

    def st_Return(self, n, st):
        if n.value is None:
            return [Out("ret", st, NONE)]
        return [Out("ret", s, v) for s, v in self.ev(n.value, st)]

    def st_Assign(self, n, st):
        outs = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            for t in n.targets:
                cur = [s2 for s1 in cur for s2 in self.assign(t, v, s1)]
            outs.extend(Out("next", s2) for s2 in cur)
        return outs

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return [Out("next", st)]
        outs = []
        for s, v in self.ev(n.value, st):
            outs.extend(Out("next", s2) for s2 in self.assign(n.target, v, s))
        return outs

    def st_AugAssign(self, n, st):
        op = BIN[type(n.op)]
        load = _as_load(n.target)
        outs = []
        for s, (a, b) in [(s, v) for s, v in self.ev_list([load, n.value], st)]:
            oa = s.obj(a)
            if op == "+" and oa is not None and oa.kind == "list":
                s = s.fork()
                s.setobj(a, oa.replace(segs=oa.segs + self.segs_of(b, s)))
                outs.append(Out("next", s))
                continue
            if oa is None and op in ("+", "|") and self._isrefcoll(b, s) and not is_const(a):
                s = s.fork()
                self.emit(s, "call", n, callee=V("attr", a, "extend" if op == "+" else "update", 0),
                          recv=a, name="extend" if op == "+" else "update", args=[b], kwargs={},
                          result=NONE, awaited=False)
                outs.append(Out("next", s))
                continue
            for s2, v in self.binop(op, a, b, s, n):
                outs.extend(Out("next", s3) for s3 in self.assign(n.target, v, s2, aug=op))
        return outs

    def _isrefcoll(self, b, st):
        o = st.obj(b)
        return o is not None and o.kind in ("list", "dict")

    def assign(self, t, v, st, aug=None):
        """-> list of states"""
        if isinstance(t, ast.Name):
            s = st.fork()
            fid = self.ctx.fid
            if self.ctx.func is not None and self._is_nonlocal(t.id):
                for f in reversed(self.ctx.chain[:-1]):
                    if t.id in s.frames.get(f, {}):
                        fid = f
                        break
            s.setvar(fid, t.id, v)
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.setattr(b, t.attr, v, s, t, aug))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (b, i) in [(s, x) for s, x in self.ev_list([t.value, t.slice], st)]:
                out.extend(self.setitem(b, i, v, s, t, aug))
            return out
        raise Broken(f"unsupported assignment target {type(t).__name__}")

    def _is_nonlocal(self, name):
        f = self.ctx.func
        tab = getattr(f, "_nonlocals", None)
        if tab is None:
            tab = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Nonlocal, ast.Global)):
                    tab.update(x.names)
            f._nonlocals = tab
        return name in tab

    def unpack(self, elts, v, st):
        o = st.obj(v)
        if any(isinstance(e, ast.Starred) for e in elts):
            vals = [V("item", v, const(i)) for i in range(len(elts))]
            if v.k == "tuple":
                k = [isinstance(e, ast.Starred) for e in elts].index(True)
                tail = len(elts) - k - 1
                s = st.fork()
                mid = s.alloc(Obj("list", lk="list", segs=tuple(("one", x) for x in v.a[k:len(v.a) - tail])))
                vals = list(v.a[:k]) + [mid] + (list(v.a[len(v.a) - tail:]) if tail else [])
                st = s
        elif v.k == "tuple":
            vals = list(v.a)
        elif o is not None and o.kind == "list" and all(x[0] == "one" for x in o.segs):
            vals = [x[1] for x in o.segs]
        else:
            vals = None
        if vals is not None and len(vals) != len(elts):
            return [x for x in self.do_raise(st, "ValueError", None)]
        if vals is None:
            vals = [V("item", v, const(i)) for i in range(len(elts))]
        cur = [st]
        for e, x in zip(elts, vals):
            cur = [s2 for s1 in cur for s2 in self.assign(e, x, s1)]
        return cur

    def setattr(self, b, name, v, st, node, aug=None, plain=False):
        s = st.fork()
        o = s.obj(b)
        c = self.the_class(b, s, name)
        if c is not None and not plain:
            f = c.find_method("__setattr__")
            if f is not None and not self.opaque(f, c):
                return [x for x, _ in self.inline(f, b, [const(name), v], {}, s, node)]
        if c is not None:
            f = c.find_method(name)
            if f is not None and f.kind == "property":
                for b2 in c.mro():
                    for g in self.prog.funcs.values():
                        if g.cls is b2 and g.kind == "setter" and g.name == name:
                            return [x for x, _ in self.inline(g, b, [v], {}, s, node)]
        prev = s.store.get((b, name))
        if prev is None:
            if o is not None and o.kind == "inst":
                prev = o.attrs.get(name)
            else:
                prev = V("attr", b, name, self.ver(b, name, s))
        self.emit(s, "store", node, obj=b, attr=name, value=v, prev=prev, cls=c.qual if c else None, aug=aug)
        if o is not None and o.kind == "inst":
            a = dict(o.attrs)
            a[name] = v
            s.setobj(b, o.replace(attrs=a))
        else:
            s.setstore((b, name), v)
        return [s]

    def setitem(self, b, i, v, st, node, aug=None):
        s = st.fork()
        o = s.obj(b)
        if o is not None and o.kind == "dict":
            s.setobj(b, o.replace(layers=_addkv(o.layers, i, v)))
            self.emit(s, "setitem", node, obj=b, key=i, value=v, local=True)
            return [s]
        if o is not None and o.kind == "list":
            self.emit(s, "setitem", node, obj=b, key=i, value=v, local=True)
            if is_const(i) and all(x[0] == "one" for x in o.segs) and isinstance(cval(i), int) and -len(o.segs) <= cval(i) < len(o.segs):
                segs = list(o.segs)
                segs[cval(i)] = ("one", v)
                s.setobj(b, o.replace(segs=tuple(segs)))
            return [s]
        self.emit(s, "setitem", node, obj=b, key=i, value=v, local=False, aug=aug)
        s.setstore((b, i), v)
        return [s]

    def st_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.fork()
                    s.delvar(self.ctx.fid, t.id)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, (b, i) in [(x, y) for x, y in self.ev_list([t.value, t.slice], s)]:
                        s2 = self.delitem(b, i, s2, n)
                        if s2 is not None:
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        s2 = s2.fork()
                        self.emit(s2, "delattr", n, obj=b, attr=t.attr)
                        s2.delstore((b, t.attr))
                        nxt.append(s2)
                else:
                    nxt.append(s)
            cur = nxt
        return [Out("next", s) for s in cur]

    def delitem(self, b, i, st, node):
        s = st.fork()
        o = s.obj(b)
        if o is not None and o.kind == "dict":
            if is_const(i) and all(l[0] == "kv" and is_const(l[1]) for l in o.layers):
                ls = tuple(l for l in o.layers if l[1] is not i)
                if len(ls) == len(o.layers):
                    self.do_raise(s, "KeyError", node)
                    return None
                s.setobj(b, o.replace(layers=ls))
            else:
                s.setobj(b, o.replace(layers=o.layers + (("del", i),)))
        self.emit(s, "delitem", node, obj=b, key=i)
        s.delstore((b, i))
        return s

    def st_If(self, n, st):
        outs = []
        for s, b in self.dedupe_cond(self.ev_cond(n.test, st)):
            blk = n.body if b else n.orelse
            if blk:
                outs.extend(self.exec_block(blk, s))
            else:
                outs.append(Out("next", s))
        return outs

    def dedupe_cond(self, pairs):
        if len(pairs) < 3:
            return pairs
        seen = {}
        for s, b in pairs:
            seen.setdefault((s.key(), b), (s, b))
        return list(seen.values())

    def st_Assert(self, n, st):
        outs = []
        for s, b in self.ev_cond(n.test, st):
            if b:
                outs.append(Out("next", s))
            else:
                self.do_raise(s, "AssertionError", n)
        return outs

    def st_Break(self, n, st):
        return [Out("break", st)]

    def st_Continue(self, n, st):
        return [Out("cont", st)]

    def st_Raise(self, n, st):
        if n.exc is None:
            for fid in reversed(self.ctx.chain):
                fr = st.frames.get(fid, {})
                if "__exc__" in fr:
                    return [Out("raise", st, fr["__exc__"])]
            return [Out("raise", st, V("exc", "RuntimeError", True, 0))]
        outs = []
        for s, v in self.ev(n.exc, st):
            if v.k in ("cls", "ext", "builtin"):
                for s2, v2 in self.call(v, [], {}, n, s):
                    outs.append(Out("raise", s2, v2))
            else:
                outs.append(Out("raise", s, v))
        for o in outs:
            o.st = o.st.fork()
            self.emit(o.st, "raise", n, exc=o.val)
        return outs

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for x in nodes:
            for s, v in self.ev(x, st)[:1]:
                if v.k in ("cls", "ext", "builtin"):
                    out.append(v.a[0])
                elif v.k == "tuple":
                    out.extend(y.a[0] for y in v.a if y.k in ("cls", "ext", "builtin"))
                else:
                    # exception class held in a variable (e.g. self.gsserror)
                    out.append("?" + show(v))
        return out

    def st_Try(self, n, st):
        body = self.exec_block(n.body, st)
        outs = []
        for o in body:
            if o.kind == "next":
                if n.orelse:
                    outs.extend(self.exec_block(n.orelse, o.st))
                else:
                    outs.append(o)
            elif o.kind == "raise":
                outs.extend(self.handle(n, o))
            else:
                outs.append(o)
        if not n.finalbody:
            return outs
        res = []
        for o in outs:
            for f in self.exec_block(n.finalbody, o.st):
                if f.kind == "next":
                    res.append(Out(o.kind, f.st, o.val))
                else:
                    res.append(f)
        return res

    st_TryStar = st_Try

    def handle(self, n, o):
        outs = []
        pending = [o.st]
        if o.val.k == "unwind":
            return [o]
        for h in n.handlers:
            nxt = []
            for s in pending:
                names = self.handler_names(h, s)
                ms = [self.exc_match(o.val, nm, s) for nm in names]
                if any(m is True for m in ms):
                    outs.extend(self.run_handler(h, o.val, s))
                    continue
                rest = s
                for nm, m in zip(names, ms):
                    if m is None:
                        s2 = rest.fork()
                        s2.facts = s2.facts.copy()
                        s2.facts.typ[o.val] = nm
                        outs.extend(self.run_handler(h, o.val, s2))
                        rest = rest.fork()
                        rest.facts = rest.facts.copy()
                        rest.facts.typ[("not", o.val, nm)] = nm
                nxt.append(rest)
            pending = nxt
        return outs + [Out("raise", s, o.val) for s in pending]

    def run_handler(self, h, exc, st):
        s = st.fork()
        prev = s.frames[self.ctx.fid].get("__exc__")
        s.setvar(self.ctx.fid, "__exc__", exc)
        if h.name:
            s.setvar(self.ctx.fid, h.name, exc)
        self.emit(s, "except", h, exc=exc)
        outs = self.exec_block(h.body, s)
        for o in outs:
            o.st = o.st.fork()
            if prev is None:
                o.st.delvar(self.ctx.fid, "__exc__")
            else:
                o.st.setvar(self.ctx.fid, "__exc__", prev)
        return outs

    def st_With(self, n, st):
        return self.with_items(n.items, n.body, st, isinstance(n, ast.AsyncWith), n)

    st_AsyncWith = st_With

    def with_items(self, items, body, st, is_async, node):
        if not items:
            return self.exec_block(body, st)
        it, rest = items[0], items[1:]
        outs = []
        cm = self.contextmanager_func(it.context_expr, st)
        if cm is not None:
            return self.with_generator(cm, it, rest, body, st, is_async, node)
        for s, c in self.ev(it.context_expr, st):
            cls = self.the_class(c, s)
            en = ex = None
            if cls is not None:
                en = cls.find_method("__aenter__" if is_async else "__enter__")
                ex = cls.find_method("__aexit__" if is_async else "__exit__")
            if en is not None and ex is not None and not self.opaque(en, cls):
                ent = self.inline(en, c, [], {}, s, node, awaited=True)
            else:
                s = s.fork()
                self.emit(s, "with_enter", node, ctx=c, is_async=is_async)
                if is_async and not self._nosuspend_cm(c):
                    self.suspend(s, node)
                ent = [(s, V("enter", c))]
                ex = None
            for s2, v in ent:
                cur = [s2]
                if it.optional_vars is not None:
                    cur = self.assign(it.optional_vars, v, s2)
                for s3 in cur:
                    inner = self.with_items(rest, body, s3, is_async, node)
                    if self._is_timeout_cm(c):
                        inner = inner + self.timeout_outs(s3, c, node)
                    for o in inner:
                        if ex is not None:
                            args = [NONE, NONE, NONE]
                            if o.kind == "raise":
                                args = [V("exctype", o.val), o.val, V("exctb", o.val)]
                            for s4, r in self.inline(ex, c, args, {}, o.st, node, awaited=True):
                                outs.append(Out(o.kind, s4, o.val))
                        else:
                            s4 = o.st.fork()
                            if o.kind == "raise" and self._is_suppress(c, o.val, s4):
                                outs.append(Out("next", s4))
                                continue
                            self.emit(s4, "with_exit", node, ctx=c, outcome=o.kind)
                            outs.append(Out(o.kind, s4, o.val))
        return outs

    def _is_suppress(self, c, exc, st):
        if c.k == "call" and c.a[0].k == "ext" and c.a[0].a[0].endswith("contextlib.suppress"):
            return any(self.exc_match(exc, x.a[0], st) for x in c.a[1] if x.k in ("cls", "ext", "builtin"))
        return False

    def _is_timeout_cm(self, c):
        return c.k == "call" and c.a[0].k == "ext" and c.a[0].a[0].split(".")[-1] in ("timeout", "timeout_at")

    def _nosuspend_cm(self, c):
        return self._is_timeout_cm(c)

    def timeout_outs(self, st, c, node):
        return []

    def contextmanager_func(self, e, st):
        if not isinstance(e, ast.Call):
            return None
        save, self.sink = self.sink, []
        try:
            r = self.ev(e.func, st.fork())
        except Broken:
            return None
        finally:
            self.sink = save
        if len(r) != 1:
            return None
        v = r[0][1]
        f = None
        selfv = None
        if v.k == "func":
            f = self.prog.funcs.get(v.a[0])
        elif v.k == "bound":
            f = self.prog.funcs.get(v.a[1])
            selfv = v.a[0]
        elif r[0][0].obj(v) is not None and r[0][0].obj(v).kind == "closure":
            f = None
        if f is None or not f.is_gen:
            return None
        if not any((dotted(d) or "").split(".")[-1] in ("contextmanager", "asynccontextmanager")
                   for d in f.decorators):
            return None
        return f, selfv

    def with_generator(self, cm, it, rest, body, st, is_async, node):
        f, selfv = cm
        call = it.context_expr
        outs = []
        outer = self.ctx
        marker = object()

        for s, args, kwargs in self.ev_args(call, st):
            results = []

            def wbody(v, s1):
                inner_ctx, self.ctx = self.ctx, outer
                stk, self.stack = self.stack, list(self.stack)
                try:
                    cur = [s1]
                    if it.optional_vars is not None:
                        cur = self.assign(it.optional_vars, v, s1)
                    res = []
                    for s2 in cur:
                        for o in self.with_items(rest, body, s2, is_async, node):
                            if o.kind == "next":
                                res.append((o.st, NONE))
                            elif o.kind == "raise":
                                self.sink.append(o)
                            else:
                                # return/break/continue leaves the generator by GeneratorExit
                                u = V("unwind", o.kind, o.val if o.val is not None else NONE, id(node))
                                self.sink.append(Out("raise", o.st, u))
                    return res
                finally:
                    self.ctx = inner_ctx
                    self.stack = stk

            save, self.sink = self.sink, []
            try:
                for s2, _ in self.inline(f, selfv, args, kwargs, s, node, awaited=True, force=True, wbody=wbody):
                    outs.append(Out("next", s2))
                raised = self.sink
            finally:
                self.sink = save
            for o in raised:
                if o.val.k == "unwind" and o.val.a[2] == id(node):
                    outs.append(Out(o.val.a[0], o.st, o.val.a[1]))
                else:
                    outs.append(o)
        return outs

    def st_For(self, n, st):
        return self.for_loop(n, st)

    st_AsyncFor = st_For

    def st_While(self, n, st):
        return self.while_loop(n, st)

    def st_Match(self, n, st):
        """match on values / or-patterns / captures / wildcard"""
        outs = []
        for s, subj in self.ev(n.subject, st):
            pending = [s]
            for case in n.cases:
                nxt = []
                for p in pending:
                    for s2, ok in self.match_pat(case.pattern, subj, p):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, g in self.ev_cond(case.guard, s2):
                                if g:
                                    outs.extend(self.exec_block(case.body, s3))
                                else:
                                    nxt.append(s3)
                        else:
                            outs.extend(self.exec_block(case.body, s2))
                pending = nxt
            outs.extend(Out("next", p) for p in pending)
        return outs

    def match_pat(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            out = []
            for s, v in self.ev(p.value, st):
                out.extend(self.branch(s, self.compare("==", subj, v, s)))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, self.compare("is", subj, const(p.value), st))
        if isinstance(p, ast.MatchAs):
            out = []
            sub = [(st, True)] if p.pattern is None else self.match_pat(p.pattern, subj, st)
            for s, ok in sub:
                if ok and p.name:
                    s = s.fork()
                    s.setvar(self.ctx.fid, p.name, subj)
                out.append((s, ok))
            return out
        if isinstance(p, ast.MatchOr):
            out = []
            pending = [st]
            for q in p.patterns:
                nxt = []
                for s in pending:
                    for s2, ok in self.match_pat(q, subj, s):
                        (out if ok else nxt).append((s2, True) if ok else s2)
                pending = nxt
            return out + [(s, False) for s in pending]
        if isinstance(p, ast.MatchSequence) and subj.k == "tuple":
            if len(p.patterns) != len(subj.a):
                return [(st, False)]
            cur = [st]
            out = []
            for q, x in zip(p.patterns, subj.a):
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pat(q, x, s):
                        (nxt.append(s2) if ok else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        raise Broken(f"unsupported match pattern at line {p.lineno}")


def _boolish(v):
    return v.k in ("cmp", "not", "oneof", "isinstance", "all")


def _addkv(layers, k, v):
    """override an exact key in place when it is safe (no unknown layer after it)"""
    out = list(layers)
    for i in range(len(out) - 1, -1, -1):
        l = out[i]
        if l[0] == "kv" and l[1] is k:
            out[i] = ("kv", k, v)
            return tuple(out)
        if l[0] != "kv":
            break
    out.append(("kv", k, v))
    return tuple(out)


def linear(op, a, b):
    """normal form of sums: V('lin', const, ((term, coef), ...))"""
    d = {}
    c = [0]

    def add(x, k):
        if x.k == "const" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool):
            c[0] += k * x.a[0]
        elif x.k == "binop" and x.a[0] == "+":
            add(x.a[1], k)
            add(x.a[2], k)
        elif x.k == "lin":
            c[0] += k * x.a[0]
            for t, q in zip(x.a[1::2], x.a[2::2]):
                d[t] = d.get(t, 0) + k * q
        else:
            d[x] = d.get(x, 0) + k

    add(a, 1)
    add(b, 1 if op == "+" else -1)
    items = sorted(((t, q) for t, q in d.items() if q), key=lambda z: z[0].n)
    if not items:
        return const(c[0])
    if len(items) == 1 and items[0][1] == 1 and c[0] == 0:
        return items[0][0]
    flat = []
    for t, q in items:
        flat += [t, q]
    return V("lin", c[0], *flat)


def _numeric(v):
    return v.k in ("lin", "len") or (v.k == "const" and isinstance(v.a[0], (int, float))) or (
        v.k == "call" and v.a[0].k == "builtin" and v.a[0].a[0] in ("len", "int", "float", "min", "max", "sum"))


def _canon_lin(a, b, op):
    """a op b with linear operands -> simplest equivalent comparison"""
    d = linear("-", a, b)
    if d.k != "lin":
        if d.k == "const":
            return d, const(0), op
        return d, const(0), op
    c = d.a[0]
    ts = list(zip(d.a[1::2], d.a[2::2]))
    flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
    if len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0], const(-c), op
    if len(ts) == 1 and ts[0][1] == -1:
        return ts[0][0], const(c), flip.get(op, op)
    if len(ts) == 2 and c == 0 and {ts[0][1], ts[1][1]} == {1, -1}:
        (t1, q1), (t2, q2) = ts
        if q1 == 1:
            return t1, t2, op
        return t2, t1, op
    # sign-normalise on the first term
    if ts[0][1] < 0:
        neg = [-c]
        for t, q in ts:
            neg += [t, -q]
        return _wo_const(V("lin", *neg)), const(c), flip.get(op, op)
    return _wo_const(d), const(-c), op


def _wo_const(l):
    return V("lin", 0, *l.a[1:])


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
