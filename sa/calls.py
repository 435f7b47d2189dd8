"""Calls: inlining, awaiting, models of builtins / containers / asyncio."""
import ast

from .program import Broken, Func, dotted
from .query import subterms
from .state import Ev, Obj, Out, State
from .values import (
    FALSE, NONE, TRUE, Facts, V, boolv, const, cval, is_const, mkstr, show, truth_const,
)

PURE_METHODS = {
    "split", "rsplit", "strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith",
    "encode", "decode", "format", "join", "replace", "partition", "rpartition", "isdigit",
    "title", "splitlines", "union", "intersection", "difference", "issubset", "issuperset",
    "isdisjoint", "total_seconds", "isoformat", "to_bytes", "hex", "count", "index", "done",
    "is_set", "is_empty", "group", "groups", "copy", "isidentifier", "removeprefix", "removesuffix",
    "casefold", "find", "timestamp",
}
PURE_EXT = {
    "os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "os.path.exists",
    "os.path.expanduser", "base64.b64encode", "base64.b64decode", "json.dumps", "json.loads",
    "shlex.quote", "shutil.which", "itertools.chain", "base64.urlsafe_b64encode",
    "base64.urlsafe_b64decode", "os.environ.get", "os.getenv", "inspect.isawaitable",
}


def narrowed(f, base, v):
    """the entry's own facts restrict the elements that the value is about"""
    if f is None:
        return False
    els = {x for x in subterms(v) if x.k == "elem"}

    def about(k):
        return any(x in els for y in (k if isinstance(k, tuple) else (k,)) for x in subterms(y))
    for a, b in ((f.dom, base.dom), (f.ne, base.ne), (f.tr, base.tr), (f.rel, base.rel)):
        for k, d in a.items():
            if b.get(k) != d and about(k):
                return True
    return False


def _fixed(v):
    """equal to another such value only if it is the same term"""
    return is_const(v) or v.k == "ref" or v.k == "call" and v.a[3] != 0


class Kw(dict):
    """keyword arguments; those that were put in their position are found, too"""

    def __init__(self, rest, by):
        super().__init__(rest)
        self.by = by

    def get(self, k, default=None):
        return dict.get(self, k, self.by.get(k, default))

    def __missing__(self, k):
        return self.by[k]

    def __bool__(self):
        return len(self) > 0 or bool(self.by)

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.by


class CallsMixin:
    # ------------------------------------------------------------------
    def ev_args(self, n, st):
        """-> list of (state, args, kwargs); kwargs may hold '**' : [values]"""
        out = []
        for s, args in self.ev_list(n.args, st):
            cur = [(s, {})]
            for k in n.keywords:
                nxt = []
                for s1, kw in cur:
                    for s2, v in self.ev(k.value, s1):
                        kw2 = dict(kw)
                        if k.arg is None:
                            o = s2.obj(v)
                            if o is not None and o.kind == "dict" and all(
                                    l[0] == "kv" and l[1].k == "const" for l in o.layers):
                                for l in o.layers:
                                    kw2[l[1].a[0]] = l[2]
                            else:
                                kw2["**"] = kw2.get("**", ()) + (v,)
                        else:
                            kw2[k.arg] = v
                        nxt.append((s2, kw2))
                cur = nxt
            for s1, kw in cur:
                a2 = []
                for a in args:
                    if a.k == "star":
                        segs = self.segs_of(a.a[0], s1)
                        if all(x[0] == "one" for x in segs):
                            a2.extend(x[1] for x in segs)
                            continue
                    a2.append(a)
                out.append((s1, a2, kw))
        return out

    def ev_Call(self, n, st, awaited=False):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            c = self.ctx.cls
            if n.args:
                pass
            return [(st, V("super", self.ctx.selfv, c.qual))] if c is not None and self.ctx.selfv is not None else [
                (st, V("call", V("builtin", "super"), (), (), 0))]
        for s, f in self.ev(n.func, st):
            for s2, args, kw in self.ev_args(n, s):
                out.extend(self.call(f, args, kw, n, s2, awaited))
        return out

    # ------------------------------------------------------------------
    def call(self, fv, args, kw, node, st, awaited=False):
        self.tick()
        k = fv.k
        if node is not None:
            self.sites.add((self.ctx.module.name if self.ctx else "", getattr(node, "lineno", 0),
                            getattr(node, "col_offset", 0)))
        o = st.obj(fv)
        if o is not None:
            if o.kind == "closure":
                return self.inline(o.func, None, args, kw, st, node, awaited=awaited, closure=o)
            if o.kind == "partial":
                return self.call(o.fv, list(o.args) + args, {**dict(o.kwargs), **kw}, node, st, awaited)
            if o.kind == "inst":
                c = self.prog.classes.get(o.cls)
                f = c.find_method("__call__") if c else None
                if f is not None:
                    return self.inline(f, fv, args, kw, st, node, awaited=awaited)
        if k == "func":
            f = self.prog.funcs[fv.a[0]]
            if self.opaque(f, None):
                return self.opaque_call(fv, f.name, None, args, kw, node, st, awaited, f)
            extra = [d for d in f.decorators if dotted(d) not in (
                "staticmethod", "classmethod", "property")]
            if extra and f.cls is None and f.outer is None and not any(
                    (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] in ("contextmanager", "asynccontextmanager")
                    for d in extra):
                # decorated module-level function: use its decorated value
                key = ("deco", f.qual)
                if key not in self.__dict__.setdefault("_deco_guard", set()):
                    pass
            return self.inline(f, None, args, kw, st, node, awaited=awaited)
        if k == "bound":
            f = self.prog.funcs[fv.a[1]]
            recv = fv.a[0]
            cls = self.the_class(recv, st, f.name)
            if self.opaque(f, cls):
                return self.opaque_call(fv, f.name, recv, args, kw, node, st, awaited, f)
            if (
                not self.is_exact(recv, st) and recv.k not in ("cls", "super") and f.is_trivial()
                and not self._exact_self(recv)
            ):
                return self.opaque_call(fv, f.name, recv, args, kw, node, st, awaited, f)
            return self.inline(f, recv, args, kw, st, node, awaited=awaited)
        if k == "cls":
            return self.instantiate(fv, args, kw, node, st)
        if k == "builtin":
            return self.builtin(fv, fv.a[0], args, kw, node, st, awaited)
        if k == "bm":
            return self.bm_call(fv, fv.a[0], fv.a[1], args, kw, node, st)
        if k == "identity":
            return [(st, args[0])]
        if k == "ext":
            return self.ext_call(fv, fv.a[0], args, kw, node, st, awaited)
        if k == "attr" and fv.a[1] == "__setattr__" and (fv.a[0] is V("builtin", "object") and len(args) == 3 or fv.a[0].k == "super" and len(args) == 2):
            b, key, val = args if len(args) == 3 else [fv.a[0].a[0], *args]
            if key.k == "const":
                return [(s, NONE) for s in self.setattr(b, key.a[0], val, st, node, plain=True)]
        if k == "attr" and fv.a[1] == "__new__" and (fv.a[0] is V("builtin", "object") or fv.a[0].k == "cls") and args and args[0].k == "cls" and args[0].a[0] in self.prog.classes:
            s = st.fork()
            return [(s, s.alloc(Obj("inst", cls=args[0].a[0], attrs={})))]
        if k == "attr" and fv.a[0].k == "task" and self.run_tasks and fv.a[1] == "result" and not args:
            return self.await_task(fv.a[0], st, node)
        if k == "attr" and self.run_tasks and fv.a[1] == "create_task" and args and st.obj(args[0]) is not None and st.obj(args[0]).kind == "coro":
            return self.asyncio_call(fv, "create_task", args, kw, node, st, awaited)
        if k == "attr" and fv.a[0].k == "task" and self.run_tasks and fv.a[1] in ("done", "cancelled") and not args:
            o = st.ghost.get("tasks", {}).get(fv.a[0])
            return [(st, boolv(o is not None and (fv.a[1] == "done" or o.kind != "ret" and "CancelledError" in self.exc_name(o.val, o.st)[0])))]
        if k == "attr":
            return self.sym_method(fv, fv.a[0], fv.a[1], args, kw, node, st, awaited)
        return self.opaque_call(fv, None, None, args, kw, node, st, awaited)

    def _exact_self(self, recv):
        return recv in getattr(self, "exact_selfs", ())

    # ------------------------------------------------------------------
    def positional(self, func, args, kw, recv):
        """a call of a known function, whichever way its arguments are given"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if func.cls is not None and func.kind != "static" and func.outer is None and recv is not None and names:
            names = names[1:]
        if "**" in kw or len(args) > len(names) or any(x.k == "star" for x in args):
            return args, kw
        args, rest = list(args), dict(kw)
        by = dict(zip(names, args))
        for nm in names[len(args):]:
            if nm not in rest:
                break
            by[nm] = rest.pop(nm)
            args.append(by[nm])
        return args, Kw(rest, by)

    def opaque_call(self, fv, name, recv, args, kw, node, st, awaited, func=None, pure=False, suspend=None, given=None):
        s = st.fork()
        if func is not None and not isinstance(func.node, ast.Lambda):
            args, kw = self.positional(func, args, kw, recv)
        if pure:
            res = V("call", fv, tuple(args), _kwt(kw), 0)
        else:
            res = V("call", fv, tuple(args), _kwt(kw), s.fresh())
        if self.results is not None and given is None:
            self.callee = fv
            given = self.results(self, s, name, func, args, kw)
        if given is not None:
            res = given
        ev = self.emit(s, "call", node, callee=fv, name=name, recv=recv, args=list(args), kwargs=kw if isinstance(kw, Kw) else dict(kw),
                       result=res, awaited=bool(awaited), target=func)
        for a in list(args) + [x for x in kw.values() if isinstance(x, V)]:
            ao = s.obj(a)
            if ao is not None and ao.kind == "coro":
                self.emit(s, "spawn", node, coro=a, via=fv)
        if func is not None and func.is_gen:
            return [(s, res)]
        if not pure and self.raises_policy is not None:
            for exc, exact, *known in self._policy(s, ev):
                s2 = s.fork()
                if awaited:
                    self.suspend(s2, node)
                v = V("exc", exc, bool(exact), s2.fresh())
                self.emit(s2, "callraised", node, call=ev, exc=exc, value=v)
                if known:
                    s2.store = {**s2.store, **{(v, a): x for a, x in known[0].items()}}
                self.do_raise(s2, exc, node, exact, v)
        if res.k == "never":
            return []
        return [(s, res)]

    def _policy(self, s, ev):
        for x in self.raises_policy(self, s, ev) or ():
            if isinstance(x, tuple):
                yield x
            else:
                yield x, x not in ("Exception", "BaseException")

    def opaque_raises(self, st, it, node):
        """exceptions from iterating an opaque (async) iterable"""
        if self.raises_policy is None:
            return []
        s = st.fork()
        recv = name = None
        fv = it
        if it.k == "call":
            fv = it.a[0]
            if fv.k == "bound":
                recv, name = fv.a[0], self.prog.funcs[fv.a[1]].name
            elif fv.k == "attr":
                recv, name = fv.a[0], fv.a[1]
        ev = Ev("call", node, self.ctx.func, s.facts, s.heap, s.store, tuple(self.stack), callee=fv, name=name,
                recv=recv, args=list(it.a[1]) if it.k == "call" else [], kwargs={}, result=it, awaited=True,
                target=None)
        outs = []
        for exc, exact, *_ in self._policy(s, ev):
            s2 = s.fork()
            self.emit(s2, "callraised", node, call=ev, exc=exc)
            outs.append(Out("raise", s2, V("exc", exc, exact, s2.fresh())))
        return outs

    # ------------------------------------------------------------------
    def inline(self, f, selfv, args, kw, st, node, awaited=False, force=False, wbody=None,
               yield_to=None, closure=None, chain=None):
        if self.opaque(f, None) and not force:
            return self.opaque_call(V("func", f.qual), f.name, selfv, args, kw, node, st, awaited, f)
        if f.is_async and not f.is_gen and not awaited and not force:
            s = st.fork()
            return [(s, s.alloc(Obj("coro", func=f, selfv=selfv, args=tuple(args), kwargs=dict(kw),
                                    closure=closure)))]
        if f.is_gen and wbody is None and yield_to is None and not force:
            s = st.fork()
            return [(s, s.alloc(Obj("gen", func=f, selfv=selfv, args=tuple(args), kwargs=dict(kw),
                                    chain=closure.chain if closure else chain)))]
        if len(self.stack) >= self.MAXDEPTH or sum(1 for q in self.stack if q == f.qual) >= self.recursion:
            return self.opaque_call(V("func", f.qual), f.name, selfv, args, kw, node, st, awaited, f)
        from .interp import Ctx

        s = st.fork()
        self.inlined.add(f.qual)
        fid = s.fresh()
        frame, errs = self.bind(f, selfv, args, kw, s)
        if frame is None:
            return self.do_raise(s, "TypeError", node)
        s.frames = dict(s.frames)
        if f.is_gen and wbody is None:
            if yield_to is None:
                yield_to = s.alloc(Obj("list", lk="list", segs=()))
            frame["__yield__"] = yield_to
        s.frames[fid] = frame
        outer_chain = closure.chain if closure is not None else (chain or ())
        sv = selfv
        cls = f.cls
        if closure is not None:
            if sv is None:
                sv = closure.selfv
            cls = closure.cls or cls
        elif f.kind == "static":
            sv = None
        self.emit(s, "enter", node, target=f, selfv=selfv, params=frame)
        save = self.ctx
        self.ctx = Ctx(f, f.module, fid, tuple(outer_chain) + (fid,), cls, sv, wbody)
        self.stack.append(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [Out("ret", s2, v) for s2, v in self.ev(f.node.body, s)]
            else:
                outs = self.exec_block(f.node.body, s)
        finally:
            self.ctx = save
            self.stack.pop()
        res = []
        seen = {}
        for o in outs:
            s2 = o.st.fork()
            captured = any(
                x.kind in ("closure", "gen", "coro") and self._captures(x, fid) for x in s2.heap.values()
            )
            if not captured:
                s2.frames = {k: v for k, v in s2.frames.items() if k != fid}
            if o.kind == "raise":
                self.sink.append(Out("raise", s2, o.val))
                continue
            v = o.val if o.kind == "ret" else NONE
            if f.is_gen and wbody is None:
                v = yield_to
            k = (s2.key(), v)
            if k in seen:
                continue
            seen[k] = True
            c2 = self.ctx
            ev = Ev("exit", node, c2.func if c2 else None, s2.facts, s2.heap, s2.store, tuple(self.stack),
                    target=f, result=v, selfv=selfv)
            s2.emit(ev)
            # a coroutine that was awaited is done; what it returned is not awaited again
            res.append((s2, V("done", v) if awaited == "await" and f.is_async and not f.is_gen and not force else v))
        return res

    def _captures(self, x, fid):
        if x.kind == "closure":
            return fid in x.chain
        if x.kind == "gen":
            return x.chain is not None and fid in x.chain
        c = x.d.get("closure")
        return c is not None and fid in c.chain

    def bind(self, f, selfv, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        frame = {}
        args = list(args)
        if selfv is not None and f.cls is not None and f.outer is None and f.kind != "static" and names:
            args.insert(0, selfv)
        kw = dict(kw)
        unknown_kw = kw.pop("**", ())
        i = 0
        unknown_star = None
        for nm in names:
            if i < len(args):
                if args[i].k == "star":
                    unknown_star = args[i].a[0]
                    break
                frame[nm] = args[i]
                i += 1
            else:
                break
        if a.vararg:
            rest = args[i:]
            if any(x.k == "star" for x in rest) :
                segs = ()
                for x in rest:
                    segs += self.segs_of(x.a[0], st) if x.k == "star" else (("one", x),)
                frame[a.vararg.arg] = st.alloc(Obj("list", lk="tuple", segs=segs))
            else:
                frame[a.vararg.arg] = V("tuple", *rest)
        elif i < len(args) and unknown_star is None:
            return None, "too many"
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                frame[k] = v
            elif a.kwarg:
                extra.append(("kv", const(k), v))
            else:
                return None, k
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for j, nm in enumerate(names + kwonly):
            if nm in frame:
                continue
            if unknown_star is not None and nm in names:
                frame[nm] = V("item", unknown_star, const(j - i))
            elif unknown_kw:
                frame[nm] = V("item", unknown_kw[0], const(nm))
            elif nm in defaults:
                v = self._eval_static(defaults[nm], f.module, st)
                frame[nm] = v if v is not None else V("default", f.qual, nm)
            else:
                frame[nm] = V("unbound", nm)
        if a.kwarg:
            layers = tuple(l for u in unknown_kw for l in self.layers_of(u, st)) + tuple(extra)
            frame[a.kwarg.arg] = st.alloc(Obj("dict", layers=layers))
        return frame, None

    # ------------------------------------------------------------------
    def do_await(self, v, st, node):
        if v.k == "done":
            return [(st, v.a[0])]
        o = st.obj(v)
        if o is not None:
            if o.kind == "coro":
                return self.inline(o.func, o.selfv, list(o.args), dict(o.kwargs), st, node, awaited=True,
                                   force=True, closure=o.d.get("closure"))
            if o.kind == "waiter":
                return self.await_many(o, st, node)
            if o.kind == "inst":
                k = self.prog.classes.get(o.cls)
                if k is not None and k.find_method("__await__") is None and not k.ext_bases():
                    return [(st, v)]    # what an awaited coroutine has returned
                s = st.fork()
                self.emit(s, "await", node, value=v)
                self.suspend(s, node)
                return [(s, V("awaited", v, s.fresh()))]
            return [(st, v)]
        if is_const(v):
            return [(st, v)]
        if v.k == "task" and self.run_tasks:
            return self.await_task(v, st, node)
        if self.awaits is not None and isinstance(node, ast.Await) and not isinstance(node.value, ast.Call):
            out = []
            for effect, exc in self.awaits(self, st, v) or ():
                s = st.fork()
                self.emit(s, "await", node, value=v)
                self.suspend(s, node)
                if effect is not None:
                    effect(s)
                if exc is not None:
                    self.do_raise(s, exc, node)
                else:
                    out.append((s, NONE))
            return out
        s = st.fork()
        if v.k not in ("call",):
            self.emit(s, "await", node, value=v)
        self.suspend(s, node)
        return [(s, v)]

    def await_task(self, t, st, node):
        """wait for a task: its coroutine runs the first time, afterwards its outcome is known"""
        s = st.fork()
        self.emit(s, "await", node, value=t)
        self.suspend(s, node)
        known = s.ghost.get("tasks", {}).get(t)
        if known is None and self.park is not None and self.park(self, s, t):
            return []
        if known is not None:
            if known.kind == "ret":
                return [(s, known.val)]
            self.sink.append(Out("raise", s, known.val))
            return []
        save, self.sink = self.sink, []
        try:
            res = [Out("ret", x, y) for x, y in self.do_await(t.a[0], s, node)]
            raised = self.sink
        finally:
            self.sink = save
        for o in res + raised:
            o.st.ghost = {**o.st.ghost, "tasks": {**o.st.ghost.get("tasks", {}), t: o}}
        self.sink.extend(raised)
        return [(o.st, o.val) for o in res]

    def await_many(self, o, st, node):
        if o.mode in ("some", "wait") and (o.kwargs or {}).get("timeout") is not None:
            st = st.fork()
            self.emit(st, "wait_limit", node, timeout=o.kwargs["timeout"])
        if o.mode == "given":
            s = st.fork()
            self.suspend(s, node)
            return [(s, o.args[0])]
        if o.mode == "some":    # returns before everything is done
            s = st.fork()
            self.emit(s, "await_some", node, value=o.args[0].a[0])
            self.suspend(s, node)
            return [(s, V("gathered", s.fresh()))]
        if o.mode == "wait_for":
            out = []
            s0 = st.fork()
            limit = o.args[1] if len(o.args) > 1 else (o.kwargs or {}).get("timeout")
            self.emit(s0, "await", node, value=o.args[0])
            self.emit(s0, "timed", node, timeout=limit)
            self.suspend(s0, node)
            for s, v in self.do_await(o.args[0], s0, node):
                s = s.fork()
                self.emit(s, "timed_end", node)
                out.append((s, v))
            self.do_raise(s0, "TimeoutError", node)
            return out
        cur = [(st, [])]
        keep = o.mode == "wait" and self.run_tasks or o.mode == "gather" and (o.kwargs or {}).get("return_exceptions") == const(True)
        for a in o.args:
            nxt = []
            for s, vs in cur:
                segs = self.segs_of(a.a[0], s) if a.k == "star" else (("one", a),)
                if all(g[0] == "one" for g in segs):
                    part = [(s, vs)]
                    for g in segs:
                        part = [(s3, xs + [v]) for s2, xs in part for s3, v in self.await_one(g[1], s2, node, keep)]
                    nxt.extend(part)
                else:
                    for s2 in self.await_segs(segs, s, node, keep):
                        nxt.append((s2, vs))
            cur = nxt
        out = []
        for s, vs in cur:
            s = s.fork()
            self.suspend(s, node)
            if any(a.k == "star" and any(g[0] != "one" for g in self.segs_of(a.a[0], s)) for a in o.args):
                out.append((s, V("gathered", s.fresh())))
            else:
                out.append((s, s.alloc(Obj("list", lk="list", segs=tuple(("one", v) for v in vs)))))
        return out

    def await_one(self, v, st, node, keep):
        """await one of several; an exception is its result when asked to keep it"""
        if not keep:
            return self.do_await(v, st, node)
        save, self.sink = self.sink, []
        try:
            res = list(self.do_await(v, st, node))
            raised = self.sink
        finally:
            self.sink = save
        return res + [(o.st, o.val) for o in raised]

    def await_segs(self, segs, st, node, keep=False):
        def body(val, s0):
            return [Out("next", s) for s, _ in self.await_one(val, s0, node, keep)]

        cur = [st]
        for seg in segs:
            nxt = []
            for s in cur:
                if seg[0] == "one":
                    nxt.extend(x for x, _ in self.await_one(seg[1], s, node, keep))
                else:
                    norm, leave = self.rep_loop(node, seg, s, body, set())
                    nxt.extend(norm)
                    self.sink.extend(leave)
            cur = nxt
        return cur

    def suspend(self, st, node, silent=False):
        """other tasks may run: havoc volatile fields (in place)"""
        if not silent:
            self.emit(st, "suspend", node)
        old = st.epoch
        st.epoch = old + 1
        if self.volatile is None:
            return
        cur = {}
        for (b, nm), v in st.store.items():
            if isinstance(nm, str) and self.volatile(self, b, nm, st):
                cur[(b, nm)] = v
        for t in list(st.facts.dom):
            if isinstance(t, V) and t.k == "attr" and t.a[2] == old and (t.a[0], t.a[1]) not in cur and \
                    self.volatile(self, t.a[0], t.a[1], st):
                cur[(t.a[0], t.a[1])] = t
        if not cur:
            return
        store = dict(st.store)
        f = st.facts.copy()
        for (b, nm), v in cur.items():
            store.pop((b, nm), None)
            d = frozenset([v]) if is_const(v) else f.dom.get(v)
            if self.rely is not None:
                nd = self.rely(self, st, b, nm, d)
                if nd is not None:
                    f.dom[V("attr", b, nm, st.epoch)] = nd
        st.store = store
        st.facts = f

    # ------------------------------------------------------------------
    def instantiate(self, fv, args, kw, node, st):
        c = self.prog.classes[fv.a[0]]
        if c.is_enum():
            if len(args) == 1:
                if is_const(args[0]):
                    for m in self.enum_tab[c.qual]:
                        if m.a[2] == cval(args[0]):
                            return [(st, m)]
                return [(st, V("call", fv, tuple(args), (), 0))]
        s = st.fork()
        init = c.find_method("__init__")
        attrs = {}
        if init is None:
            for k, v in kw.items():
                if k != "**":
                    attrs[k] = v
        for k, v in list(attrs.items()):
            pass
        obj = s.alloc(Obj("inst", cls=c.qual, attrs=attrs, args=tuple(args)))
        self.emit(s, "new", node, cls=c.qual, args=list(args), kwargs=dict(kw), result=obj)
        if init is not None and not self.opaque(init, c):
            return [(s2, obj) for s2, _ in self.inline(init, obj, args, kw, s, node)]
        return [(s, obj)]

    # ------------------------------------------------------------------
    def newlist(self, st, segs, lk="list"):
        s = st.fork()
        return s, s.alloc(Obj("list", lk=lk, segs=tuple(segs)))

    def term(self, fv, args, kw=None):
        return V("call", fv, tuple(args), _kwt(kw or {}), 0)

    def builtin(self, fv, name, args, kw, node, st, awaited):
        m = getattr(self, "b_" + name, None)
        if m is not None:
            r = m(fv, args, kw, node, st)
            if r is not None:
                return r
        import builtins
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            s = st.fork()
            return [(s, V("call", fv, tuple(args), _kwt(kw), s.fresh()))]
        if name in ("open", "print", "exec", "eval", "input", "compile", "__import__"):
            return self.opaque_call(fv, name, None, args, kw, node, st, awaited)
        return [(st, self.term(fv, args, kw))]

    def b_len(self, fv, args, kw, node, st):
        x = args[0]
        o = st.obj(x)
        if o is not None and o.kind == "list":
            if all(s[0] == "one" for s in o.segs) and o.lk not in ("set",):
                return [(st, const(len(o.segs)))]
            if all(s[0] == "one" and is_const(s[1]) for s in o.segs):
                return [(st, const(len(set(o.segs))))]
            if len(o.segs) == 1 and o.segs[0][0] == "sym":
                return [(st, V("len", o.segs[0][1]))]
            return [(st, V("len", x, self._objkey(o)))]
        if o is not None and o.kind == "dict":
            if all(l[0] == "kv" for l in o.layers):
                return [(st, const(len(o.layers)))]
            return [(st, V("len", x, self._objkey(o)))]
        if x.k == "tuple":
            return [(st, const(len(x.a)))]
        if x.k == "const" and isinstance(x.a[0], (str, bytes)):
            return [(st, const(len(x.a[0])))]
        if x.k == "values" or x.k == "items":
            x = x.a[0]
        return [(st, V("len", x))]

    def _conv(self, lk):
        def fn(fv, args, kw, node, st):
            if not args:
                s, r = self.newlist(st, (), lk)
                return [(s, r)]
            out = []
            for s, segs in self.iter_segs(args[0], st, node):
                if lk == "set" and segs and all(x[0] == "one" for x in segs):
                    # a set has no order: any order but the given one
                    segs = tuple(("one", v) for v in reversed(dict.fromkeys(x[1] for x in segs)))
                s, r = self.newlist(s, segs, lk)
                out.append((s, r))
            return out
        return fn

    def b_list(self, *a):
        return self._conv("list")(*a)

    def b_set(self, *a):
        return self._conv("set")(*a)

    def b_frozenset(self, *a):
        return self._conv("set")(*a)

    def b_sorted(self, fv, args, kw, node, st):
        out = self._conv("list")(fv, args, kw, node, st)
        for s, r in out:
            o = s.obj(r)
            if o is not None and o.kind == "list" and "key" not in kw and all(x[0] == "one" and x[1].k == "const" for x in o.segs):
                try:
                    vs = sorted((x[1] for x in o.segs), key=lambda v: v.a[0], reverse=kw.get("reverse") is TRUE)
                    s.setobj(r, o.replace(segs=tuple(("one", v) for v in vs)))
                except TypeError:
                    pass
            self.emit(s, "reorder", node, value=args[0] if args else NONE, how="sorted", kwargs=dict(kw))
        return out

    def b_reversed(self, fv, args, kw, node, st):
        out = self._conv("list")(fv, args, kw, node, st)
        for s, r in out:
            o = s.obj(r)
            if o is not None and o.kind == "list":
                s.setobj(r, o.replace(segs=tuple(reversed(o.segs))))
            self.emit(s, "reorder", node, value=args[0] if args else NONE, how="reversed", kwargs={})
        return out

    def b_tuple(self, fv, args, kw, node, st):
        if not args:
            return [(st, V("tuple"))]
        out = []
        for s, segs in self.iter_segs(args[0], st, node):
            if all(x[0] == "one" for x in segs):
                out.append((s, V("tuple", *[x[1] for x in segs])))
            else:
                out.append(self.newlist(s, segs, "tuple"))
        return out

    def b_iter(self, fv, args, kw, node, st):
        return [(st, args[0])] if len(args) == 1 else None

    def b_dict(self, fv, args, kw, node, st):
        s = st.fork()
        layers = ()
        kw = dict(kw)
        unk = kw.pop("**", ())
        for a in args:
            o = s.obj(a)
            if o is not None and o.kind == "list":
                for g in o.segs:
                    if g[0] == "one" and g[1].k == "tuple" and len(g[1].a) == 2:
                        layers += (("kv", g[1].a[0], g[1].a[1]),)
                    else:
                        layers += (("rep", tuple(
                            (e[0].a[0], e[0].a[1], e[1]) if e[0].k == "tuple" and len(e[0].a) == 2 else
                            (V("item", e[0], const(0)), V("item", e[0], const(1)), e[1])
                            for e in self.seg_entries(g, s))),)
            else:
                m = self.mapping_items(a, s, node)
                if m is not None:
                    s, kv = m
                    layers += kv
                else:
                    layers += self.layers_of(a, s)
        for u in unk:
            layers += self.layers_of(u, s)
        from .interp import _addkv
        for k, v in kw.items():
            layers = _addkv(layers, const(k), v)
        return [(s, s.alloc(Obj("dict", layers=layers)))]

    def mapping_items(self, a, s, node):
        """items of an instance of a project class that has the mapping protocol, when its keys are known"""
        o = s.obj(a)
        c = self.prog.classes.get(o.cls) if o is not None and o.kind == "inst" else None
        it, gi = (c.find_method("__iter__"), c.find_method("__getitem__")) if c is not None else (None, None)
        if it is None or gi is None or self.opaque(it, c) or self.opaque(gi, c):
            return None
        r = self.inline(it, a, [], {}, s.fork(), node)
        if len(r) != 1:
            return None
        s, v = r[0]
        if v.k == "call" and v.a[0] is V("builtin", "iter") and len(v.a[1]) == 1:
            v = v.a[1][0]
        d = s.obj(v)
        if d is None or d.kind not in ("dict", "list") or any(x[0] not in ("kv", "one") for x in (d.layers if d.kind == "dict" else d.segs)):
            return None
        out = ()
        for x in (d.layers if d.kind == "dict" else d.segs):
            r = self.inline(gi, a, [x[1]], {}, s, node)
            if len(r) != 1:
                return None
            s, e = r[0]
            out += (("kv", x[1], e),)
        return s, out

    def b_str(self, fv, args, kw, node, st):
        if not args:
            return [(st, const(""))]
        return [(st, mkstr(args[0]))]

    def b_repr(self, fv, args, kw, node, st):
        return [(st, V("fmt", "r", args[0]))]

    def b_bool(self, fv, args, kw, node, st):
        if not args:
            return [(st, FALSE)]
        b = self.truth(st, args[0])
        if b is not None:
            return [(st, boolv(b))]
        return [(s, boolv(b)) for s, b in self.branch(st, args[0])]

    def b_int(self, fv, args, kw, node, st):
        if args and is_const(args[0]):
            try:
                return [(st, const(int(cval(args[0]))))]
            except Exception:
                return self.do_raise(st, "ValueError", node)
        return self._convterm(fv, args, node, st)

    def b_float(self, fv, args, kw, node, st):
        if args and is_const(args[0]):
            try:
                return [(st, const(float(cval(args[0]))))]
            except Exception:
                return self.do_raise(st, "ValueError", node)
        if len(args) == 1 and (st.facts.truth(V("isinstance", args[0], fv)) or args[0].k == "call" and args[0].a[0] is fv):
            return [(st, args[0])]
        return self._convterm(fv, args, node, st)

    def _convterm(self, fv, args, node, st):
        t = self.term(fv, args)
        ev = Ev("call", node, self.ctx.func if self.ctx else None, st.facts, st.heap, st.store,
                tuple(self.stack), callee=fv, name=fv.a[0], recv=None, args=args, kwargs={}, result=t,
                awaited=False, target=None)
        if self.raises_policy is not None:
            for exc, exact, *_ in self._policy(st, ev):
                self.do_raise(st, exc, node, exact)
        return [(st, t)]

    def b_isinstance(self, fv, args, kw, node, st):
        x, t = args
        ts = list(t.a) if t.k == "tuple" else [t]
        if len(ts) > 1:
            out = []
            cur = [st]
            for y in ts:
                nxt = []
                for s in cur:
                    for s2, v in self.b_isinstance(fv, [x, y], kw, node, s):
                        for s3, b in self.branch(s2, v):
                            (out.append((s3, TRUE)) if b else nxt.append(s3))
                cur = nxt
            return out + [(s, FALSE) for s in cur]
        t = ts[0]
        import builtins
        if is_const(x) and t.k == "builtin":
            b = getattr(builtins, t.a[0], None)
            if isinstance(b, type):
                return [(st, boolv(isinstance(cval(x), b)))]
        if is_const(x) and t.k == "cls":
            return [(st, boolv(x.k == "enum" and self.prog.classes[x.a[0]].is_subclass(t.a[0])))]
        if x.k == "str" and t.k == "builtin":
            return [(st, boolv(t.a[0] in ("str",)))]
        if x.k == "tuple" and t.k == "builtin":
            return [(st, boolv(t.a[0] == "tuple"))]
        if x.k == "cls" and t.k == "builtin":
            return [(st, boolv(t.a[0] in ("type", "object")))]
        if x.k == "cls" and t.k == "cls":
            return [(st, FALSE)]
        o = st.obj(x)
        plain = is_const(x) and x.k != "enum" or x.k in ("str", "tuple") or o is not None and o.kind in ("dict", "list")
        if plain and t.k == "ext" and str(t.a[0]).rpartition(".")[0] in ("collections.abc", "numbers", "collections"):
            import importlib
            mod, _, nm = str(t.a[0]).rpartition(".")
            abc = getattr(importlib.import_module(mod), nm, None)
            if isinstance(abc, type):
                kind = type(cval(x)) if is_const(x) else str if x.k == "str" else tuple if x.k == "tuple" else dict if o.kind == "dict" else {
                    "set": set, "tuple": tuple, "frozenset": frozenset}.get(o.lk, list)
                return [(st, boolv(issubclass(kind, abc)))]
        if plain and t.k == "ext" and str(t.a[0]).endswith(("Exception", "Error")):
            return [(st, FALSE)]
        if o is not None and o.kind in ("dict", "list") and t.k == "cls" and not getattr(o, "cls", None):
            return [(st, FALSE)]
        if o is not None:
            if o.kind == "list" and t.k == "builtin":
                return [(st, boolv(t.a[0] == o.lk))]
            if o.kind == "dict" and t.k == "builtin":
                return [(st, boolv(t.a[0] == "dict"))]
            if o.kind == "inst" and t.k == "cls":
                c = self.prog.classes.get(o.cls)
                if c is not None:
                    return [(st, boolv(c.is_subclass(t.a[0])))]
            if o.kind == "inst":
                c = self.prog.classes.get(o.cls)
                if c is not None and t.a and any(
                        b.split(".")[-1] == str(t.a[0]).split(".")[-1] for b in self.exc_ancestors(o.cls)):
                    return [(st, TRUE)]
                return [(st, FALSE)]
        if x.k == "exc" or (x.k == "call" and x.a[0].k in ("ext", "builtin") and
                            "Exception" in self.exc_ancestors(str(x.a[0].a[0])) and t.k in ("ext", "builtin", "cls")
                            and "Exception" in self.exc_ancestors(str(t.a[0])) and x.k == "exc"):
            m = self.exc_match(x, t.a[0], st)
            if m is not None:
                return [(st, boolv(m))]
            out = []
            s = st.fork()
            s.facts = s.facts.copy()
            s.facts.typ[x] = t.a[0]
            out.append((s, TRUE))
            s = st.fork()
            s.facts = s.facts.copy()
            s.facts.typ[("not", x, t.a[0])] = t.a[0]
            out.append((s, FALSE))
            return out
        if t.k == "cls":
            cs = self.classes_of(x, st)
            known = st.facts.typ.get(x)
            if known is not None and known in self.prog.classes:
                return [(st, boolv(self.prog.classes[known].is_subclass(t.a[0])))]
            if ("not", x, t.a[0]) in st.facts.typ:
                return [(st, FALSE)]
            if cs and all(not c.is_subclass(t.a[0]) and not self.prog.classes[t.a[0]].is_subclass(c.qual) for c in cs):
                return [(st, FALSE)]
        if x.k == "call" and x.a[0].k == "builtin" and x.a[0].a[0] in ("int", "float", "str", "bool", "dict", "list", "set", "tuple") and t.k == "builtin":
            b = getattr(builtins, t.a[0], None)
            if isinstance(b, type):
                return [(st, boolv(issubclass(getattr(builtins, x.a[0].a[0]), b)))]
        return [(st, V("isinstance", x, t))]

    def b_getattr(self, fv, args, kw, node, st):
        if args[1].k == "const":
            if len(args) > 2 and args[0] in self.closed and self.unset(st.obj(args[0]), args[1].a[0]):
                return [(st, args[2])]
            return self.getattr(args[0], args[1].a[0], st, node)
        return [(st, V("call", fv, tuple(args), (), 0))]

    def b_hasattr(self, fv, args, kw, node, st):
        o = st.obj(args[0])
        if args[1].k == "const" and (args[0], args[1].a[0]) in st.store:
            return [(st, TRUE)]
        if o is not None and o.kind == "inst" and args[1].k == "const" and args[1].a[0] in o.attrs:
            return [(st, TRUE)]
        if args[0] in self.closed and args[1].k == "const":
            k = self.prog.classes.get(o.cls)
            if k is not None and k.find_method(args[1].a[0]) is None and not any(args[1].a[0] in b.assigns for b in k.mro()):
                return [(st, FALSE)]
        return [(st, V("call", fv, tuple(args), (), 0))]

    def b_callable(self, fv, args, kw, node, st):
        x = args[0]
        if is_const(x) or x.k in ("str", "tuple"):
            return [(st, FALSE)]
        if x.k in ("cls", "bound", "builtin"):
            return [(st, TRUE)]
        return [(st, V("call", fv, tuple(args), (), 0))]

    def b_setattr(self, fv, args, kw, node, st):
        if args[1].k == "const":
            return [(s, NONE) for s in self.setattr(args[0], args[1].a[0], args[2], st, node)]
        s = st.fork()
        self.emit(s, "setattr", node, obj=args[0], key=args[1], value=args[2])
        return [(s, NONE)]

    def b_type(self, fv, args, kw, node, st):
        if len(args) == 1:
            x = args[0]
            o = st.obj(x)
            if o is not None and o.kind == "inst":
                return [(st, V("cls", o.cls) if o.cls in self.prog.classes else V("ext", o.cls))]
            if x.k == "tuple":
                return [(st, V("builtin", "tuple"))]
            if x.k == "const":
                return [(st, V("builtin", type(x.a[0]).__name__))]
            if o is not None and o.kind == "list" and o.lk in ("list", "set", "tuple"):
                return [(st, V("builtin", o.lk))]
        return [(st, self.term(fv, args))]

    def _minmax(self, fv, name, args, kw, node, st):
        if kw:
            return None
        if len(args) == 1:
            segs = self.segs_of(args[0], st)
            if not segs and st.obj(args[0]) is not None:
                self.do_raise(st.fork(), "ValueError", node)
                return []
            if all(s[0] == "one" for s in segs) and segs:
                args = [s[1] for s in segs]
            else:
                return None
        flat = []
        for a in args:
            if a.k == "call" and a.a[0].k == "builtin" and a.a[0].a[0] == name and not a.a[2]:
                flat.extend(a.a[1])
            else:
                flat.append(a)
        # drop arguments dominated according to known facts
        keep = []
        for i, a in enumerate(flat):
            dom = False
            for j, b in enumerate(flat):
                if i == j or b in keep[:0]:
                    continue
                r = st.facts.relation(a, b)
                bad = (r <= {">"} or (r <= {">", "="} and (r != {"="} or j < i))) if name == "min" else (
                    r <= {"<"} or (r <= {"<", "="} and (r != {"="} or j < i)))
                if bad:
                    dom = True
            if not dom:
                keep.append(a)
        flat = keep or flat[:1]
        if len(flat) == 1:
            return [(st, flat[0])]
        return [(st, V("call", fv, tuple(sorted(set(flat))), (), 0))]

    def b_min(self, fv, args, kw, node, st):
        return self._minmax(fv, "min", args, kw, node, st)

    def b_abs(self, fv, args, kw, node, st):
        if len(args) != 1 or kw:
            return None
        v = args[0]
        if v.k == "const" and isinstance(v.a[0], (int, float)):
            return [(st, const(abs(v.a[0])))]
        r = st.facts.relation(v, const(0))
        if r and r <= {">", "="}:
            return [(st, v)]
        if r and r <= {"<", "="}:
            from .interp import linear
            return [(st, linear("-", const(0), v))]
        return None

    def b_max(self, fv, args, kw, node, st):
        return self._minmax(fv, "max", args, kw, node, st)

    def b_all(self, fv, args, kw, node, st):
        return self._allany(args[0], True, node, st)

    def b_any(self, fv, args, kw, node, st):
        return self._allany(args[0], False, node, st)

    def _allany(self, it, isall, node, st):
        out = []
        for s, segs in self.iter_segs(it, st, node):
            if all(g[0] == "one" for g in segs):
                cur = [s]
                for g in segs:
                    nxt = []
                    for s1 in cur:
                        for s2, b in self.branch(s1, g[1]):
                            if b == isall:
                                nxt.append(s2)
                            else:
                                out.append((s2, boolv(b)))
                    cur = nxt
                out.extend((s1, boolv(isall)) for s1 in cur)
                continue
            conds = []
            for g in segs:
                for v, f in self.seg_entries(g, s):
                    t = truth_const(v) if s.obj(v) is None else None
                    if t is None and f is not None:
                        t = f.truth(v)
                        if t is not None and v.k in ("cmp",) and s.facts.truth(v) is None:
                            t = None
                    if t is None and narrowed(f, s.facts, v):
                        # only the elements that pass a filter satisfy the condition
                        conds.append((V("opaque_entry", v), isall))
                    elif t is None:
                        conds.append((v, isall))
                    elif t == isall:
                        continue
                    else:
                        conds.append((V("opaque_entry", s.fresh()), isall))
            t = V("all", tuple(conds))
            out.append((s, t if isall else V("not", t)))
        return out

    def b_sum(self, fv, args, kw, node, st):
        return None

    def b_zip(self, fv, args, kw, node, st):
        lists = [self.segs_of(a, st) for a in args]
        if all(all(g[0] == "one" for g in l) for l in lists):
            n = min((len(l) for l in lists), default=0)
            s, r = self.newlist(st, [("one", V("tuple", *[l[i][1] for l in lists])) for i in range(n)])
            return [(s, r)]
        ents = [((), None)]
        for a, l in zip(args, lists):
            nxt = []
            for pre, f in ents:
                for g in l:
                    for v, f2 in self.seg_entries(g, st):
                        m = f
                        if f2 is not None:
                            m = f2 if f is None else f.merge(f2)
                            if m is None:
                                continue
                        nxt.append((pre + (v,), m))
            ents = nxt
        s, r = self.newlist(st, [("rep", tuple((V("tuple", *vs), f) for vs, f in ents))])
        return [(s, r)]

    def b_enumerate(self, fv, args, kw, node, st):
        out = []
        for s, segs in self.iter_segs(args[0], st, node):
            new = []
            i = 0
            for g in segs:
                if g[0] == "one" and i is not None:
                    new.append(("one", V("tuple", const(i), g[1])))
                    i += 1
                else:
                    i = None
                    new.append(("rep", tuple((V("tuple", V("index", s.fresh()), v), f)
                                             for v, f in self.seg_entries(g, s))))
            out.append(self.newlist(s, new))
        return out

    def b_range(self, fv, args, kw, node, st):
        if all(is_const(a) for a in args):
            r = range(*[cval(a) for a in args])
            if len(r) <= self.UNROLL:
                return [self.newlist(st, [("one", const(i)) for i in r])]
        return [(st, self.term(fv, args))]

    def b_next(self, fv, args, kw, node, st):
        out = []
        for s, segs in self.iter_segs(args[0], st, node):
            if segs and segs[0][0] == "one":
                out.append((s, segs[0][1]))
                continue
            if not segs:
                out.extend([(s, args[1])] if len(args) > 1 else self.do_raise(s, "StopIteration", node))
                continue
            for g in segs:
                for v, f in self.seg_entries(g, s):
                    s2 = s
                    if f is not None:
                        m = s.facts.merge(f)
                        if m is None:
                            continue
                        s2 = s.with_facts(m)
                    out.append((s2, v))
            if len(args) > 1:
                out.append((s, args[1]))
        return out

    def b_map(self, fv, args, kw, node, st):
        return self.map_filter(args[0], args[1], node, st, False)

    def b_filter(self, fv, args, kw, node, st):
        return self.map_filter(args[0], args[1], node, st, True)

    def map_filter(self, f, it, node, st, is_filter):
        s = st.fork()
        R = s.alloc(Obj("list", lk="gen", segs=()))
        out = []

        def body(val, s0):
            r = []
            for s1, v in (self.call(f, [val], {}, node, s0) if f is not NONE else [(s0, val)]):
                if is_filter:
                    for s2, b in self.branch(s1, v):
                        if b:
                            s2 = s2.fork()
                            o = s2.obj(R)
                            s2.setobj(R, o.replace(segs=o.segs + (("one", val),)))
                        r.append(Out("next", s2))
                else:
                    s1 = s1.fork()
                    o = s1.obj(R)
                    s1.setobj(R, o.replace(segs=o.segs + (("one", v),)))
                    r.append(Out("next", s1))
            return r

        for s1, segs in self.iter_segs(it, s, node):
            cur = [s1]
            for seg in segs:
                nxt = []
                for s2 in cur:
                    if seg[0] == "one":
                        nxt.extend(o.st for o in body(seg[1], s2))
                    else:
                        norm, leave = self.rep_loop(node, seg, s2, body, set())
                        nxt.extend(norm)
                        self.sink.extend(leave)
                cur = nxt
            out.extend((s2, R) for s2 in cur)
        return out

    def b_vars(self, fv, args, kw, node, st):
        return None

    def b_super(self, fv, args, kw, node, st):
        return None

    # -- external functions --------------------------------------------------
    def ext_call(self, fv, name, args, kw, node, st, awaited):
        short = name.split(".")[-1]
        if name.startswith("asyncio."):
            r = self.asyncio_call(fv, short, args, kw, node, st, awaited)
            if r is not None:
                return r
        if name in ("functools.partial",):
            s = st.fork()
            return [(s, s.alloc(Obj("partial", fv=args[0], args=tuple(args[1:]), kwargs=dict(kw))))]
        if name in ("functools.wraps", "functools.update_wrapper"):
            if short == "update_wrapper":
                return [(st, args[0])]
            return [(st, V("identity", 0))]
        if name in ("itertools.chain", "itertools.chain.from_iterable"):
            s = st
            segs = ()
            if short == "from_iterable":
                for g in self.segs_of(args[0], s):
                    for v, f in self.seg_entries(g, s):
                        segs += self.segs_of(v, s)
            else:
                for a in args:
                    x = a.a[0] if a.k == "star" else a
                    if a.k == "star":
                        for g in self.segs_of(x, s):
                            for v, f in self.seg_entries(g, s):
                                segs += self.segs_of(v, s)
                        continue
                    o = s.obj(x)
                    if o is not None and o.kind == "gen":
                        rs = self.run_generator(o, s, node)
                        if len(rs) == 1:
                            s, g = rs[0]
                            segs += g
                            continue
                    segs += self.segs_of(x, s)
            return [self.newlist(s, segs, "gen")]
        if name == "itertools.islice":
            segs = self.segs_of(args[0], st)
            bound = V("tuple", *args[1:])
            return [self.newlist(st, [("part", g, bound) for g in segs], "gen")]
        if name in ("collections.defaultdict",):
            s = st.fork()
            d = None
            if args and args[0].k == "builtin" and args[0].a[0] == "dict":
                d = Obj("dict", layers=())
            elif args and args[0].k == "builtin" and args[0].a[0] in ("list", "set"):
                d = Obj("list", lk=args[0].a[0], segs=())
            return [(s, s.alloc(Obj("dict", layers=(), default=d)))]
        if name in ("collections.OrderedDict",):
            return self.b_dict(fv, args, kw, node, st)
        if name in ("collections.deque",):
            m = kw.get("maxlen", args[1] if len(args) > 1 else NONE)
            outs = self._conv("list")(fv, args[:1], {}, node, st)
            if m is not NONE:
                nxt = []
                for s, v in outs:
                    s = s.fork()
                    o = s.obj(v)
                    n = cval(m) if is_const(m) and isinstance(cval(m), int) else None
                    s.setobj(v, o.replace(maxlen=n if n is not None else m, segs=o.segs[-n:] if n else o.segs))
                    nxt.append((s, v))
                outs = nxt
            return outs
        if name == "os.environ.copy":
            s = st.fork()
            return [(s, s.alloc(Obj("dict", layers=(("src", V("ext", "os.environ")),))))]
        if self.environ is not None and name in ("os.environ.get", "os.getenv") and args and args[0].k == "const":
            x = self.environ.get(args[0].a[0])
            return [(st, const(x) if x is not None else args[1] if len(args) > 1 else NONE)]
        if name in ("os.environ.get",) and len(args) == 2:
            return self.sym_get(V("ext", "os.environ"), args[0], args[1], st)
        if name in ("os.environ.get", "os.getenv"):
            return [(st, V("item", V("ext", "os.environ"), args[0]))]
        if name == "copy.copy" or name == "copy.deepcopy":
            o = st.obj(args[0])
            if o is not None and o.kind in ("list", "dict"):
                s = st.fork()
                return [(s, s.alloc(o))]
            return [(st, args[0])]
        if name == "weakref.WeakSet":
            return self._conv("set")(fv, args, kw, node, st)
        if name in PURE_EXT:
            if self.results is not None:
                s = st.fork()
                self.callee = fv
                given = self.results(self, s, short, None, args, kw)
                if given is not None:
                    return self.opaque_call(fv, short, None, args, kw, node, s, awaited, given=given)
            return [(st, self.term(fv, args, kw))]
        return self.opaque_call(fv, short, None, args, kw, node, st, awaited)

    def asyncio_call(self, fv, short, args, kw, node, st, awaited):
        if short in ("ensure_future", "create_task") or short == "run_coroutine_threadsafe" and self.run_tasks:
            s = st.fork()
            t = V("task", args[0], s.fresh())
            self.emit(s, "spawn", node, coro=args[0], via=fv, task=t)
            return [(s, t)]
        if short == "shield":
            return [(st, self.shield(args[0]) if self.shield else args[0])]
        if short in ("wait_for", "timeout_after"):
            s = st.fork()
            return [(s, s.alloc(Obj("waiter", mode="wait_for", args=tuple(args), kwargs=dict(kw))))]
        if short == "gather":
            s = st.fork()
            return [(s, s.alloc(Obj("waiter", mode="gather", args=tuple(args), kwargs=dict(kw))))]
        if short == "wait":
            s = st.fork()
            when, limit = kw.get("return_when"), kw.get("timeout")
            if (when is not None and "ALL_COMPLETED" not in show(when)) or (limit is not None and limit is not NONE):
                return [(s, s.alloc(Obj("waiter", mode="some", args=(V("star", args[0]),), kwargs=dict(kw))))]
            return [(s, s.alloc(Obj("waiter", mode="wait", args=(V("star", args[0]),), kwargs=dict(kw))))]
        if short == "iscoroutinefunction":
            return [(st, self.term(fv, args))]
        if short == "to_thread":
            if awaited:
                return self.thread_call(args[0], args[1:], kw, node, st)
        return None

    def thread_call(self, f, args, kw, node, st):
        s = st.fork()
        self.emit(s, "thread", node, fn=f, args=list(args))
        out = []
        for s2, v in self.call(f, list(args), dict(kw), node, s):
            s2 = s2.fork()
            self.suspend(s2, node)
            if s2.obj(v) is None and not is_const(v):
                v = V("threadval", v)
            out.append((s2, v))
        return out

    # -- methods on symbolic objects --------------------------------------------
    def sym_method(self, fv, base, name, args, kw, node, st, awaited):
        if name == "run_in_executor" and len(args) >= 2:
            return self.thread_call(args[1], args[2:], {}, node, st)
        if not awaited and not kw:
            if name == "values" and not args:
                return [(st, V("values", base))]
            if name == "items" and not args:
                return [(st, V("items", base))]
            if name == "keys" and not args:
                return [(st, base)]
            if name == "get" and len(args) in (1, 2) and not self._not_mapping(base, st):
                return self.sym_get(base, args[0], args[1] if len(args) == 2 else NONE, st)
            if name == "pop" and len(args) in (1, 2) and not self._not_mapping(base, st):
                s = st.fork()
                out = []
                if len(args) == 2:
                    rs = self.sym_get(base, args[0], args[1], s)
                else:
                    rs = self.getitem(base, args[0], s, node)
                for s2, v in rs:
                    s2 = s2.fork()
                    pe = self.emit(s2, "call", node, callee=fv, name=name, recv=base, args=list(args), kwargs={},
                                   result=v, awaited=False, target=None)
                    if len(args) == 1 and self.raises_policy is not None:
                        for exc, exact, *_ in self._policy(s2, pe):
                            s3 = s2.fork()
                            self.emit(s3, "callraised", node, call=pe, exc=exc)
                            self.do_raise(s3, exc, node, exact)
                    s2.delstore((base, args[0]))
                    out.append((s2, v))
                return out
            if name == "copy" and not args:
                if self.dict_trait(base, st):
                    s = st.fork()
                    return [(s, s.alloc(Obj("dict", layers=(("src", base),))))]
                return [(st, V("call", fv, (), (), 0))]
        if name in PURE_METHODS and not awaited:
            return [(st, self.purecall(base, name, args, kw, st))]
        return self.opaque_call(fv, name, base, args, kw, node, st, awaited)

    def dict_trait(self, base, st):
        """the value is an attribute declared as a Dict trait"""
        if base.k != "attr" or not isinstance(base.a[1], str):
            return False
        for c in self.classes_of(base.a[0], st) or ():
            for k in c.mro():
                n = k.assigns.get(base.a[1]) if not isinstance(k, str) else None
                if n is not None:
                    return isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "Dict"
        return False

    def _not_mapping(self, base, st):
        if base.k == "call" and base.a[0].k == "ext":
            n = base.a[0].a[0].split(".")[-1]
            if n[:1].isupper() and not n.endswith(("Dict", "Mapping", "Counter")):
                return True
        c = self.the_class(base, st)
        return c is not None and not self._is_mapping(c)

    def purecall(self, base, name, args, kw, st):
        if self.asks is not None:
            self.asked_with = args
            given = self.asks(self, st, base, name)
            if given is not None:
                return given
        if name == "join" and len(args) == 1:
            segs = self.segs_of(args[0], st)
            if all(g[0] == "one" for g in segs) and is_const(base):
                parts = []
                for i, g in enumerate(segs):
                    if i:
                        parts.append(base)
                    parts.append(g[1])
                return mkstr(*parts) if parts else const("")
        if name in ("encode", "decode") and not (base.k == "call" and base.a[0].k == "bm"):
            return V("call", V("bm", base, name), (), (), 0)
        return V("call", V("bm", base, name), tuple(args), _kwt(kw), 0)

    # -- methods of modelled containers -------------------------------------------
    def bm_call(self, fv, b, name, args, kw, node, st):
        o = st.obj(b)
        if o is None:
            return self.str_method(fv, b, name, args, kw, node, st)
        if o.kind == "list":
            return self.list_method(fv, b, o, name, args, kw, node, st)
        if o.kind == "dict":
            return self.dict_method(fv, b, o, name, args, kw, node, st)
        if o.kind == "gen" and name in ("__anext__", "__next__", "aclose", "close"):
            return self.opaque_call(fv, name, b, args, kw, node, st, False)
        return self.opaque_call(fv, name, b, args, kw, node, st, False)

    def str_method(self, fv, b, name, args, kw, node, st):
        if b.k == "const" and all(is_const(a) for a in args) and not kw and name != "join":
            try:
                r = getattr(b.a[0], name)(*[cval(a) for a in args])
                if isinstance(r, (list, tuple)):
                    if isinstance(r, tuple):
                        return [(st, V("tuple", *[const(x) for x in r]))]
                    return [self.newlist(st, [("one", const(x)) for x in r])]
                return [(st, const(r))]
            except Exception:
                pass
        if name == "format" and b.k == "const" and isinstance(b.a[0], str):
            import string
            parts = []
            auto = 0
            try:
                for lit, fld, spec, conv in string.Formatter().parse(b.a[0]):
                    parts.append(const(lit))
                    if fld is None:
                        continue
                    if fld == "":
                        parts.append(args[auto])
                        auto += 1
                    elif fld.isdigit():
                        parts.append(args[int(fld)])
                    elif fld in kw:
                        parts.append(kw[fld])
                    else:
                        parts.append(V("fmt", fld, *args))
                return [(st, mkstr(*parts))]
            except Exception:
                pass
        if name == "join":
            return [(s, self.purecall(b, "join", [self._reflist(segs, s)], {}, s)) if True else None
                    for s, segs in self._join_segs(args[0], st, node)]
        return [(st, self.purecall(b, name, args, kw, st))]

    def _join_segs(self, v, st, node):
        out = []
        for s, segs in self.iter_segs(v, st, node):
            out.append((s.fork(), segs))
        return out

    def _reflist(self, segs, s):
        if all(g[0] == "one" for g in segs):
            return V("tuple", *[g[1] for g in segs])
        return s.alloc(Obj("list", lk="list", segs=tuple(segs)))

    def list_method(self, fv, b, o, name, args, kw, node, st):
        s = st.fork()
        if name in ("append", "add", "appendleft", "put_nowait"):
            if name == "add" and any(g == ("one", args[0]) for g in o.segs):
                return [(s, NONE)]
            new = (("one", args[0]),)
            segs = new + o.segs if name == "appendleft" else o.segs + new
            m = getattr(o, "maxlen", None)
            if isinstance(m, int):
                segs = (segs[:m] if name == "appendleft" else segs[-m:]) if m else ()
            s.setobj(b, o.replace(segs=segs))
            self.emit(s, "append", node, obj=b, value=args[0])
            return [(s, NONE)]
        if name == "insert":
            new = (("one", args[1]),)
            s.setobj(b, o.replace(segs=new + o.segs if args[0] is const(0) else o.segs + new))
            self.emit(s, "append", node, obj=b, value=args[1])
            return [(s, NONE)]
        if name in ("extend", "update"):
            cur = [s]
            for a in args:
                nxt = []
                for s1 in cur:
                    for s2, segs in self.iter_segs(a, s1, node):
                        s2 = s2.fork()
                        o2 = s2.obj(b)
                        if o2.lk == "set":
                            segs = tuple(g for i, g in enumerate(segs) if g[0] != "one" or g not in o2.segs and g not in segs[:i])
                        s2.setobj(b, o2.replace(segs=o2.segs + tuple(segs)))
                        self.emit(s2, "extend", node, obj=b, value=a)
                        nxt.append(s2)
                cur = nxt
            return [(s2, NONE) for s2 in cur]
        if name == "clear":
            s.setobj(b, o.replace(segs=()))
            return [(s, NONE)]
        if name == "copy":
            return [(s, s.alloc(o))]
        if name in ("sort", "reverse"):
            self.emit(s, "reorder", node, value=b, how=name, kwargs=dict(kw))
            if name == "reverse":
                s.setobj(b, o.replace(segs=tuple(reversed(o.segs))))
            return [(s, NONE)]
        if name in ("discard", "remove"):
            segs = tuple(g for g in o.segs if g != ("one", args[0]))
            if name == "remove" and ("one", args[0]) in o.segs:
                if o.lk == "list":
                    i = o.segs.index(("one", args[0]))
                    segs = o.segs[:i] + o.segs[i + 1:]
            elif name == "remove" and all(g[0] == "one" and _fixed(g[1]) for g in o.segs) and _fixed(args[0]):
                return self.do_raise(s, "KeyError" if o.lk == "set" else "ValueError", node)
            if any(g[0] != "one" for g in segs):
                segs = tuple(g if g[0] != "rep" else ("part", g) for g in segs)
            s.setobj(b, o.replace(segs=segs))
            self.emit(s, "remove", node, obj=b, value=args[0])
            return [(s, NONE)]
        if name in ("pop", "popleft", "popitem"):
            if o.segs and all(g[0] == "one" for g in o.segs):
                i = -1
                if name == "popleft" or (args and args[0] is const(0)):
                    i = 0
                segs = list(o.segs)
                v = segs.pop(i)[1]
                s.setobj(b, o.replace(segs=tuple(segs)))
                return [(s, v)]
            out = []
            for g in o.segs:
                for v, f in self.seg_entries(g, s):
                    m = s.facts if f is None else s.facts.merge(f)
                    if m is not None:
                        s2 = s.with_facts(m)
                        s2.setobj(b, o.replace(segs=tuple(("part", g2) if g2[0] != "part" else g2 for g2 in o.segs)))
                        out.append((s2, v))
            return out or self.do_raise(s, "IndexError", node)
        if name in ("union", "difference", "intersection", "symmetric_difference"):
            r = [(s, b)]
            for a in args:
                r = [x for s1, v in r for x in self.set_op(
                    {"union": "|", "difference": "-", "intersection": "&"}.get(name, "^"), v, a, s1, node)]
            return r
        if name in ("difference_update", "intersection_update"):
            out = []
            for s1, v in self.set_op("-" if name[0] == "d" else "&", b, args[0], s, node):
                s1 = s1.fork()
                s1.setobj(b, s1.obj(v))
                out.append((s1, NONE))
            return out
        if name in ("isdisjoint", "issubset", "issuperset") and len(args) == 1:
            x, y = (args[0], b) if name == "issuperset" else (b, args[0])
            out = []
            for s1, v in self.set_op("&" if name == "isdisjoint" else "-", x, y, s, node):
                out += [(s2, const(not t)) for s2, t in self.branch(s1, v)]
            return out
        if name in ("index", "count", "issubset", "issuperset", "isdisjoint"):
            return [(s, V("call", V("bm", self._listterm(b, s), name), tuple(self._listterm(a, s) for a in args), (), 0))]
        return self.opaque_call(fv, name, b, args, kw, node, st, False)

    def _listterm(self, v, st):
        o = st.obj(v)
        if o is not None and o.kind == "list":
            if len(o.segs) == 1 and o.segs[0][0] == "sym":
                return o.segs[0][1]
            return V("listof", *[self._segterm(g) for g in o.segs])
        return v

    def set_op(self, op, a, b, st, node):
        s = st.fork()
        if op == "|":
            segs = self.segs_of(a, s) + self.segs_of(b, s)
            if all(g[0] == "one" and is_const(g[1]) for g in segs):
                segs = tuple(dict.fromkeys(segs))
            return [(s, s.alloc(Obj("list", lk="set", segs=segs)))]
        if op in ("&",) and all(g[0] == "one" for g in self.segs_of(a, s)) and not all(
                g[0] == "one" for g in self.segs_of(b, s)):
            a, b = b, a
        # filter the entries of a by (non-)membership in b
        R = s.alloc(Obj("list", lk="set", segs=()))

        def body(val, s0):
            r = []
            t = self.contains(val, b, s0)
            for s1, bb in self.branch(s0, t):
                if bb == (op == "&"):
                    s1 = s1.fork()
                    o = s1.obj(R)
                    s1.setobj(R, o.replace(segs=o.segs + (("one", val),)))
                r.append(Out("next", s1))
            return r

        cur = [s]
        for seg in self.segs_of(a, s):
            nxt = []
            for s2 in cur:
                if seg[0] == "one":
                    nxt.extend(o.st for o in body(seg[1], s2))
                else:
                    norm, leave = self.rep_loop(node, seg, s2, body, set())
                    nxt.extend(norm)
            cur = nxt
        return [(s2, R) for s2 in cur]

    def dict_method(self, fv, b, o, name, args, kw, node, st):
        from .interp import _addkv

        s = st.fork()
        if name == "get":
            return self.dict_get(b, o, args[0], s, node, args[1] if len(args) > 1 else NONE)
        if name in ("keys",):
            return [(s, s.alloc(Obj("list", lk="set", segs=self.segs_of(b, s))))]
        if name in ("items", "values"):
            segs = []
            for l in self._live_layers(o):
                if l[0] == "kv":
                    segs.append(("one", V("tuple", l[1], l[2]) if name == "items" else l[2]))
                elif l[0] == "src":
                    segs.append(("sym", V(name, l[1])))
                elif l[0] == "rep":
                    segs.append(("rep", tuple((V("tuple", k, v) if name == "items" else v, f) for k, v, f in l[1])))
            return [(s, s.alloc(Obj("list", lk="gen", segs=tuple(segs))))]
        if name == "update":
            layers = o.layers
            for a in args:
                ao = s.obj(a)
                if ao is not None and ao.kind == "list":
                    r = self.b_dict(None, [a], {}, node, s)
                    s, d = r[0]
                    new = s.obj(d).layers
                else:
                    m = self.mapping_items(a, s, node)
                    if m is not None:
                        s, new = m
                    else:
                        new = self.layers_of(a, s)
                for l in new:
                    layers = _addkv(layers, l[1], l[2]) if l[0] == "kv" else layers + (l,)
            kw = dict(kw)
            for u in kw.pop("**", ()):
                layers += self.layers_of(u, s)
            for k, v in kw.items():
                layers = _addkv(layers, const(k), v)
            s.setobj(b, s.obj(b).replace(layers=layers))
            self.emit(s, "dictupdate", node, obj=b)
            return [(s, NONE)]
        if name == "pop":
            out = []
            for s2, v in self.dict_get(b, o, args[0], s, node, args[1] if len(args) > 1 else None):
                s2 = s2.fork()
                o2 = s2.obj(b)
                ls = tuple(l for l in o2.layers if not (l[0] == "kv" and l[1] is args[0]))
                if any(l[0] != "kv" for l in ls):
                    ls += (("del", args[0]),)
                s2.setobj(b, o2.replace(layers=ls))
                out.append((s2, v))
            return out
        if name == "setdefault":
            out = []
            d = args[1] if len(args) > 1 else NONE
            for s2, v in self.dict_get(b, o, args[0], s, node, d):
                s2 = s2.fork()
                o2 = s2.obj(b)
                if v is d:
                    s2.setobj(b, o2.replace(layers=_addkv(o2.layers, args[0], d)))
                out.append((s2, v))
            return out
        if name == "copy":
            return [(s, s.alloc(o))]
        if name == "clear":
            s.setobj(b, o.replace(layers=()))
            return [(s, NONE)]
        if name == "move_to_end":
            return [(s, NONE)]
        return self.opaque_call(fv, name, b, args, kw, node, st, False)

    def _live_layers(self, o):
        seen = set()
        out = []
        for l in reversed(o.layers):
            if l[0] == "kv":
                if l[1] in seen:
                    continue
                seen.add(l[1])
            elif l[0] == "del":
                seen.add(l[1])
                continue
            out.append(l)
        out.reverse()
        return out


def _kwt(kw):
    out = []
    for k, v in sorted(kw.items()):
        if isinstance(v, tuple):
            v = V("tuple", *v)
        out.append((k, v))
    return tuple(out)
