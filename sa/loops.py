"""Loops: unrolled over literal collections, otherwise joined to a fixpoint over a
representative element."""
import ast

from .program import Broken
from .query import subterms
from .state import Body, Ev, Obj, Out, State, events
from .values import FALSE, NONE, TRUE, Facts, V, boolv, const, is_const


def _const_iters(v):
    return None


class LoopsMixin:
    UNROLL = 12

    # -- what an iterable yields ---------------------------------------------
    def segs_of(self, v, st):
        o = st.obj(v)
        if o is not None and o.kind == "list":
            return o.segs
        if o is not None and o.kind == "dict":
            segs = ()
            for l in o.layers:
                if l[0] == "kv":
                    segs += (("one", l[1]),)
                elif l[0] == "src":
                    segs += (("sym", l[1]),)
                elif l[0] == "rep":
                    segs += (("rep", tuple((k, f) for k, _, f in l[1])),)
            return segs
        if v.k == "tuple":
            return tuple(("one", x) for x in v.a)
        if v.k == "const" and isinstance(v.a[0], str) and len(v.a[0]) <= self.UNROLL:
            return tuple(("one", const(c)) for c in v.a[0])
        return (("sym", v),)

    def iter_segs(self, v, st, node):
        """-> list of (state, segs); runs project generators"""
        o = st.obj(v)
        if o is not None and o.kind == "gen":
            return self.run_generator(o, st, node)
        if o is not None and o.kind == "inst":
            c = self.prog.classes.get(o.cls)
            f = c.find_method("__iter__") if c else None
            if f is not None:
                out = []
                for s, r in self.inline(f, v, [], {}, st, node):
                    out.extend(self.iter_segs(r, s, node))
                return out
        return [(st, self.segs_of(v, st))]

    def run_generator(self, o, st, node):
        s = st.fork()
        y = s.alloc(Obj("list", lk="list", segs=()))
        out = []
        for s2, _ in self.inline(o.func, o.selfv, list(o.args), dict(o.kwargs), s, node,
                                 awaited=True, force=True, yield_to=y, chain=o.chain):
            out.append((s2, s2.obj(y).segs))
        return out

    def seg_entries(self, seg, st):
        """-> list of (value, Facts or None)"""
        if seg[0] == "one":
            return [(seg[1], None)]
        if seg[0] == "rep":
            return [(e[0], e[1]) for e in seg[1]]
        if seg[0] == "part":
            return self.seg_entries(seg[1], st)
        it = seg[1]
        d = sum(1 for a in st.active if a.k == "elem" and a.a[0] is it)
        if it.k == "items":
            m = it.a[0]
            return [(V("tuple", V("elem", m), V("elem", V("values", m))), None)]
        e = V("elem", it) if d == 0 else V("elem", it, d)
        return [(e, None)]

    # -- for -------------------------------------------------------------------
    def assigned_names(self, node):
        tab = self._asg = getattr(self, "_asg", {})
        if id(node) not in tab:
            names = set()
            stack = list(node) if isinstance(node, list) else [node]
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    for w in ast.walk(x):
                        if isinstance(w, ast.NamedExpr):
                            names.add(w.target.id)
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    names.add(x.name)
                stack.extend(ast.iter_child_nodes(x))
            tab[id(node)] = (names, node)
        return tab[id(node)][0]

    def for_loop(self, n, st):
        outs = []
        is_async = isinstance(n, ast.AsyncFor)
        assigned = self.assigned_names(n.body) | self.assigned_names(n.target)
        for s, it in self.ev(n.iter, st):
            g = s.obj(it)
            if is_async and g is not None and g.kind == "gen":
                outs.extend(self.for_generator(n, g, s))
                continue
            for s1, segs in self.iter_segs(it, s, n):
                opaque = is_async and not (s1.obj(it) is not None and s1.obj(it).kind == "gen")

                def body(val, s0):
                    r = []
                    if opaque:
                        s0 = s0.fork()
                        self.suspend(s0, n)
                        r.extend(self.opaque_raises(s0, it, n))
                    for s2 in self.assign(n.target, val, s0):
                        r.extend(self.exec_block(n.body, s2))
                    return r

                cur = [s1]
                if opaque:
                    s1 = s1.fork()
                    self.emit(s1, "aiter", n, iterable=it)
                    cur = [s1]
                broke = []
                ones = sum(1 for g in segs if g[0] == "one")
                if ones > self.UNROLL:
                    segs = (("rep", tuple((g[1], None) if g[0] == "one" else e for g in segs
                                          for e in ([0] if g[0] == "one" else self.seg_entries(g, s1))))
                            ,) if all(g[0] == "one" for g in segs) else segs
                for seg in segs:
                    nxt = []
                    for s2 in cur:
                        if seg[0] == "one":
                            for o in self.with_sink(lambda: body(seg[1], s2)):
                                if o.kind in ("next", "cont"):
                                    nxt.append(o.st)
                                elif o.kind == "break":
                                    broke.append(o.st)
                                else:
                                    outs.append(o)
                        else:
                            norm, leave = self.rep_loop(n, seg, s2, body, assigned)
                            nxt.extend(norm)
                            for o in leave:
                                if o.kind == "break":
                                    broke.append(o.st)
                                else:
                                    outs.append(o)
                    cur = self.dedupe(nxt)
                if opaque:
                    # the iteration itself may suspend and fail before/after any item
                    nxt = []
                    for s2 in cur:
                        s2 = s2.fork()
                        self.suspend(s2, n)
                        outs.extend(self.opaque_raises(s2, it, n))
                        nxt.append(s2)
                    cur = nxt
                for s2 in cur:
                    if n.orelse:
                        outs.extend(self.exec_block(n.orelse, s2))
                    else:
                        outs.append(Out("next", s2))
                outs.extend(Out("next", s2) for s2 in broke)
        return outs

    def for_generator(self, n, g, st):
        """the body runs at every yield of the generator, between its own steps"""
        outer = self.ctx
        left = []

        def wbody(v, s1):
            inner, self.ctx = self.ctx, outer
            stk, self.stack = self.stack, list(self.stack)
            try:
                res = []

                def body():
                    r = []
                    for s2 in self.assign(n.target, v, s1):
                        r.extend(self.exec_block(n.body, s2))
                    return r

                for o in self.with_sink(body):
                    if o.kind in ("next", "cont"):
                        res.append((o.st, NONE))
                    else:
                        # the generator is abandoned where it stands
                        left.append(o)
                return res
            finally:
                self.ctx = inner
                self.stack = stk

        outs = []

        def go():
            for s2, _ in self.inline(g.func, g.selfv, list(g.args), dict(g.kwargs), st, n, awaited=True, force=True, wbody=wbody, chain=g.chain):
                if n.orelse:
                    outs.extend(self.exec_block(n.orelse, s2))
                else:
                    outs.append(Out("next", s2))
            return []

        outs.extend(self.with_sink(go))
        outs.extend(Out("next", o.st) if o.kind == "break" else o for o in left)
        return outs

    def with_sink(self, fn):
        save, self.sink = self.sink, []
        try:
            r = fn()
            return list(r) + self.sink
        finally:
            self.sink = save

    def while_loop(self, n, st):
        outs = []
        assigned = self.assigned_names(n.body) | self.assigned_names(n.test)
        if self.unroll:
            return self.unrolled(n, st, assigned)
        return self.while_fix(n, st, assigned)

    def unrolled(self, n, st, assigned):
        """follow the iterations one by one; past the bound, the fixpoint"""
        outs = []
        cur = [st]
        for _ in range(self.unroll):
            nxt = []
            for s0 in cur:
                for s, b in self.ev_cond(n.test, s0):
                    if not b:
                        outs.extend(self.exec_block(n.orelse, s) if n.orelse else [Out("next", s)])
                        continue
                    for o in self.exec_block(n.body, s):
                        if o.kind in ("next", "cont"):
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("next", o.st))
                        else:
                            outs.append(o)
            cur = nxt
            if not cur:
                return outs
        for s in cur:
            outs.extend(self.while_fix(n, s, assigned))
        return outs

    def while_fix(self, n, st, assigned):
        outs = []

        def body(val, s0):
            r = []
            for s, b in self.ev_cond(n.test, s0):
                if b:
                    r.extend(self.exec_block(n.body, s))
                else:
                    r.append(Out("exit", s))
            return r

        norm, leave = self.rep_loop(n, ("while",), st, body, assigned)
        for o in leave:
            if o.kind == "exit":
                if n.orelse:
                    outs.extend(self.exec_block(n.orelse, o.st))
                else:
                    outs.append(Out("next", o.st))
            elif o.kind == "break":
                outs.append(Out("next", o.st))
            else:
                outs.append(o)
        return outs

    # -- the fixpoint ------------------------------------------------------------
    def dom_of(self, v, st):
        """finite domain of a value (frozenset of constants) or None"""
        if v is None:
            return None
        if is_const(v):
            return frozenset([v])
        return st.facts.dom.get(v)

    def rep_loop(self, node, seg, pre, body_fn, assigned):
        """-> (states after normal exhaustion, leaving outcomes)"""
        fid = self.ctx.fid
        fr = pre.frames.get(fid, {}) if fid is not None else {}
        phis = {}
        for nm in sorted(assigned):
            if nm in fr:
                phis[nm] = (V("phi", nm, pre.fresh()), self.dom_of(fr[nm], pre))
        objs = {}
        stores = {}
        susp = False
        extra = {}
        is_while = seg[0] == "while"
        held = set()
        for x in pre.active:
            held |= set(subterms(x))
        percell = {}
        for rnd in range(6):
            gen = pre.fork()
            gen.trace = None
            for nm, (t, d) in phis.items():
                gen.setvar(fid, nm, t)
                if d is not None:
                    gen.facts = gen.facts.copy()
                    gen.facts.dom[t] = d
            if objs or extra:
                gen.heap = {**extra, **gen.heap, **objs}
            for k, (t, d) in stores.items():
                gen.setstore(k, t)
                if d is not None:
                    gen.facts = gen.facts.copy()
                    gen.facts.dom[t] = d
            if susp:
                self.bump(gen)
            results = []
            entries = [(None, None)] if is_while else self.seg_entries(seg, gen)
            for val, facts in entries:
                s = self.forget_witness(gen, val, pre)
                if facts is not None:
                    f = s.facts.merge(facts)
                    if f is None:
                        continue
                    s = gen.with_facts(f)
                s = s.fork()
                if val is not None:
                    s.active = s.active + (val,)
                for o in self.with_sink(lambda: body_fn(val, s)):
                    o.st = o.st.fork()
                    o.st.active = pre.active
                    results.append((val, o))
            cont = [(v, o) for v, o in results if o.kind in ("next", "cont")]
            changed = False
            # variables
            for nm, (t, d) in list(phis.items()):
                if d is None:
                    continue
                nd = d
                for v, o in cont:
                    x = o.st.frames.get(fid, {}).get(nm)
                    if x is t:
                        continue
                    dx = self.dom_of(x, o.st)
                    if dx is None:
                        nd = None
                        break
                    nd = nd | dx
                if nd != d:
                    phis[nm] = (t, nd)
                    changed = True
            # heap
            newobjs = {}
            for v, o in results:
                for rid, obj in o.st.heap.items():
                    if rid not in pre.heap:
                        extra.setdefault(rid, obj)
            for v, o in cont:
                for rid, obj in o.st.heap.items():
                    if rid not in pre.heap:
                        continue
                    g = gen.heap[rid]
                    if obj is g or obj == g:
                        continue
                    new = self.generalise(pre.heap[rid], newobjs.get(rid), g, obj, o.st.facts, pre)
                    if new is not None:
                        newobjs[rid] = new
            for rid in newobjs:
                if rid not in objs:
                    changed = True
            objs = {**objs, **newobjs}
            # stores
            for v, o in cont:
                if o.st.store is not gen.store:
                    keys = set(o.st.store) | set(gen.store)
                    for k in keys:
                        x = o.st.store.get(k)
                        g = gen.store.get(k)
                        if x is g:
                            continue
                        if v is not None and isinstance(k[0], V) and any(y.k == "elem" and y not in held for y in subterms(k[0])) \
                                and any(y.k == "elem" and y not in held and y in set(subterms(k[0])) for y in subterms(v)):
                            # an attribute of the element itself: the next iteration has another element
                            percell[k] = True
                            continue
                        if k not in stores:
                            p = pre.store.get(k)
                            if p is None:
                                p = V("attr", k[0], k[1], self.ver(k[0], k[1], pre)) if isinstance(k[1], str) else V("item", k[0], k[1])
                            d = self.dom_of(p, pre)
                            dx = self.dom_of(x, o.st) if x is not None else None
                            stores[k] = (V("loopval", pre.fresh()), d | dx if d is not None and dx is not None else None)
                            changed = True
                        else:
                            t, d = stores[k]
                            if d is not None and x is not t:
                                dx = self.dom_of(x, o.st) if x is not None else None
                                nd = d | dx if dx is not None else None
                                if nd != d:
                                    stores[k] = (t, nd)
                                    changed = True
            if not susp and any(o.st.epoch > gen.epoch for v, o in results):
                susp = True
                changed = True
            if not changed:
                break
        bodies = [Body(v, o.kind, events(o.st.trace), o.st.facts) for v, o in results]
        base = pre.fork()
        self.emit(base, "loop", node, seg=seg, bodies=bodies)
        # state after normal exhaustion
        norm = []
        if not is_while:
            a = base.fork()
            a.facts = self.universal(gen.facts, results)
            a.frames = gen.frames
            a.heap = {**extra, **gen.heap, **objs}
            a.store = gen.store
            for k in percell:
                a.setstore(k, V("loopval", pre.fresh()))
            a.epoch = gen.epoch
            a.active = pre.active
            # variables first assigned inside the loop: keep one representative
            if fid is not None:
                newv = {}
                for v, o in cont:
                    for nm, x in o.st.frames.get(fid, {}).items():
                        if nm not in gen.frames.get(fid, {}) and not nm.startswith("__"):
                            newv.setdefault(nm, []).append(x)
                for nm, xs in newv.items():
                    a.setvar(fid, nm, xs[0] if len(set(xs)) == 1 else V("phi", nm, a.fresh()))
            norm.append(a)
        leave = []
        for v, o in results:
            if o.kind in ("next", "cont"):
                continue
            s = o.st.fork()
            s.active = pre.active
            tr = base.trace
            for e in events(o.st.trace):
                tr = (tr, e)
            s.trace = tr
            leave.append(Out(o.kind, s, o.val))
        return norm, leave

    def forget_witness(self, st, val, pre):
        """facts about one element that an earlier loop stopped at say nothing of the others"""
        if val is None or not isinstance(val, V):
            return st
        els = {x for x in subterms(val) if x.k == "elem" and x not in set(pre.active)}
        f0 = st.facts
        els = {x for x in els if f0.tr.get(V("every", x)) is not True}
        if not els:
            return st

        def hit(k):
            return any(x in els for y in (k if isinstance(k, tuple) else (k,)) for x in subterms(y))
        if not any(hit(k) for d in (f0.dom, f0.tr, f0.ne, f0.rel) for k in d):
            return st
        f = f0.copy()
        for d in (f.dom, f.tr, f.ne, f.rel):
            for k in list(d):
                if hit(k):
                    del d[k]
        return st.with_facts(f)

    def universal(self, facts, results):
        """facts about every element, known because every iteration completed"""
        if all(o.kind in ("next", "cont") for v, o in results):
            return facts
        f = None
        by = {}
        for v, o in results:
            if v is not None and o.kind in ("next", "cont"):
                by.setdefault(v, []).append(o.st.facts)
        for v, fs in by.items():
            els = [x for x in subterms(v) if x.k == "elem"]
            if not els:
                continue
            if sum(1 for w in by if any(x in set(subterms(w)) for x in els)) > 1:
                continue
            for k in fs[0].dom:
                if not any(x in set(subterms(k)) for x in els) or not all(k in g.dom for g in fs):
                    continue
                d = frozenset().union(*[g.dom[k] for g in fs])
                if facts.dom.get(k) != d:
                    f = f or facts.copy()
                    f.dom[k] = d
                    f.tr[V("every", els[0])] = True
            for k, b in fs[0].tr.items():
                if k not in facts.tr and any(x in set(subterms(k)) for x in els) and all(g.tr.get(k) == b for g in fs):
                    f = f or facts.copy()
                    f.tr[k] = b
                    f.tr[V("every", els[0])] = True
        return f or facts

    def bump(self, st):
        self.suspend(st, None, silent=True)

    def generalise(self, pre, cur, gen, new, facts, st):
        """summary of an object mutated by one abstract iteration"""
        if pre.kind == "list" and new.kind == "list":
            base = gen.segs
            if new.segs[: len(base)] == base:
                tail = new.segs[len(base):]
                old = ()
                if cur is not None:
                    old = cur.segs[-1][1]
                ents = list(old)
                for t in tail:
                    for e in self.tail_entries(t, facts):
                        if not any(e[0] is x[0] and (e[1].key() if e[1] else None) == (x[1].key() if x[1] else None)
                                   for x in ents):
                            ents.append(e)
                return pre.replace(segs=pre.segs + (("rep", tuple(ents)),))
            # items removed or replaced
            k = V("k", *[self._segterm(s) for s in pre.segs])
            unk = ("part", ("rep", tuple(e for s in pre.segs for e in self.seg_entries(s, st))))
            ents = [e for s in new.segs for e in self.tail_entries(s, facts)]
            seen = {}
            if cur is not None:
                ents = [e for s in cur.segs for e in self.seg_entries(s, st)] + ents
            for e in ents:
                seen.setdefault((e[0], e[1].key() if e[1] else None), e)
            return pre.replace(segs=(("part", ("rep", tuple(seen.values()))),))
        if pre.kind == "dict" and new.kind == "dict":
            base = gen.layers
            ents = list(cur.layers[-1][1]) if cur is not None and cur.layers and cur.layers[-1][0] == "rep" else []
            tail = new.layers[len(base):] if new.layers[: len(base)] == base else [
                l for l in new.layers if l not in base]
            for l in tail:
                if l[0] == "kv":
                    e = (l[1], l[2], facts)
                    if not any(e[0] is x[0] and e[1] is x[1] for x in ents):
                        ents.append(e)
                elif l[0] == "src":
                    e = (V("elem", l[1]), V("elem", V("values", l[1])), facts)
                    if not any(e[0] is x[0] and e[1] is x[1] for x in ents):
                        ents.append(e)
                elif l[0] == "rep":
                    ents.extend(x for x in l[1] if x not in ents)
            return pre.replace(layers=pre.layers + (("rep", tuple(ents)),))
        if pre.kind == "inst" and new.kind == "inst":
            a = dict((cur or pre).attrs)
            ch = False
            for k, v in new.attrs.items():
                if gen.attrs.get(k) is not v:
                    if not (cur is not None and a.get(k) is not None and a[k].k == "loopval"):
                        a[k] = V("loopval", st.fresh())
                        ch = True
            return pre.replace(attrs=a) if ch else cur
        return new

    def tail_entries(self, t, facts):
        if t[0] == "one":
            return [(t[1], facts)]
        if t[0] == "rep":
            out = []
            for v, f in t[1]:
                m = facts.merge(f) if f is not None else facts
                if m is not None:
                    out.append((v, m))
            return out
        if t[0] == "part":
            return self.tail_entries(t[1], facts)
        it = t[1]
        if it.k == "items":
            return [(V("tuple", V("elem", it.a[0]), V("elem", V("values", it.a[0]))), facts)]
        return [(V("elem", it), facts)]

    # -- comprehensions ------------------------------------------------------------
    def comprehension(self, n, st, kind):
        s = st.fork()
        if kind == "dict":
            R = s.alloc(Obj("dict", layers=()))
        else:
            R = s.alloc(Obj("list", lk=kind, segs=()))
        fid = s.fresh()
        s.frames = dict(s.frames)
        s.frames[fid] = {}
        from .interp import Ctx

        outer = self.ctx
        self.ctx = Ctx(outer.func, outer.module, fid, outer.chain + (fid,), outer.cls, outer.selfv, outer.wbody)
        try:
            states = self.comp_gen(n, 0, s, R, kind)
        finally:
            self.ctx = outer
        out = []
        for s2 in states:
            s2 = s2.fork()
            s2.frames = {k: v for k, v in s2.frames.items() if k != fid}
            out.append((s2, R))
        return out

    def comp_gen(self, n, i, st, R, kind):
        if i == len(n.generators):
            out = []
            if kind == "dict":
                for s, (k, v) in [(a, b) for a, b in self.ev_list([n.key, n.value], st)]:
                    s = s.fork()
                    o = s.obj(R)
                    from .interp import _addkv
                    s.setobj(R, o.replace(layers=_addkv(o.layers, k, v)))
                    out.append(s)
            else:
                for s, v in self.ev(n.elt, st):
                    s = s.fork()
                    o = s.obj(R)
                    s.setobj(R, o.replace(segs=o.segs + (("one", v),)))
                    out.append(s)
            return out
        g = n.generators[i]

        def body(val, s0):
            r = []
            for s2 in self.assign(g.target, val, s0):
                cur = [s2]
                dropped = []
                for c in g.ifs:
                    nxt = []
                    for s3 in cur:
                        for s4, b in self.ev_cond(c, s3):
                            (nxt if b else dropped).append(s4)
                    cur = nxt
                for s3 in cur:
                    r.extend(Out("next", x) for x in self.comp_gen(n, i + 1, s3, R, kind))
                r.extend(Out("next", x) for x in dropped)
            return r

        out = []
        for s, it in self.ev(g.iter, st):
            for s1, segs in self.iter_segs(it, s, n):
                cur = [s1]
                for seg in segs:
                    nxt = []
                    for s2 in cur:
                        if seg[0] == "one":
                            for o in self.with_sink(lambda: body(seg[1], s2)):
                                if o.kind == "next":
                                    nxt.append(o.st)
                                else:
                                    self.sink.append(o)
                        else:
                            norm, leave = self.rep_loop(n, seg, s2, body, self.assigned_names(g.target))
                            nxt.extend(norm)
                            self.sink.extend(leave)
                    cur = self.dedupe(nxt)
                if kind != "dict" and len(n.generators) == 1 and not g.ifs and it.k == "ref":
                    # a map over a list is empty exactly when the list is
                    full = self.obj_truth(s, it, s.obj(it))
                    if full is not None:
                        cur = [self.known_truth(x, R, full) for x in cur]
                out.extend(cur)
        return out

    def known_truth(self, st, R, val):
        o = st.obj(R)
        if self.obj_truth(st, R, o) is not None:
            return st
        f = st.facts.copy()
        f.tr[V("nonempty", R, self._objkey(o))] = val
        return st.with_facts(f)
