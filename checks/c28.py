"""C28: Kubernetes watchers never miss a change for good.

The watcher's whole loop (with the watch and the handling of what it yields)
is followed against a small model of the API server: a history of changes, and
for every request a way to fail.  After the failures the watcher must have
told its handlers how everything ended, and its cache must say the same.
"""
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, where
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show
from .c25 import lookup

KUBE = "dask_gateway_server.backends.kubernetes."
UTILS = KUBE + "utils"
SELF = V("self", "Informer")
RAW = V("param", "the list method of the client")
NEVER = V("never")
CANCEL = "asyncio.CancelledError"
NSP = "ns"
KINDS = {"A": "ADDED", "M": "MODIFIED", "D": "DELETED"}
# changes after the start, where object "a" exists
HISTORIES = (("Ma",), ("Ab",), ("Da",), ("Da", "Aa"), ("Ab", "Db"), ("Ab", "Ma"), ("Da", "Ab"))
LIST_FAULTS = ("ok", "raise")
FAULTS = ("ok", "raise", "drop", "gone", "error", "status", "notype", "nometa", "badjson", "badresp")


class World:
    """the API server, and one watcher"""

    def __init__(self, c, history, when, faults, handler=None, cancel=None):
        self.c = c
        self.k = c.prog.cls(UTILS, "Informer")
        self.faults, self.when, self.handler = faults, when, handler
        self.changes = [("A", "a")] + [(h[0], h[1:]) for h in history]
        self.last = len(faults) + 3  # requests before the watcher is stopped
        I = self.I = Interp(c.prog, c.types, opaque=lambda f, r: f.name in ("cancel_task",), raises=self.raised, results=self.result)
        I.term_types[SELF] = self.k.qual
        I.unroll = self.last + 4
        st = self.st = I.new_state()
        self.objs = {}
        for v, (kind, key) in enumerate(self.changes, 1):
            self.objs[v] = self.obj(key, v)
        self.cache = st.alloc(Obj("dict", layers=()))
        self.client = V("attr", SELF, "client", 0)
        kw = st.alloc(Obj("dict", layers=(("kv", const("label_selector"), V("param", "the selector")),)))
        st.store = {**st.store, (SELF, "cache"): self.cache, (SELF, "method"): const("list_things"), (SELF, "method_kwargs"): kw}

    def dict(self, **kv):
        return self.st.alloc(Obj("dict", layers=tuple(("kv", const(k), v if isinstance(v, V) else const(v)) for k, v in kv.items())))

    def list(self, st, xs):
        return st.alloc(Obj("list", lk="list", segs=tuple(("one", x) for x in xs)))

    def obj(self, key, v):
        return self.dict(metadata=self.dict(namespace=NSP, name=key, resourceVersion=str(v)), spec=self.dict(version=v))

    # -- the server ---------------------------------------------------------
    def at(self, n):
        """number of changes made when request n is answered"""
        return 1 + sum(1 for w in self.when if w <= n)

    def present(self, upto):
        now = {}
        for v, (kind, key) in enumerate(self.changes[:upto], 1):
            if kind == "D":
                now.pop(key, None)
            else:
                now[key] = v
        return now

    def fault(self, n):
        return self.faults[n] if n < len(self.faults) else "ok"

    def result(self, I, st, name, func, args, kw):
        fv = I.callee
        if name == "list_things" or fv is RAW:
            return self.request(st, kw)
        if name == "readline":
            lines = st.ghost["lines"]
            if not lines:
                return const(b"")
            st.ghost = {**st.ghost, "lines": lines[1:], "line": lines[0]}
            if lines[0] == "raise":
                st.ghost = {**st.ghost, "failed": "the last one broke off"}
                return NEVER
            return const(b"x" + str(len(lines)).encode())
        if name == "loads":
            line = st.ghost["line"]
            if line == "bad":
                return NEVER
            obj = lookup(st.heap, line, "object")
            meta = lookup(st.heap, obj, "metadata")
            if meta is not None:
                st.ghost = {**st.ghost, "seen": self.ident(st, obj)[1]}
            elif lookup(st.heap, line, "type") == const("ERROR"):
                st.ghost = {**st.ghost, "failed": "the last one reported an error"}
            return line
        if name == "sanitize_for_serialization":
            return args[0] if args else None
        if name in ("on_update", "on_delete") and self.handler == name:
            return NEVER
        return None

    def request(self, st, kw):
        n = st.ghost.get("n", 0)
        watch = "watch" in kw and kw["watch"] != const(False)
        st.ghost = {**st.ghost, "n": n + 1, "raise": None}
        if n >= self.last:
            st.ghost = {**st.ghost, "raise": CANCEL}
            return NEVER
        f, now = self.fault(n), self.at(n)
        rv = kw.get("resource_version")
        bad = st.ghost.get("bad", ())
        if watch:
            if st.ghost.get("failed"):
                bad += (("RELIST", f"request {n} watches although {st.ghost['failed']}"),)
            elif rv != const(str(st.ghost.get("seen"))):
                bad += (("RESUME", f"request {n} watches from {show(rv) if rv is not None else 'any version'}, the version last seen is {st.ghost.get('seen')}"),)
        st.ghost = {**st.ghost, "bad": bad, "failed": None}
        if not watch:
            if f != "ok" or (rv is not None and rv != const("0") and rv != NONE):
                st.ghost = {**st.ghost, "raise": "RuntimeError"}
                return NEVER
            items = self.list(st, [self.objs[v] for v in self.present(now).values()])
            meta = st.alloc(Obj("dict", layers=(("kv", const("resourceVersion"), const(str(now))),)))
            st.ghost = {**st.ghost, "seen": now}
            return st.alloc(Obj("dict", layers=(("kv", const("items"), items), ("kv", const("metadata"), meta))))
        st.ghost = {**st.ghost, "watched": st.ghost.get("watched", 0) + 1}
        if f == "raise":
            st.ghost = {**st.ghost, "raise": "RuntimeError", "failed": "the last one failed"}
            return NEVER
        d = lambda **kv: st.alloc(Obj("dict", layers=tuple(("kv", const(k), v if isinstance(v, V) else const(v)) for k, v in kv.items())))
        gone = lambda code: d(type=const("ERROR"), object=d(code=const(code), message=const("no")) if code else d(kind=const("Status")))
        lines = []
        if rv is None or rv.k != "const" or not str(rv.a[0]).isdigit():
            # from "any" version: what exists now is reported, removals are not
            since, lines = now, [d(type=const("ADDED"), object=self.objs[v]) for v in self.present(now).values()]
        else:
            since = int(rv.a[0])
        if since < st.ghost.get("expired", 0) or f == "gone":
            st.ghost = {**st.ghost, "expired": max(now, st.ghost.get("expired", 0)), "lines": (gone(410),)}
            return V("param", f"answer {n}")
        for v, (kind, key) in enumerate(self.changes, 1):
            if since < v <= now:
                o = self.objs[v]
                if kind == "D":
                    o = self.gone_obj(st, key, v)
                lines.append(d(type=const(KINDS[kind]), object=o))
        extra = {"error": gone(500), "status": gone(None), "drop": "raise", "badjson": "bad", "badresp": "raise",
                 "notype": d(object=d()), "nometa": d(type=const("MODIFIED"), object=d(spec=d()))}.get(f)
        if extra is not None:
            lines = lines + [extra] if f in ("drop", "status") else [extra] + lines
        st.ghost = {**st.ghost, "lines": tuple(lines)}
        return V("param", f"answer {n}")

    def gone_obj(self, st, key, v):
        meta = st.alloc(Obj("dict", layers=(("kv", const("namespace"), const(NSP)), ("kv", const("name"), const(key)), ("kv", const("resourceVersion"), const(str(v))))))
        return st.alloc(Obj("dict", layers=(("kv", const("metadata"), meta),)))

    def raised(self, I, st, ev):
        if ev.get("result") is not NEVER:
            return None
        name = ev.get("name")
        if name == "loads":
            return [("ValueError", True)]
        if name in ("on_update", "on_delete"):
            return [("RuntimeError", True)]
        if name == "readline":
            return [("aiohttp.ClientPayloadError", True)]
        return [(st.ghost.get("raise") or "RuntimeError", True)]

    def run(self):
        f = self.k.find_method("run")
        if f is None:
            raise Broken("Informer has no run")
        outs = self.I.run_function(f, [], selfv=SELF, st=self.st)
        self.c.paths += len(outs)
        self.where = f"{f.module.rel()}:{f.line} (Informer.run)"
        return outs

    # -- what it came to -------------------------------------------------------
    def told(self, o):
        """the last thing the handlers were told about every object"""
        last = {}
        for e in walk_events(events(o.st.trace)):
            if e.kind == "call" and e.get("name") in ("on_update", "on_delete") and e.args:
                k, v = self.ident(o.st, e.args[0])
                last[k] = v if e.name == "on_update" else None
        return last

    def ident(self, st, ref):
        m = lookup(st.heap, ref, "metadata")
        name = lookup(st.heap, m, "name") if m is not None else None
        ver = lookup(st.heap, m, "resourceVersion") if m is not None else None
        cv = lambda x: x.a[0] if isinstance(x, V) and x.k == "const" else None
        return cv(name), int(cv(ver) or 0)

    def cached(self, o, key):
        f = self.k.find_method("get")
        outs = self.I.run_function(f, [const(f"{NSP}.{key}")], selfv=SELF, st=o.st)
        self.c.analysed(f)
        got = set()
        for x in outs:
            if x.kind != "ret":
                got.add("an error")
            elif x.val == NONE:
                got.add(None)
            else:
                k, v = self.ident(x.st, x.val)
                got.add(v if k == key else f"{k}@{v}")
        return got


def one(c, history, when, faults, handler=None):
    w = World(c, history, when, faults, handler)
    outs = w.run()
    text = f"changes {'+'.join(history)} before requests {','.join(map(str, when))}, requests end with {','.join(faults)}" + (f", {handler} fails" if handler else "")
    c.require(bool(outs), "ENDS", w.where, f"the watcher is not followed ({text})", key="none")
    for o in outs:
        n = o.st.ghost.get("n", 0)
        if not c.require(o.kind == "raise" and n > w.last, "ENDS", w.where, f"the watcher ends after request {n} ({text})", key="ends " + ("handler" if handler else "/".join(sorted(set(faults))))):
            continue
        c.require(contains_cancel(o.val), "ENDS", w.where, f"being stopped ends the watcher with {show(o.val)}", key="cancel")
        for rule, what in o.st.ghost.get("bad", ()):
            c.fail(rule, w.where, f"{what} ({text})", key=rule.lower())
        c.require(True, "RESUME", w.where, "")
        c.require(True, "RELIST", w.where, "")
        final = w.present(len(w.changes))
        told = w.told(o)
        for key in ("a", "b"):
            got = w.cached(o, key)
            c.require(got == {final.get(key)}, "MIRROR", w.where, f"the cache has version {show_set(got)} of an object whose version is {final.get(key)} ({text})", key="cache")
            if key in final:
                c.require(told.get(key) == final[key], "TOLD", w.where, f"the handlers last saw version {told.get(key)} of an object whose version is {final[key]} ({text})", key="update")
            else:
                c.require(told.get(key) is None, "TOLD", w.where, f"the handlers were not told that an object is gone ({text})", key="delete")
        if all(f == "ok" for f in faults):
            c.require(o.st.ghost.get("watched", 0) > 0, "MIRROR", w.where, "the watcher never watches", key="watches")
    c.analysed(*w.I.inlined)
    return w, outs


def contains_cancel(v):
    return v is not None and v.k == "exc" and "CancelledError" in str(v.a[0])


def show_set(s):
    return "/".join(map(str, sorted(s, key=str)))


def positions(history, n):
    for ws in itertools.combinations_with_replacement(range(1, n + 1), len(history)):
        yield ws


def sequences(c):
    thorough = c.tier == "thorough"
    for first in LIST_FAULTS:
        for second, third in itertools.product(FAULTS, repeat=2):
            for h in HISTORIES:
                for when in positions(h, 3):
                    if not thorough and (len(h) == 2 and len(set(when)) == 1 and when[0] == 3 or first == "raise" and len(h) == 2 and second != "ok"):
                        continue
                    one(c, h, when, (first, second, third))


def handlers(c):
    for handler in ("on_update", "on_delete"):
        for second in ("ok", "gone"):
            for h in HISTORIES:
                for when in positions(h, 2):
                    one(c, h, when, ("ok", second), handler)


def ready(c):
    """the watcher is ready only once its first listing has been handled"""
    for faults in (("ok",), ("raise", "ok")):
        w, outs = one(c, ("Ab",), (0,), faults)
        for o in outs:
            seen, done, n = set(), False, 0
            for e in walk_events(events(o.st.trace)):
                if e.kind == "call" and e.get("name") == "on_update":
                    seen.add(w.ident(o.st, e.args[0])[0])
                if e.kind == "call" and e.get("name") == "set" and e.get("callee") is not None and "initialized" in show(e.callee):
                    done = True
                    c.require(seen == {"a", "b"}, "READY", where(e), "the watcher is ready before its first listing has been handled", key="early")
            c.require(done, "READY", w.where, "the watcher never becomes ready", key="never")


# what a watcher has to be started on, and which of the controller's and the backend's handlers get it
OWNERS = ((KUBE + "controller", "KubeController", 0), (KUBE + "backend", "KubeBackend", 1))


def wired(c):
    """every watcher is started and its handlers accept what they are called with"""
    for mod, name, nargs in OWNERS:
        k = c.prog.cls(mod, name)
        me = V("self", name)
        I = Interp(c.prog, c.types, opaque=lambda f, r: f.cls is not None and f.cls.name != name)
        I.term_types[me] = k.qual
        st = I.new_state()
        f = k.find_method("setup")
        if f is None:
            raise Broken(f"{name} has no setup")
        ws = f"{f.module.rel()}:{f.line} ({name}.setup)"
        outs = I.run_function(f, [V("param", "app")] * nargs, selfv=me, st=st)
        c.paths += len(outs)
        c.analysed(f)
        n = 0
        for o in outs:
            if o.kind != "ret":
                continue
            made = {V("ref", r): x for r, x in o.st.heap.items() if x.kind == "inst" and str(x.cls).endswith(".Informer")} or {}
            evs = list(walk_events(events(o.st.trace)))
            started = {e.recv for e in evs if e.kind == "call" and e.get("name") == "start"}
            for r, x in made.items():
                n += 1
                at = dict(x.attrs)
                which = show(at.get("name"))
                c.require(r in started, "WIRE", ws, f"the {which} watcher is never started", key=f"start {name} {which}")
                for hook, args, kw in (("on_update", [V("param", "obj")], {"old": NONE}), ("on_delete", [V("param", "obj")], {})):
                    h = at.get(hook)
                    if not c.require(h is not None and h.k == "bound", "WIRE", ws, f"the {which} watcher has no {hook} handler", key=f"{hook} {name} {which}"):
                        continue
                    g = c.prog.funcs[h.a[1]]
                    c.analysed(g)
                    frame, err = I.bind(g, h.a[0], args, kw, o.st.fork())
                    ok = frame is not None and not any(v.k == "unbound" for v in frame.values())
                    c.require(ok, "WIRE", f"{g.module.rel()}:{g.line} ({g.qual})", f"{hook} of the {which} watcher is not callable the way it is called", key=f"accepts {hook} {name} {which}")
        c.require(n >= (3 if name == "KubeController" else 1), "WIRE", ws, f"{n} watchers are made", key=f"made {name}")


def begun(c):
    k = c.prog.cls(UTILS, "Informer")
    f = k.find_method("start")
    if f is None:
        raise Broken("Informer has no start")
    I = Interp(c.prog, c.types, opaque=lambda f, r: f.name == "run")
    I.term_types[SELF] = k.qual
    ws = f"{f.module.rel()}:{f.line} (Informer.start)"
    outs = I.run_function(f, [], selfv=SELF, st=I.new_state())
    c.paths += len(outs)
    c.analysed(f)
    ran = 0
    for o in outs:
        evs = list(walk_events(events(o.st.trace)))
        tasks = [e for e in evs if e.kind == "spawn"]
        ran += bool(tasks)
        for e in tasks:
            cache = e.store.get((SELF, "cache"))
            x = e.heap.get(cache.a[0]) if cache is not None and cache.k == "ref" else None
            c.require(x is not None and x.kind == "dict" and not x.layers, "READY", where(e), "the watcher runs before it has an empty cache", key="begin")
            c.require(e.store.get((SELF, "initialized")) is not None, "READY", where(e), "the watcher runs before its readiness can be waited for", key="begin event")
        ready = o.st.store.get((SELF, "initialized"), V("attr", SELF, "initialized", 0))
        waits = [e for e in evs if e.kind == "call" and e.get("name") == "wait" and contains(e.callee, lambda x: x == ready)]
        c.require(o.kind == "ret" and bool(waits), "READY", ws, "a watcher is started without waiting for its first listing", key="wait")
    c.require(ran > 0, "READY", ws, "starting a watcher does not run it", key="run")
    I = Interp(c.prog, c.types, opaque=lambda f, r: f.name == "run")
    st = I.new_state()
    S = st.alloc(Obj("inst", cls=k.qual, attrs={}))
    I.closed = {S}
    for o in I.run_function(f, [], selfv=S, st=st):
        ran = [e for e in walk_events(events(o.st.trace)) if e.kind == "spawn"]
        c.require(o.kind == "ret" and len(ran) == 1, "READY", ws, "a new watcher is not run once it is started", key="first")


def limited(c):
    """the client that limits the rate of requests passes them on as they are"""
    k = c.prog.cls(UTILS, "RateLimitedClient")
    me = V("self", "RateLimitedClient")
    f = k.find_method("__getattr__")
    if f is None:
        raise Broken("RateLimitedClient has no __getattr__")
    I = Interp(c.prog, c.types)
    I.term_types[me] = k.qual
    st = I.new_state()
    limiter = V("param", "the rate limiter")
    st.store = {**st.store, (me, "_cache"): st.alloc(Obj("dict", layers=())), (me, "rate_limiter"): limiter}
    ws = f"{f.module.rel()}:{f.line} (RateLimitedClient)"
    a, b = V("param", "first"), V("param", "second")
    n = 0
    for first in ("list_things", "list_others"):
        for o in I.run_function(f, [const(first)], selfv=me, st=st):
            if o.kind != "ret":
                continue
            for o1 in I.run_function(f, [const("list_things")], selfv=me, st=o.st):
                if o1.kind != "ret":
                    continue
                x = o1.st.obj(o1.val)
                if not c.require(x is not None and x.kind == "closure", "CLIENT", ws, "a method of the client is not passed on", key="method"):
                    continue
                for r in I.run_value(o1.val, [a, b], o1.st):
                    n += 1
                    calls = [e for e in walk_events(events(r.st.trace)) if e.kind == "call" and e.get("name") == "list_things"]
                    ok = r.kind == "ret" and len(calls) == 1 and list(calls[0].args) == [a, b] and not calls[0].kwargs and contains(r.val, lambda x: x == calls[0].result) if calls else False
                    c.require(ok, "CLIENT", ws, "a request is not passed on as it is", key="request")
                    got = {e.result for e in walk_events(events(r.st.trace)) if e.kind == "call" and e.get("name") == "acquire" and contains(e.callee, lambda x: x == limiter)}
                    seq = ["list_things" if e.kind == "call" and e.get("name") == "list_things" else "acquire" for e in walk_events(events(r.st.trace)) if e.kind == "await" and e.get("value") in got or e.kind == "call" and (e.get("name") == "list_things" or e.result in got and e.get("awaited"))]
                    c.require(len(got) == 1 and "list_things" in seq and seq[: seq.index("list_things")] == ["acquire"], "CLIENT", ws, "a request does not wait for the rate limiter", key="limited")
    c.paths += n
    c.analysed(f)
    c.require(n > 0, "CLIENT", ws, "requests are not followed", key="none")


def run(c):
    c.rule("ENDS", "only being cancelled ends a watcher: no failing request, broken stream, error or malformed event, or failing handler does")
    c.rule("RESUME", "a watch continues from the version last listed or seen in an event")
    c.rule("RELIST", "after a request that failed, broke off or reported an error comes a listing")
    c.rule("MIRROR", "after failures of every kind its cache holds exactly the objects that exist, in their latest version")
    c.rule("TOLD", "the handlers have been told the final version of everything that exists and of everything that is gone")
    c.rule("READY", "a watcher is ready once, and only when, its first listing has been handled")
    c.rule("WIRE", "the controller's and the backend's watchers are all started, and their handlers accept the arguments they are called with")
    c.rule("CLIENT", "the rate-limited client waits for the limiter once and passes every request on unchanged, to the method it was made for")
    c.analysed()
    wired(c)
    begun(c)
    limited(c)
    sequences(c)
    handlers(c)
    ready(c)
    c.floor("MIRROR", 500)
