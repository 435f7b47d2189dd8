"""Abstract machine state of one path: frames, heap, stores, facts, trace."""
from .values import V, Facts, show


class Obj:
    """Immutable abstract heap object (replaced on mutation)."""

    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def replace(self, **kw):
        o = Obj(self.kind)
        o.d = dict(self.d)
        o.d.update(kw)
        return o

    def __eq__(self, o):
        return isinstance(o, Obj) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash((self.kind, len(self.d)))

    def __repr__(self):
        return f"Obj({self.kind}, {self.d})"


class Ev:
    """One event of a path: something the program does."""

    __slots__ = ("kind", "node", "func", "a", "facts", "heap", "store", "stack")

    def __init__(self, kind, node, func, facts, heap, store, stack, **a):
        self.kind = kind
        self.node = node
        self.func = func
        self.facts = facts
        self.heap = heap
        self.store = store
        self.stack = stack
        self.a = a

    def __getattr__(self, k):
        try:
            return self.a[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, d=None):
        return self.a.get(k, d)

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def loc(self):
        m = self.func.module if self.func else None
        return f"{m.rel()}:{self.line}" if m else f"?:{self.line}"

    def __repr__(self):
        return f"<{self.kind} {self.line} {({k: v for k, v in self.a.items() if k != 'bodies'})}>"


class Out:
    """Outcome of executing statements."""

    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val

    def __repr__(self):
        return f"<Out {self.kind} {self.val}>"


class State:
    __slots__ = ("frames", "heap", "store", "facts", "trace", "n", "epoch", "active", "ghost")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.store = {}
        self.facts = Facts()
        self.trace = None
        self.n = 0
        self.epoch = 0
        self.active = ()
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = self.frames
        s.heap = self.heap
        s.store = self.store
        s.facts = self.facts
        s.trace = self.trace
        s.n = self.n
        s.epoch = self.epoch
        s.active = self.active
        s.ghost = self.ghost
        return s

    def with_facts(self, f):
        if f is None:
            return None
        s = self.fork()
        s.facts = f
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def alloc(self, obj):
        rid = self.fresh()
        self.heap = dict(self.heap)
        self.heap[rid] = obj
        return V("ref", rid)

    def obj(self, v):
        if isinstance(v, V) and v.k == "ref":
            return self.heap.get(v.a[0])
        return None

    def setobj(self, v, obj):
        self.heap = dict(self.heap)
        self.heap[v.a[0]] = obj

    def setvar(self, fid, name, val):
        self.frames = dict(self.frames)
        fr = dict(self.frames[fid])
        fr[name] = val
        self.frames[fid] = fr

    def delvar(self, fid, name):
        self.frames = dict(self.frames)
        fr = dict(self.frames[fid])
        fr.pop(name, None)
        self.frames[fid] = fr

    def setstore(self, key, val):
        self.store = dict(self.store)
        self.store[key] = val

    def delstore(self, key):
        if key in self.store:
            self.store = dict(self.store)
            del self.store[key]

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def key(self):
        return (
            id(self.trace) if self.trace else 0,
            self.facts.key(),
            tuple(sorted((k, tuple(sorted(v.items(), key=lambda x: x[0]))) for k, v in self.frames.items())),
            frozenset(self.store.items()),
            frozenset((k, id(v)) for k, v in self.heap.items()),
            self.epoch,
        )


def events(trace, upto=None):
    out = []
    while trace is not upto and trace is not None:
        out.append(trace[1])
        trace = trace[0]
    out.reverse()
    return out


def walk_events(evs):
    """All events, descending into loop bodies."""
    for e in evs:
        yield e
        if e.kind == "loop":
            for b in e.bodies:
                yield from walk_events(b.events)


class Body:
    """One abstract iteration of a loop."""

    __slots__ = ("elem", "kind", "events", "facts")

    def __init__(self, elem, kind, events, facts):
        self.elem = elem
        self.kind = kind
        self.events = events
        self.facts = facts


_COUNTER = [0]


def _fresh(self):
    _COUNTER[0] += 1
    self.n = _COUNTER[0]
    return self.n


State.fresh = _fresh
