"""Abstract values (interned terms) and the fact store of one abstract path."""


class V:
    """Interned term: kind + args.  Equality is identity."""

    __slots__ = ("k", "a", "n", "__weakref__")
    _tab = {}
    _cnt = 0

    def __new__(cls, k, *a):
        key = (k, tuple((x, type(x)) if not isinstance(x, V) else x for x in a))
        v = cls._tab.get(key)
        if v is None:
            v = object.__new__(cls)
            v.k = k
            v.a = a
            V._cnt += 1
            v.n = V._cnt
            cls._tab[key] = v
        return v

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n

    def __reduce__(self):
        return (V, (self.k,) + self.a)


NAN = float("nan")


def const(x):
    if isinstance(x, (str, bytes, int, float, bool, type(None), complex)) or x is Ellipsis:
        if isinstance(x, float) and x != x:
            return V("const", NAN)
        return V("const", x)
    raise TypeError(x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def boolv(b):
    return TRUE if b else FALSE


def enum(cls, member, value):
    return V("enum", cls, member, value)


def is_const(v):
    return v.k in ("const", "enum")


def cval(v):
    return v.a[0] if v.k == "const" else v.a[2]


def truth_const(v):
    """truthiness of a constant-like value, or None if unknown"""
    if v.k == "const":
        return bool(v.a[0])
    if v.k == "enum":
        return bool(v.a[2])
    if v.k in ("func", "cls", "mod", "ext", "builtin", "bound", "task"):
        return True
    if v.k == "str":
        if any(p.k == "const" and p.a[0] for p in v.a):
            return True
        return None
    if v.k == "tuple":
        return len(v.a) > 0
    return None


def mkstr(*parts):
    """Canonical string concatenation."""
    out = []
    for p in parts:
        if p.k == "str":
            sub = p.a
        elif p.k == "binop" and p.a[0] == "+":
            sub = mkstr(p.a[1], p.a[2])
            sub = sub.a if sub.k == "str" else (sub,)
        else:
            sub = (p,)
        for q in sub:
            if q.k == "const" and not isinstance(q.a[0], (str, bytes)):
                q = const(str(q.a[0]))
            if q.k == "const" and q.a[0] in ("", b""):
                continue
            if (
                out
                and out[-1].k == "const"
                and q.k == "const"
                and type(out[-1].a[0]) is type(q.a[0])
            ):
                out[-1] = const(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].k == "const":
        return out[0]
    return V("str", *out)


def show(v, depth=0):
    if not isinstance(v, V):
        return repr(v)
    if depth > 6:
        return "..."
    s = lambda x: show(x, depth + 1)
    k, a = v.k, v.a
    if k == "const":
        return repr(a[0])
    if k == "enum":
        return f"{a[0].split('.')[-1]}.{a[1]}"
    if k == "param":
        return a[0]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}" + (f"@{a[2]}" if a[2] else "")
    if k == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "call":
        args = [s(x) for x in a[1]] + [f"{n}={s(x)}" for n, x in a[2]]
        return f"{s(a[0])}({', '.join(args)})"
    if k == "str":
        return "+".join(s(x) for x in a)
    if k == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if k in ("cmp", "binop"):
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "not":
        return f"not {s(a[0])}"
    if k == "elem":
        return f"elem<{s(a[0])}>"
    if k in ("func", "cls", "mod", "ext", "builtin"):
        return str(a[0]).split(".")[-1] if k != "ext" else str(a[0])
    if k == "bound":
        return f"{s(a[0])}.{str(a[1]).split('.')[-1]}"
    if k == "ref":
        return f"&{a[0]}"
    return f"{k}<{', '.join(s(x) for x in a)}>"


ALLREL = frozenset("<=>u")


_CONVERTERS = ("int", "float", "str", "bool", "bytes", "list", "dict", "set", "frozenset", "tuple", "sorted", "len", "repr")


def _constructed(v):
    """a slice, a length or a new object of a class: never None"""
    if v.k in ("slice_of", "len", "lin", "task"):
        return True
    if v.k == "call" and v.a[0].k == "builtin" and v.a[0].a[0] in _CONVERTERS:
        return True
    return v.k == "call" and v.a[0].k == "ext" and v.a[0].a[0].split(".")[-1][:1].isupper()


class Facts:
    """Copy-on-write conjunction of facts about terms.

    dom: term -> frozenset of possible constants; ne: term -> excluded
    constants; tr: term -> truthiness; rel: (a, b) -> subset of {<,=,>,u}.
    """

    __slots__ = ("dom", "ne", "tr", "rel", "typ", "_key")

    def __init__(self, dom=None, ne=None, tr=None, rel=None, typ=None):
        self.dom = dom or {}
        self.ne = ne or {}
        self.tr = tr or {}
        self.rel = rel or {}
        self.typ = typ or {}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (
                frozenset(self.dom.items()),
                frozenset(self.ne.items()),
                frozenset(self.tr.items()),
                frozenset(self.rel.items()),
                frozenset(self.typ.items()),
            )
        return self._key

    def copy(self):
        return Facts(dict(self.dom), dict(self.ne), dict(self.tr), dict(self.rel), dict(self.typ))

    # -- queries -------------------------------------------------------
    def domain(self, t, enums=None):
        if is_const(t):
            return frozenset([t])
        return self.dom.get(t)

    def truth(self, t):
        c = truth_const(t)
        if c is not None:
            return c
        if t in self.tr:
            return self.tr[t]
        d = self.dom.get(t)
        if d is not None:
            ts = {truth_const(x) for x in d}
            if len(ts) == 1:
                return ts.pop()
        if t.k == "str":
            return None
        if t.k == "not":
            x = self.truth(t.a[0])
            return None if x is None else not x
        if t.k == "cmp":
            return self.cmp(t.a[0], t.a[1], t.a[2])
        r = self.relation(t, const(0))
        if r != ALLREL and "=" not in r:
            return True
        return None

    def relation(self, a, b):
        """possible order relations a ? b"""
        if a is b:
            return frozenset("u") if is_const(a) and a.a[0] is NAN else frozenset("=")
        ca, cb = is_const(a), is_const(b)
        if ca and cb:
            x, y = cval(a), cval(b)
            try:
                if x == y:
                    return frozenset("=")
                if x < y:
                    return frozenset("<")
                if x > y:
                    return frozenset(">")
                if x != x or y != y:
                    return frozenset("u")
            except TypeError:
                return frozenset("u")
            return ALLREL
        out = ALLREL
        flip = a.n > b.n
        k = (b, a) if flip else (a, b)
        r = self.rel.get(k)
        if r is not None:
            out = out & (_flip(r) if flip else r)
        da = self.domain(a)
        db = self.domain(b)
        if da is not None and db is not None and len(da) * len(db) <= 400:
            s = set()
            for x in da:
                for y in db:
                    s |= self.relation(x, y)
            out = out & s
        # numeric constants: transitivity through other constants
        if cb and isinstance(cval(b), (int, float)) and not isinstance(cval(b), bool):
            for (p, q), r in self.rel.items():
                if p is a and is_const(q):
                    o = r
                elif q is a and is_const(p):
                    o = _flip(r)
                    q = p
                else:
                    continue
                y = cval(q)
                if not isinstance(y, (int, float)) or isinstance(y, bool):
                    continue
                x = cval(b)
                possible = set()
                # a o y ; relation y ? x known
                for c in o:
                    if c == "=":
                        possible.add("=" if y == x else "<" if y < x else ">")
                    elif c == "<":
                        if y <= x:
                            possible.add("<")
                        else:
                            possible |= set("<=>")
                    elif c == ">":
                        if y >= x:
                            possible.add(">")
                        else:
                            possible |= set("<=>")
                    else:
                        possible.add("u")
                out = out & possible
        return out

    def cmp(self, op, a, b):
        """truth of a comparison, or None"""
        if op in ("is", "=="):
            if a is b:
                return op == "is" or not (is_const(a) and a.a[0] is NAN)
            da, db = self.domain(a), self.domain(b)
            if da is not None and db is not None:
                if not any(_ceq(x, y, op) for x in da for y in db):
                    return False
                if len(da) == 1 and len(db) == 1:
                    return True
            if is_const(b) and self._excluded(a, b):
                return False
            if is_const(a) and self._excluded(b, a):
                return False
            if {a.k, b.k} & {"cls", "func", "ext", "builtin", "bound"} and (
                is_const(a) or is_const(b) or (a.k == b.k and a.k != "ext")
            ):
                return False
            if (a.k == "str" and b is NONE) or (b.k == "str" and a is NONE) or (
                    b is NONE and _constructed(a)) or (a is NONE and _constructed(b)):
                return False
            if (a.k in ("tuple", "ref", "task") and is_const(b)) or (b.k in ("tuple", "ref", "task") and is_const(a)):
                return False
            if op == "==" and a.k == b.k == "tuple":
                rs = [self.cmp("==", x, y) for x, y in zip(a.a, b.a)]
                if len(a.a) != len(b.a) or False in rs:
                    return False
                if None not in rs:
                    return True
            r = self.relation(a, b)
            if op == "==" and r != ALLREL:
                if "=" not in r:
                    return False
                if r == {"="}:
                    return True
            t = self.tr.get(V("cmp", "==", *sorted((a, b))))
            return t
        if op in ("is not", "!="):
            x = self.cmp("is" if op == "is not" else "==", a, b)
            return None if x is None else not x
        if op in ("<", "<=", ">", ">="):
            r = self.relation(a, b)
            want = {"<": "<", "<=": "<=", ">": ">", ">=": ">="}[op]
            want = set(want)
            if r <= want:
                return True
            if not (r & want):
                return False
            return None
        if op in ("in", "not in"):
            t = self.tr.get(V("cmp", "in", a, b))
            if t is None:
                return None
            return t if op == "in" else not t
        return None

    def _excluded(self, t, c):
        n = self.ne.get(t)
        if n and c in n:
            return True
        tr = self.tr.get(t)
        if tr is not None:
            tc = truth_const(c)
            if tc is not None and tr != tc and not (t.k == "ref"):
                return True
        d = self.dom.get(t)
        if d is not None and not any(_ceq(x, c, "==") for x in d):
            return True
        return False

    # -- refinement (returns new Facts, or None when contradictory) ------
    def assume(self, t, val, enums=None):
        if t.k == "not":
            return self.assume(t.a[0], not val, enums)
        cur = self.truth(t)
        if cur is not None:
            return self if cur == val else None
        if t.k == "cmp":
            return self._assume_cmp(t.a[0], t.a[1], t.a[2], val, enums)
        f = self.copy()
        f.tr[t] = val
        if t.k == "oneof" and all(is_const(x) for x in t.a[1:]):
            a, items = t.a[0], t.a[1:]
            if not val:
                for i in items:
                    f = f._assume_cmp("==", a, i, False, enums)
                    if f is None:
                        return None
                return f
            d = f.dom.get(a)
            nd = frozenset(x for x in (items if d is None else d) if any(_ceq(x, i, "==") for i in items) and not f._excluded(a, x))
            if not nd:
                return None
            f.dom[a] = nd
            return f
        d = f.dom.get(t)
        if d is not None:
            nd = frozenset(x for x in d if truth_const(x) in (None, val))
            if not nd:
                return None
            f.dom[t] = nd
        if val:
            f.ne[t] = f.ne.get(t, frozenset()) | {NONE}
        return f

    def _assume_cmp(self, op, a, b, val, enums):
        if op in ("is not", "!=", "not in"):
            op = {"is not": "is", "!=": "==", "not in": "in"}[op]
            val = not val
        if op in ("is", "=="):
            if is_const(a) and not is_const(b):
                a, b = b, a
            f = self.copy()
            if is_const(b):
                d = f.dom.get(a)
                if d is None and b.k == "enum" and enums:
                    d = enums(b)
                    if d is not None:
                        d = frozenset(x for x in d if not f._excluded(a, x)) if f.ne.get(a) or a in f.tr else d
                        if val is False:
                            # could still be something else than a member
                            pass
                if val:
                    if d is not None:
                        nd = frozenset(x for x in d if _ceq(x, b, op))
                        if not nd:
                            return None
                        f.dom[a] = nd
                    else:
                        if f._excluded(a, b):
                            return None
                        f.dom[a] = frozenset([b])
                else:
                    if d is not None:
                        nd = frozenset(x for x in d if not _ceq(x, b, op))
                        if not nd:
                            return None
                        f.dom[a] = nd
                    f.ne[a] = f.ne.get(a, frozenset()) | {b}
                if val:
                    r = f.relation(a, b)
                    if "=" not in r:
                        return None
                return f
            f.tr[V("cmp", "==", *sorted((a, b)))] = val
            if val:
                r = f._setrel(a, b, frozenset("="))
                if r is None:
                    return None
                da, db = f.dom.get(a), f.dom.get(b)
                if da is not None or db is not None:
                    if da is None:
                        nd = db
                    elif db is None:
                        nd = da
                    else:
                        nd = frozenset(x for x in da if any(_ceq(x, y, "==") for y in db))
                    if not nd:
                        return None
                    f.dom[a] = nd
                    f.dom[b] = nd
            else:
                r = f._setrel(a, b, frozenset("<>u"))
                if r is None:
                    return None
            return f
        if op in ("<", "<=", ">", ">="):
            want = frozenset(op)
            if not val:
                want = ALLREL - want
            f = self.copy()
            for x, y, w in ((a, b, want), (b, a, _flip(want))):
                if is_const(y) and not is_const(x):
                    d = f.dom.get(x)
                    if d is None and y.k == "enum" and enums:
                        d = enums(y)
                    if d is not None:
                        nd = frozenset(z for z in d if f.relation(z, y) & w)
                        if not nd:
                            return None
                        f.dom[x] = nd
            da, db = f.dom.get(a), f.dom.get(b)
            if da is not None and db is not None:
                na = frozenset(x for x in da if any(f.relation(x, y) & want for y in db))
                nb = frozenset(y for y in db if any(f.relation(x, y) & want for x in da))
                if not na or not nb:
                    return None
                f.dom[a], f.dom[b] = na, nb
            if f._setrel(a, b, want) is None:
                return None
            return f
        if op == "in":
            f = self.copy()
            f.tr[V("cmp", "in", a, b)] = val
            return f
        return self

    def _setrel(self, a, b, r):
        cur = self.relation(a, b)
        n = cur & r
        if not n:
            return None
        if a is b:
            return self
        flip = a.n > b.n
        self.rel[(b, a) if flip else (a, b)] = _flip(n) if flip else n
        return self

    def merge(self, other):
        """conjunction of two fact sets (None when contradictory)"""
        if other is self:
            return self
        f = self.copy()
        for t, d in other.dom.items():
            if t in f.dom:
                nd = f.dom[t] & d
                if not nd:
                    return None
                f.dom[t] = nd
            else:
                if f.ne.get(t):
                    d = frozenset(x for x in d if x not in f.ne[t])
                    if not d:
                        return None
                f.dom[t] = d
        for t, n in other.ne.items():
            f.ne[t] = f.ne.get(t, frozenset()) | n
            d = f.dom.get(t)
            if d is not None:
                nd = frozenset(x for x in d if x not in f.ne[t])
                if not nd:
                    return None
                f.dom[t] = nd
        for t, v in other.tr.items():
            if f.tr.get(t, v) != v:
                return None
            f.tr[t] = v
        for k, r in other.rel.items():
            n = f.rel.get(k, ALLREL) & r
            if not n:
                return None
            f.rel[k] = n
        for t, v in other.typ.items():
            f.typ.setdefault(t, v)
        return f


def _flip(r):
    return frozenset({"<": ">", ">": "<"}.get(c, c) for c in r)


def _ceq(x, y, op):
    if x is y:
        return True
    if not (is_const(x) and is_const(y)):
        return False
    if op == "is" and (x.k != y.k or type(x.a[0]) is not type(y.a[0])):
        return False
    a, b = cval(x), cval(y)
    try:
        return a == b
    except Exception:
        return False
