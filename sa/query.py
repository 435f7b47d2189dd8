"""Helpers to query paths, events and terms."""
from .state import Obj, events, walk_events
from .values import V, cval, is_const, show


def subterms(v, heap=None, seen=None):
    """All terms inside v, following references into the heap snapshot."""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Obj):
            stack.extend(_objparts(x))
            continue
        if isinstance(x, (tuple, list, frozenset, set)):
            stack.extend(x)
            continue
        if isinstance(x, dict):
            stack.extend(x.values())
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == "ref":
            if heap is not None:
                o = heap.get(x.a[0])
                if o is not None:
                    stack.extend(_objparts(o))
            continue
        stack.extend(a for a in x.a if isinstance(a, (V, tuple)))


def _objparts(o):
    return [v for k, v in o.d.items() if k not in ("frames", "node", "func", "chain")]


def contains(v, pred, heap=None):
    return any(pred(x) for x in subterms(v, heap))


def root(v):
    """Base object of an attribute/item/call chain."""
    while True:
        if v.k in ("attr", "item"):
            v = v.a[0]
        elif v.k == "call" and v.a[0].k in ("attr", "bound"):
            v = v.a[0].a[0]
        elif v.k in ("elem", "values", "items"):
            v = v.a[0]
        else:
            return v


def const_item(v, base=None, key=None):
    return (v.k == "item" and v.a[1].k == "const" and (key is None or v.a[1].a[0] == key)
            and (base is None or v.a[0] is base))


def path_events(out, upto=None):
    return events(out.st.trace, upto)


def callee_name(ev):
    return ev.get("name")


def ext_name(v):
    """dotted name of an external callee / constructor call"""
    if v.k == "ext":
        return v.a[0]
    if v.k == "call":
        return ext_name(v.a[0])
    return None


def kwarg(ev_or_term, name, pos=None):
    if isinstance(ev_or_term, V):
        for k, x in ev_or_term.a[2]:
            if k == name:
                return x
        args = ev_or_term.a[1]
    else:
        if name in ev_or_term.kwargs:
            return ev_or_term.kwargs[name]
        args = ev_or_term.args
    if pos is not None and pos < len(args):
        return args[pos]
    return None


def where(ev):
    f = ev.func
    return f"{ev.loc()} ({f.qual.split('.', 1)[-1] if f else '?'})"


def is_log(ev):
    """logging call"""
    return ev.kind == "call" and ev.get("name") in (
        "debug", "info", "warning", "error", "exception", "critical", "log", "warn")


def true_facts(facts):
    """(op, a, b) comparisons known to hold, and plain truths."""
    for t, v in facts.tr.items():
        yield t, v


def equal(facts, a, b):
    return facts.cmp("==", a, b) is True


def linear(t):
    """linear form {term: coefficient, None: constant}"""
    if t.k == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return {None: t.a[0]} if t.a[0] else {}
    if t.k == "lin":
        r = {None: t.a[0]} if t.a[0] else {}
        for i in range(1, len(t.a), 2):
            r = ladd(r, {k: v * t.a[i + 1] for k, v in linear(t.a[i]).items()})
        return r
    if t.k == "binop" and t.a[0] in ("+", "-"):
        s = 1 if t.a[0] == "+" else -1
        return ladd(linear(t.a[1]), linear(t.a[2]), s)
    if t.k == "binop" and t.a[0] == "*":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.k == "const" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool):
                return {k: v * x.a[0] for k, v in linear(y).items()}
    if t.k == "unary" and t.a[0] == "USub":
        return {k: -v for k, v in linear(t.a[1]).items()}
    return {t: 1}


def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def bounds(facts):
    """(linear form L, strict): L <= 0 (L < 0 if strict) is known"""
    for (a, b), r in facts.rel.items():
        r = r - {"u"}
        if not r:
            continue
        d = ladd(linear(a), linear(b), -1)
        if r <= frozenset("<="):
            yield d, "=" not in r
        if r <= frozenset(">="):
            yield {k: -v for k, v in d.items()}, "=" not in r


def rewrite(t, f):
    """rebuild a term bottom-up; f(term) may give a replacement"""
    def go(x):
        if isinstance(x, V):
            y = f(x)
            if y is not None:
                return y
            a = tuple(go(z) for z in x.a)
            return x if all(p is q for p, q in zip(a, x.a)) else V(x.k, *a)
        if isinstance(x, tuple):
            r = tuple(go(z) for z in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        return x
    return go(t)


def dict_keys(ob):
    """key terms written into a dict object"""
    out = []
    for l in ob.layers if ob is not None and ob.kind == "dict" else ():
        if l[0] == "kv":
            out.append(l[1])
        elif l[0] == "rep":
            out += [k for k, _, _ in l[1]]
    return out


def dict_get(ob, key):
    """list of the possible values of a key; None in it: possibly absent; a V('src', x): from that mapping"""
    out = []
    if ob is None or ob.kind != "dict":
        return out
    for l in reversed(ob.layers):
        if l[0] == "kv":
            if l[1] is key:
                out.append(l[2])
                return out
            if l[1].k != "const":
                out.append(l[2])
        elif l[0] == "rep":
            for k, v, _ in l[1]:
                if k is key or k.k != "const":
                    out.append(v)
        elif l[0] == "src":
            out.append(V("item", l[1], key))
        elif l[0] == "del":
            if l[1] is key:
                out.append(None)
                return out
    out.append(None)
    return out
