"""Running a method of the database backends from a given (status, goal), shared by several properties."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import subterms
from sa.state import events, walk_events
from sa.values import V
from .dblife import ALL, DB, RANK, SELF, nm, qcall

FINISHED = ("STOPPED", "FAILED")
PUTS = ("put", "put_backoff", "put_after")


def status_consts(c, L):
    I = Interp(c.prog, c.types)
    return {nm(m): m for m in I.enum_tab[L.status_cls.qual]}


def run_from(c, L, fname, kind, pre, extra=(), on_event=None, do_raises=False, opaque=(), pos=0, **kw):
    """run self.<fname>(<kind>) with the object's status and goal fixed -> (interp, object, outs)"""
    f = L.base.methods.get(fname)
    if f is None:
        raise Broken(f"no method {fname}")
    c.analysed(f)
    ps = [V("param", x) for x in f.params()[1:]]
    X = ps[pos]
    I = L.interp(on_event, use_rely=False, do_raises=do_raises, opaque=opaque, **kw)
    if kind:
        I.term_types[X] = DB + "." + kind
    st = I.new_state()
    store = dict(st.store)
    tab = status_consts(c, L)
    if pre:
        for a, v in zip(("status", "target"), pre):
            if v is not None:
                store[(X, a)] = tab[v]
    for a, v in extra:
        store[(X, a)] = v
    st.store = store
    outs = I.run_function(f, ps, st=st, selfv=SELF)
    c.paths += len(outs)
    return I, X, outs


def flat(o):
    return list(walk_events(events(o.st.trace)))


def calls(e, name, X=None):
    if e.kind not in ("call", "callraised"):
        return False
    if e.kind == "callraised" and e.get("call") is not None:
        e = e.call
    if e.get("name") != name and qcall(e, "Proxy") != name:
        return False
    return X is None or any(a is X for a in list(e.get("args") or ()) + list((e.get("kwargs") or {}).values()))


def raised_by(e):
    """name of the call that failed"""
    return (e.call.get("name") or "") if e.kind == "callraised" else ""


def strs(e):
    """string constants among the arguments of a call"""
    return [v.a[0] for v in list(e.get("args") or ()) + list((e.get("kwargs") or {}).values()) if v.k == "const" and isinstance(v.a[0], str)]


def setflag(e, X, flag):
    """the call sets the named flag of X"""
    f = e.get("callee")
    return e.kind == "call" and e.get("name") == "set" and f is not None and any(
        x.k == "attr" and x.a[0] is X and x.a[1] == flag for x in subterms(f))


def last_facts(b):
    return b.events[-1].facts if b.events else b.facts


def pair_ok(facts, x, pair, strict):
    """the facts about x's status and goal allow the pair; strict: nothing else selects x"""
    if facts is None:
        return True
    for tab, neg in ((facts.dom, False), (facts.ne, True)):
        for k, d in tab.items():
            if k.k == "attr" and k.a[0] is x and k.a[1] in ("status", "target"):
                hit = pair[0 if k.a[1] == "status" else 1] in {nm(y) for y in d}
                if hit == neg:
                    return False
            elif strict and x in set(subterms(k)):
                return False
    if strict:
        for k in list(facts.tr) + [t for a in facts.rel for t in (a if isinstance(a, tuple) else (a,))]:
            if isinstance(k, V) and k.k not in ("const", "every", "nonempty") and x in set(subterms(k)) and not any(
                    y.k == "attr" and y.a[0] is x and y.a[1] in ("status", "target") for y in subterms(k)):
                return False
    return True


def workers_of(x, X):
    """the term is an element of X.workers"""
    return x.k == "elem" and any(y.k == "attr" and y.a[0] is X and y.a[1] == "workers" for y in subterms(x))


def all_at_least(facts, X, allowed):
    """every worker of X has a status among those allowed"""
    for k, d in facts.dom.items():
        if k.k == "attr" and k.a[1] == "status" and workers_of(k.a[0], X) and facts.tr.get(V("every", k.a[0])) is True:
            if {nm(y) for y in d} <= set(allowed):
                return True
    return False


def some_below(facts, X, allowed):
    """some worker of X surely has a status not among those allowed"""
    for k, d in facts.dom.items():
        if k.k == "attr" and k.a[1] == "status" and workers_of(k.a[0], X) and facts.tr.get(V("every", k.a[0])) is not True:
            if not ({nm(y) for y in d} & set(allowed)):
                return True
    for k, b in facts.tr.items():
        if k.k == "all" and b is False and len(k.a[0]) == 1:
            cond, pol = k.a[0][0]
            ok = holds_for(cond, pol, X)
            # the condition fails for some worker: it must be at least as weak as membership of the allowed set
            if ok is not None and set(allowed) <= ok:
                return True
    return False


def holds_for(cond, pol, X):
    """statuses of a worker of X for which the condition holds"""
    if cond.k == "not":
        return holds_for(cond.a[0], not pol, X)
    names = list(RANK)
    if cond.k == "cmp" and len(cond.a) == 3:
        op, a, b = cond.a
        if nm(a) and b.k == "attr":
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not (a.k == "attr" and a.a[1] == "status" and workers_of(a.a[0], X) and nm(b)):
            return None
        order = {n: i for i, n in enumerate(("CREATED", "SUBMITTED", "RUNNING", "CLOSING", "STOPPED", "FAILED"))}
        f = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y,
             "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "is": lambda x, y: x == y, "is not": lambda x, y: x != y}.get(op)
        if f is None:
            return None
        return {n for n in names if f(order[n], order[nm(b)]) == pol}
    if cond.k == "oneof":
        a = cond.a[0]
        if a.k == "attr" and a.a[1] == "status" and workers_of(a.a[0], X):
            vals = {nm(y) for y in subterms(cond) if nm(y)}
            return {n for n in names if (n in vals) == pol}
    return None
