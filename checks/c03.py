"""C03: a cluster token only authorises, and only affects, the cluster it belongs to."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, root, subterms, where
from sa.values import NONE, V, show
from .c02 import read
from .httpsurface import REQ, Surface, backend, denied, is_get_cluster, path_name, token_evidence

SRV = "dask_gateway_server"
MUT = ("store", "setattr", "setitem", "delitem", "delattr", "dictupdate", "append", "extend", "remove")


def run(c):
    c.rule("TOK-GUARD", "a token endpoint acts only after the presented token equals the token of the cluster named in the request")
    c.rule("TOK-ARG", "a token endpoint passes exactly the cluster whose token was compared")
    c.rule("TOK-SRC", "the lookup by name returns name and token of one and the same stored cluster")
    c.rule("HB-SCOPE", "a heartbeat changes only state reached from the cluster it names")
    c.rule("HB-KNOWN", "a heartbeat changes state only when the named cluster is known")
    S = Surface(c.prog, c.types)
    for f in S.functions():
        c.analysed(f)
    for r, paths in S.paths.items():
        if r.owner:
            continue
        for p in paths:
            c.paths += 1
            user = None
            for e in p.events:
                if e.kind == "setitem" and e.obj is REQ:
                    user = e.value
                if user is not None and user is not NONE:
                    break
                if e.kind == "call" and e.recv is not None and backend(e.recv) and e.name != "get_cluster" \
                        and (r.path.endswith("heartbeat") or user is NONE):
                    guard(c, r, e, e.facts)
            if r.path.endswith("heartbeat") and not denied(p.out):
                ok = evidence(p.facts)
                c.require(bool(ok), "TOK-GUARD", r.where, f"{r} accepts a heartbeat without the cluster's token",
                          key=f"{r}:resp")
    c.floor("TOK-GUARD", 2)
    sources(c)
    scope(c)
    c.floor("HB-SCOPE", 5)
    c.floor("TOK-SRC", 2)


def evidence(facts):
    out = []
    for s, t in token_evidence(facts):
        cl = s.a[0]
        if facts.cmp("is", cl, NONE) is True:
            continue
        if cl.a[1] and path_name(cl.a[1][0]):
            out.append((cl, t))
    return out


def guard(c, r, e, facts):
    ev = evidence(facts)
    c.require(bool(ev), "TOK-GUARD", where(e),
              f"{r} calls {show(e.callee)} without a matching token of the named cluster", key=f"{r}:{e.name}")
    for a in list(e.args) + [x for x in e.kwargs.values() if isinstance(x, V)]:
        if contains(a, lambda x: x.k == "attr" and x.a[1] == "match_info"):
            c.require(path_name(a) or any(a is cl for cl, _ in ev), "TOK-ARG", where(e),
                      f"{r} acts on {show(a)}", key=f"{r}:{e.name}")
    c.require(any(path_name(a) or any(contains(a, lambda x: x is cl) for cl, _ in ev) for a in e.args), "TOK-ARG", where(e),
              f"{r} calls {show(e.callee)} with a cluster that is not the authenticated one", key=f"{r}:{e.name}")


def impls(c, name):
    base = c.prog.cls(SRV + ".backends.base", "Backend")
    ks = [k for k in base.subclasses() if name in k.methods]
    if len(ks) < 2:
        raise Broken(f"implementations of {name} not found")
    return ks


def sources(c):
    for k in impls(c, "get_cluster"):
        f = k.methods["get_cluster"]
        I = Interp(c.prog, c.types, hints={("Worker", "cluster", 0): SRV + ".backends.db_base.Cluster"})
        selfv, name = V("param", "self"), V("param", "cluster_name")
        I.term_types[selfv] = k.qual
        n = 0
        for o in I.run_function(f, [name, V("param", "wait")], selfv=selfv):
            c.paths += 1
            if o.kind != "ret" or o.val is NONE or o.st.facts.cmp("is", o.val, NONE) is True:
                continue
            n += 1
            w = f"{f.module.rel()}:{f.line} ({k.name}.get_cluster)"
            if o.val.k == "ref":
                bases = set()
                for a in ("token", "name", "username", "tls_key", "tls_cert"):
                    v = read(I, o.val, a, o.st)
                    bases.add(v.a[0] if v.k == "attr" and v.a[1] == a else v)
                ok = len(bases) == 1
                b = next(iter(bases)) if ok else None
            else:
                ok, b = True, o.val
            ok = ok and (b.k == "item" and b.a[1] is name or b.k == "call" and name in b.a[1])
            c.require(ok, "TOK-SRC", w, f"the cluster returned for a name is assembled from {show(o.val)}", key=k.name)
        for f2 in I.inlined:
            c.analysed(f2)
        if not n:
            raise Broken(f"{k.name}.get_cluster has no successful outcome")


def scope(c):
    for k in impls(c, "on_cluster_heartbeat"):
        f = k.methods["on_cluster_heartbeat"]
        I = Interp(c.prog, c.types, hints={("Worker", "cluster", 0): SRV + ".backends.db_base.Cluster"},
                   opaque=lambda g, recv: g.cls is not None and g.cls.name in ("WorkQueue", "Flag"))
        selfv, name = V("param", "self"), V("param", "cluster_name")
        I.term_types[selfv] = k.qual
        seen = set()

        def on_event(st, e):
            mut = e.kind in MUT and e.get("obj") is not None and nonlocal_(e.obj, selfv, name)
            call = e.kind == "call" and e.recv is not None and root(e.recv) is selfv and (
                e.name in ("execute", "put", "put_nowait", "append", "add", "pop", "spawn") or "patch" in e.name
                or "create" in e.name or "delete" in e.name or "replace" in e.name) and e.recv.k == "attr" \
                and not e.recv.a[1] == "log"
            call = call or (e.kind == "call" and e.name == "execute")
            if not (mut or call):
                return
            terms = [e.obj] if mut else list(e.args) + list(e.kwargs.values())
            own = any(contains(t, lambda x: x is name, e.heap) for t in terms if t is not None)
            c.require(own, "HB-SCOPE", where(e),
                      f"a heartbeat changes {show(terms[0]) if terms else e.name}, which does not depend on the named cluster",
                      key=f"{k.name}:{e.get('name') or e.kind}")
            known = any(x.k == "item" and x.a[1] is name and e.facts.cmp("is", x, NONE) is False
                        for t in lookups(e.facts) for x in [t])
            c.require(known, "HB-KNOWN", where(e), "a heartbeat of an unknown cluster changes state", key=f"{k.name}")
        I.on_event = on_event
        outs = I.run_function(f, [name, V("param", "msg")], selfv=selfv)
        c.paths += len(outs)
        for f2 in I.inlined:
            c.analysed(f2)


def lookups(facts):
    s = set()
    for d in (facts.dom, facts.ne, facts.tr):
        for t in d:
            for x in subterms(t):
                if x.k == "item":
                    s.add(x)
    for a, b in facts.rel:
        for t in (a, b):
            for x in subterms(t):
                if x.k == "item":
                    s.add(x)
    return s


def nonlocal_(o, selfv, name):
    if o.k == "ref":
        return False
    return contains(o, lambda x: x is selfv)
