"""C02: user-facing endpoints act on and disclose only the authenticated user's clusters."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, events, root, subterms, where
from sa.values import NONE, V, const, show
from .httpsurface import (REQ, Surface, backend, denied, is_get_cluster, name_of, path_name, token_evidence)

SRV = "dask_gateway_server"


def raises(I, st, e):
    if e.get("name") in ("authenticate",):
        return ["Exception"]


def owner_evidence(facts, cluster, user):
    """facts establish user.name == cluster.username"""
    for t, val in facts.tr.items():
        if val and t.k == "cmp" and t.a[0] == "==":
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if a.k == "attr" and a.a[1] == "name" and a.a[0] is user \
                        and b.k == "attr" and b.a[1] == "username" and b.a[0] is cluster:
                    return True
    for (a, b), r in facts.rel.items():
        if r == frozenset("="):
            for x, y in ((a, b), (b, a)):
                if x.k == "attr" and x.a[1] == "name" and x.a[0] is user \
                        and y.k == "attr" and y.a[1] == "username" and y.a[0] is cluster:
                    return True
    return False


def run(c):
    c.rule("OWN-CALL", "a backend call that names a cluster follows an established ownership comparison (or the cluster's own token)")
    c.rule("OWN-RESP", "a non-error response built from a cluster follows an established ownership comparison")
    c.rule("OWN-STATUS", "another user's cluster is answered with forbidden, a missing one with not found")
    c.rule("LIST", "the listing endpoint passes the authenticated user's name to the backend")
    c.rule("LIST-BACKEND", "a listing for a user contains only clusters registered under that user's name")
    c.rule("INDEX", "a cluster is registered only under its own user's name")
    S = Surface(c.prog, c.types, raises)
    for f in S.functions():
        c.analysed(f)
    n_routes = set()
    for r, paths in S.paths.items():
        if r.owner:
            continue
        for p in paths:
            c.paths += 1
            check_path(c, r, p, n_routes)
    if len(n_routes) < 4:
        raise Broken(f"only {len(n_routes)} endpoints with a cluster in the path were recognised")
    c.floor("OWN-CALL", 4)
    c.floor("LIST", 1)
    backends(c)
    c.floor("LIST-BACKEND", 2)
    c.floor("INDEX", 3)
    if len(c.samples["INDEX"]) < 3 and not c.violations:
        raise Broken("fewer than three places register a cluster under a user")


def check_path(c, r, p, n_routes):
    user = "none"
    missing = foreign = False
    for e in p.events:
        if e.kind == "setitem" and e.obj is REQ and e.key is const("user"):
            user = e.value
        if e.kind == "call" and e.recv is not None and backend(e.recv):
            named = [a for a in list(e.args) + [x for x in e.kwargs.values() if isinstance(x, V)]
                     if contains(a, lambda x: path_name(x) or is_get_cluster(x), e.heap)]
            if e.name == "get_cluster":
                n_routes.add(str(r))
                c.require(bool(e.args) and path_name(e.args[0]), "OWN-CALL", where(e),
                          f"{r} looks up a cluster other than the one named in the request", key=f"{r}:get")
                continue
            if named:
                n_routes.add(str(r))
                c.require(authorised(e.facts, user, p, e, c, r), "OWN-CALL", where(e),
                          f"{r} calls {show(e.callee)} before the cluster is known to belong to the user",
                          key=f"{r}:{e.name}")
                # the object acted on is the one that was compared
                for a in named:
                    c.require(path_name(a) or is_get_cluster(a) or not contains(a, path_name), "OWN-CALL", where(e),
                              f"{r} passes {show(a)}", key=f"{r}:{e.name}:arg")
            if e.name == "list_clusters" or (not named and "list" in e.name):
                u = e.kwargs.get("username") or (e.args[0] if e.args else None)
                c.require(u is not None and u.k == "attr" and u.a[1] == "name" and u.a[0] is user, "LIST", where(e),
                          f"{r} lists clusters of {show(u) if u is not None else 'everyone'}", key=str(r))
    facts = p.facts
    if not denied(p.out):
        v = p.out.val
        disclosed = v is not None and contains(v, is_get_cluster, p.out.st.heap)
        if disclosed:
            c.require(authorised(facts, user, p, None, c, r), "OWN-RESP", r.where,
                      f"{r} returns data of a cluster that is not known to belong to the user", key=str(r))
    # status codes
    clusters = {e.result for e in p.events if e.kind == "call" and e.get("recv") is not None and backend(e.recv)
                and e.name == "get_cluster"}
    if user not in ("none", NONE) and isinstance(user, V):
        for k in clusters:
            v = p.out.val
            if facts.cmp("is", k, NONE) is True and r.method != "delete":
                c.require(status_of(p) == "HTTPNotFound", "OWN-STATUS", r.where,
                          f"{r} answers {status_of(p)} for an unknown cluster", key=f"{r}:404")
            elif facts.cmp("is", k, NONE) is False and foreign_fact(facts, k, user):
                c.require(status_of(p) == "HTTPForbidden", "OWN-STATUS", r.where,
                          f"{r} answers {status_of(p)} for another user's cluster", key=f"{r}:403")


def foreign_fact(facts, k, user):
    for t, val in facts.tr.items():
        if not val and t.k == "cmp" and t.a[0] == "==":
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if a.k == "attr" and a.a[1] == "name" and a.a[0] is user and b.k == "attr" and b.a[1] == "username" \
                        and b.a[0] is k:
                    return True
    return False


def status_of(p):
    if not denied(p.out):
        return "success"
    for e in reversed(p.events):
        if e.kind == "raise" and e.exc.k == "call":
            n = e.exc.a[0]
            if n.k == "ext":
                return n.a[0].split(".")[-1]
    return "error"


def authorised(facts, user, p, ev, c, r):
    if user is NONE:
        return bool(token_evidence(facts))
    if not isinstance(user, V):
        return bool(token_evidence(facts))   # token-only endpoint
    ks = {e.result for e in p.events if e.kind == "call" and e.get("recv") is not None and backend(e.recv)
          and e.name == "get_cluster"}
    return any(owner_evidence(facts, k, user) for k in ks)


# ----------------------------------------------------------------------
def backends(c):
    """list_clusters(username=u) of each backend yields only entries of the per-user index for u,
    and every insertion into that index uses the cluster's own user name."""
    base = c.prog.cls(SRV + ".backends.base", "Backend")
    impls = [k for k in base.subclasses() if "list_clusters" in own(k)]
    if len(impls) < 2:
        raise Broken("backend listing implementations not found")
    indexes = set()
    for k in impls:
        f = k.find_method("list_clusters")
        c.analysed(f)
        I = Interp(c.prog, c.types, hints={("Worker", "cluster", 0): SRV + ".backends.db_base.Cluster"})
        selfv = V("param", "self")
        u = V("param", "username")
        I.term_types[selfv] = k.qual
        outs = I.run_function(f, [u, V("param", "statuses")], selfv=selfv)
        for f2 in I.inlined:
            c.analysed(f2)
        n = 0
        for o in outs:
            c.paths += 1
            if o.kind != "ret":
                continue
            if o.st.facts.cmp("is", u, NONE) is True:
                continue
            for t, facts in elements(o.val, o.st):
                n += 1
                ok, m = under_user(t, u, o.st, facts)
                if m is not None:
                    indexes.add((k.qual, m))
                c.require(ok, "LIST-BACKEND", f"{f.module.rel()}:{f.line} ({k.name}.list_clusters)",
                          f"the listing for a user contains {show(t)}, which is not taken from that user's clusters",
                          key=f"{k.name}")
        if n == 0:
            raise Broken(f"{k.name}.list_clusters yields nothing that could be analysed")
    names = {m.a[1] for _, m in indexes if m.k == "attr"}
    index_writes(c, names)


def own(k):
    return {f.name for f in k.methods.values()} if hasattr(k, "methods") else set()


def elements(v, st):
    """element terms of a returned list"""
    o = st.obj(v)
    if o is None or o.kind != "list":
        yield v, st.facts
        return
    todo = list(o.segs)
    while todo:
        s = todo.pop()
        if s[0] == "one":
            yield s[1], st.facts
        elif s[0] == "sym":
            yield V("elem", s[1]), st.facts
        elif s[0] == "rep":
            for x, f in s[1]:
                yield x, f or st.facts
        elif s[0] == "part":
            todo.extend(s[1:])


def under_user(t, u, st, facts, depth=0):
    """t is (a view of) an element of index[u].values(), or its username equals u"""
    for (a, b), r in facts.rel.items():
        if r == frozenset("=") and {a, b} & {u}:
            x = b if a is u else a
            if x.k == "attr" and x.a[1] == "username":
                return True, None
    for f, val in facts.tr.items():
        if val and f.k == "cmp" and f.a[0] == "==" and u in (f.a[1], f.a[2]):
            x = f.a[2] if f.a[1] is u else f.a[1]
            if x.k == "attr" and x.a[1] == "username":
                return True, None
    srcs = set()
    for x in subterms(t, st.heap):
        if x.k == "elem":
            srcs.add(x)
    idx = None
    ok = False
    for x in srcs:
        for y in subterms(x):
            if y.k == "item" and y.a[1] is u:
                ok = True
                idx = y.a[0]
            elif y.k == "call" and y.a[1] and y.a[1][0] is u and y.a[0].k == "attr" and y.a[0].a[1] == "get":
                ok = True
                idx = y.a[0].a[0]
    return ok, idx


def index_writes(c, names):
    """every write index[k1][k2] = cluster has k1 == cluster.username and k2 == cluster.name"""
    import ast
    funcs = []
    for f in c.prog.funcs.values():
        if not f.module.name.startswith(SRV):
            continue
        if any(isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(f.node)):
            if any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) or \
                    any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                        and n.func.attr in ("setdefault", "update") for n in ast.walk(f.node)):
                funcs.append(f)
    for f in funcs:
        I = Interp(c.prog, c.types)
        selfv = V("param", "self")
        if f.cls is not None:
            I.term_types[selfv] = f.cls.qual
        args = [V("param", p) for p in f.params() if p != "self"]
        found = []
        refs = {}

        def on_event(st, e):
            if e.kind == "store" and e.value.k == "ref" and e.attr in names:
                refs[e.value] = e.attr
            if e.kind == "setitem" and e.obj.k == "item" and (
                    e.obj.a[0].k == "attr" and e.obj.a[0].a[1] in names or e.obj.a[0] in refs):
                found.append((st, e))
        I.on_event = on_event
        I.run_function(f, args, selfv=selfv if f.cls is not None else None)
        c.analysed(f)
        for st, e in found:
            k1, k2, v = e.obj.a[1], e.key, e.value
            un = read(I, v, "username", st)
            nm = read(I, v, "name", st)
            c.require(un is k1 and nm is k2, "INDEX", where(e),
                      f"cluster with user {show(un)} and name {show(nm)} registered under [{show(k1)}][{show(k2)}]",
                      key=f"{f.name}")


def read(I, v, attr, st):
    save = I.ctx
    from sa.interp import Ctx
    I.ctx = Ctx(None, next(iter(I.prog.modules.values())), 0, (0,))
    try:
        r = I.getattr(v, attr, st.fork())
    finally:
        I.ctx = save
    return r[0][1] if isinstance(r, list) and r else r
