"""C04: each authenticator yields a user only where the presented credential was verified."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, ext_name, subterms
from sa.state import events
from sa.values import NONE, V, const, show
from .c02 import read
from .httpsurface import from_header

AUTH = "dask_gateway_server.auth"
SELF, REQ = V("param", "self"), V("param", "request")


def raises(I, st, e):
    if ext_name(e.callee) and ext_name(e.callee).startswith("kerberos."):
        return ["kerberos.GSSError"]
    if e.get("name") in ("get", "json", "post", "request") and e.get("awaited"):
        return ["Exception"]


def run(c):
    c.rule("BASIC", "Basic: a user is returned only if no password is configured or the presented one equals it; name and password come from the same header")
    c.rule("KERB", "Kerberos: a user is returned only after a completed security-context step on the presented token, named by that context")
    c.rule("HUB", "JupyterHub: a user is returned only from a successful (<400) reply to a query carrying the presented token")
    c.rule("HUB-NAME", "JupyterHub: the bare name is used only for users, services get a distinct name")
    c.rule("HUB-SCOPE", "JupyterHub: with scope checks enabled, a matching access scope is required")
    c.rule("FAIL", "every other path raises")
    base = c.prog.cls(AUTH, "Authenticator")
    want = {"SimpleAuthenticator": basic, "KerberosAuthenticator": kerberos, "JupyterHubAuthenticator": hub}
    found = set()
    for k in base.subclasses():
        f = k.find_method("authenticate")
        if f is None or k.name not in want:
            continue
        found.add(k.name)
        I = Interp(c.prog, c.types, raises=raises)
        I.term_types[SELF] = k.qual
        outs = I.run_function(f, [REQ], selfv=SELF)
        for g in I.inlined:
            c.analysed(g)
        n = 0
        w = f"{f.module.rel()}:{f.line} ({k.name}.authenticate)"
        for o in outs:
            c.paths += 1
            if o.kind == "raise":
                c.require(True, "FAIL", w, "")
                continue
            user = o.val
            if user is not None and user.k == "tuple" and user.a:
                user = user.a[0]
            ob = o.st.obj(user) if user is not None else None
            if ob is None or ob.kind != "inst" or not ob.cls.endswith("User"):
                c.fail("FAIL", w, f"{k.name} returns {show(user) if user is not None else None} instead of a user or an error", key=k.name)
                continue
            n += 1
            name = read(I, user, "name", o.st)
            want[k.name](c, w, o, name)
        if n == 0:
            raise Broken(f"{k.name}.authenticate never succeeds")
    if found != set(want):
        raise Broken(f"authenticators found: {sorted(found)}")


def truths(o):
    f = o.st.facts
    for t, v in f.tr.items():
        yield t, v
    for (a, b), r in f.rel.items():
        if r == frozenset("="):
            yield V("cmp", "==", a, b), True


def equalities(o):
    for t, v in truths(o):
        if v and t.k == "cmp" and t.a[0] in ("==", "is"):
            yield t.a[1], t.a[2]
            yield t.a[2], t.a[1]
        if v and t.k == "call" and (ext_name(t) or "").endswith("compare_digest"):
            a, b = t.a[1]
            for x in subterms(a):
                for y in subterms(b):
                    yield x, y
                    yield y, x


def basic(c, w, o, name):
    f = o.st.facts
    secrets = [x for x in known(o) if x.k == "attr" and x.a[0] is SELF and "password" in x.a[1]]
    ok = any(f.truth(s) is False or f.cmp("is", s, NONE) is True for s in secrets)
    pw = None
    for a, b in equalities(o):
        if a.k == "attr" and a.a[0] is SELF and "password" in a.a[1] and from_header(b):
            ok = True
            pw = b
    c.require(ok, "BASIC", w, "a user is returned although the configured password was not compared", key="password")
    ok = from_header(name) and name.k == "item" and name.a[1] is const(0)
    if pw is not None:
        ok = ok and pw.k == "item" and pw.a[0] is name.a[0] and pw is not name
    c.require(ok, "BASIC", w, f"the user name {show(name)} is not the one presented with the password", key="name")


def known(o):
    f = o.st.facts
    s = set()
    for d in (f.dom, f.ne, f.tr):
        for t in d:
            s |= set(subterms(t))
    for a, b in f.rel:
        s |= set(subterms(a)) | set(subterms(b))
    return s


def kerberos(c, w, o, name):
    evs = [e for e in events(o.st.trace) if e.kind in ("call", "callraised")]
    raised = {id(e.call) for e in evs if e.kind == "callraised"}
    step = un = None
    for i, e in enumerate(evs):
        if e.kind == "call" and id(e) not in raised:
            n = ext_name(e.callee) or ""
            if n == "kerberos.authGSSServerStep" and len(e.args) == 2 and from_header(e.args[1]):
                step = (i, e)
            if n == "kerberos.authGSSServerUserName":
                un = (i, e)
    c.require(step is not None, "KERB", w, "no security-context step on the presented token", key="step")
    c.require(un is not None and step is not None and un[0] > step[0] and un[1].args[0] is step[1].args[0], "KERB", w,
              "the user name is not read from the context that was completed", key="ctx")
    if un is not None:
        c.require(contains(name, lambda x: x is un[1].result), "KERB", w,
                  f"the user is named {show(name)}, not by the security context", key="name")
    if step is not None:
        done = any(a is step[1].result and "COMPLETE" in (ext_name(b) or "") for a, b in equalities(o))
        c.require(done, "KERB", w, "the exchange may not be complete when the user is returned", key="complete")


def hub(c, w, o, name):
    f = o.st.facts
    evs = [e for e in events(o.st.trace) if e.kind in ("call", "callraised")]
    raised = {id(e.call) for e in evs if e.kind == "callraised"}
    q = None
    for e in evs:
        if e.kind == "call" and id(e) not in raised and any(from_header(x) for v in list(e.args) + list(e.kwargs.values())
                                                             for x in subterms(v, e.heap)):
            if e.recv is not None and contains(e.recv, lambda x: x is SELF):
                q = e
    c.require(q is not None, "HUB", w, "no query to the hub carries the presented token", key="query")
    if q is None:
        return
    st = [t for t in known(o) if t.k == "attr" and t.a[1] == "status" and t.a[0] is q.result]
    okst = any(f.cmp("<", s, const(400)) is True or f.cmp("==", s, const(200)) is True for s in st) \
        or any(t.k == "attr" and t.a[1] == "ok" and t.a[0] is q.result and v for t, v in truths(o)) \
        or any(e.kind == "call" and e.get("name") == "raise_for_status" and e.recv is q.result for e in evs)
    c.require(okst, "HUB", w, "a user is returned although the hub's reply may be an error", key="status")
    tok = q.kwargs.get("ssl")
    c.require(tok is None or tok is not const(False), "HUB", w, "certificate verification is disabled", key="ssl")
    data = [x for x in subterms(name) if x.k == "item" and x.a[1] is const("name")
            and contains(x.a[0], lambda y: y is q.result)]
    c.require(bool(data), "HUB", w, f"the user name {show(name)} is not the hub's answer", key="name")
    if data:
        d = data[0].a[0]
        if name is data[0]:
            kind = V("item", d, const("kind"))
            ks = [x for x in known(o) if x.k == "item" and x.a[0] is d and x.a[1] is const("kind")]
            okk = any(f.cmp("==", x, const("user")) is True for x in ks)
            c.require(okk, "HUB-NAME", w, "a service may be taken for the user of the same name", key="kind")
            colon = [v for t, v in f.tr.items() if t.k == "cmp" and t.a[0] == "in" and t.a[1] is const(":") and t.a[2] is name]
            c.require(colon == [False], "HUB-NAME", w, "a user name containing ':' may collide with a service", key="colon")
        else:
            c.require(contains(name, lambda x: x.k == "item" and x.a[0] is d and x.a[1] is const("kind")), "HUB-NAME", w,
                      f"the disambiguated name {show(name)} does not contain the kind", key="kind2")
    enabled = [v for t, v in f.tr.items() if t.k == "attr" and t.a[0] is SELF and "scope" in t.a[1]]
    if enabled != [False]:
        ok = False
        for t in [t for t, v in f.tr.items() if v] + list(f.dom):
            dom = f.dom.get(t)
            conds = [(t, dom)]
            for s in subterms(t, o.st.heap):
                if s.k == "ref":
                    conds += element_conditions(o.st.heap.get(s.a[0]))
            for cond, dom in conds:
                parts = list(subterms(cond, o.st.heap))
                if not any(x.k == "item" and x.a[1] is const("scopes") for x in parts):
                    continue
                consts = [x.a[0] for x in parts if x.k == "const" and isinstance(x.a[0], str) and ":" in x.a[0]]
                consts += [x for x in dom or () if isinstance(x, str)]
                if consts and all(x.startswith("access:services") for x in consts):
                    ok = True
        c.require(ok, "HUB-SCOPE", w, "a token without access to this service is accepted", key="scope")


def element_conditions(ob):
    """(condition, its domain) attached to the elements of a list"""
    out = []
    if ob is not None and ob.kind == "list":
        for s in ob.segs:
            if s[0] == "rep":
                for x, f in s[1]:
                    if f is not None:
                        out += [(t, None) for t, v in f.tr.items() if v] + [(t, d) for t, d in f.dom.items()]
    return out
