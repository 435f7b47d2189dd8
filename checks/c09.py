"""C09: all scheduler traffic is mutually authenticated with per-cluster credentials."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, dict_get, ext_name, kwarg, rewrite, subterms, where
from sa.state import events, walk_events
from sa.values import NONE, V, const, show

B = "dask_gateway_server.backends"
DB = B + ".db_base"
KC = B + ".kubernetes.controller"
KB = B + ".kubernetes.backend"
CL = "dask_gateway.client"
SELF, CLUSTER, WORKER = V("param", "self"), V("param", "cluster"), V("param", "worker")
P = "DASK_DISTRIBUTED__COMM__"
FRESH = ("uuid.uuid4", "secrets.token_hex", "secrets.token_urlsafe", "secrets.token_bytes", "os.urandom")


def run(c):
    c.rule("GEN", "a key pair is generated afresh: new key of sufficient size, certificate for and signed by that very key")
    c.rule("NEW", "every cluster is created with its own fresh token and key pair, and keeps these")
    c.rule("PAIR", "stored credentials are read back as the same certificate, key and token of the same cluster")
    c.rule("ENV", "scheduler and worker get the cluster's token and exactly its certificate and key, and require encryption")
    c.rule("TLS", "schedulers listen on TLS only")
    c.rule("CLIENT", "the client verifies the peer against, and presents, the certificate returned for this cluster")
    keypair(c)
    create_db(c)
    restore_db(c)
    for k in concrete(c):
        processes(c, k)
    inprocess(c)
    kube_secret(c)
    kube_pod(c)
    kube_load(c)
    client_ctx(c)
    client_use(c)
    connector(c)
    c.floor("ENV", 60)
    c.floor("TLS", 4)


def concrete(c):
    base = c.prog.cls(DB, "DBBackendBase")
    out = []
    for k in base.subclasses():
        if any(x is not k for x in k.subclasses() if False):
            continue
        if k.find_method("do_start_cluster") is None or k.find_method("do_start_cluster").cls is base:
            continue
        if k.name == "InProcessBackend" or k.name == "JobQueueBackend":
            continue
        out.append(k)
    if len(out) < 4:
        raise Broken("database backends not found")
    return out


def fresh(v):
    return contains(v, lambda x: x.k == "call" and ext_name(x) in FRESH)


def calls(evs, n):
    return [e for e in evs if e.kind == "call" and (ext_name(e.callee) or "") == n]


# ---------------------------------------------------------------- generation

def keypair(c):
    f = c.prog.funcs.get("dask_gateway_server.tls.new_keypair")
    if f is None:
        raise Broken("new_keypair not found")
    c.analysed(f)
    w = f"{f.module.rel()}:{f.line}"
    c.require(not f.decorators, "GEN", w, "new_keypair is wrapped, and may hand out a pair again", key="wrapped")
    I = Interp(c.prog, c.types)
    n = 0
    for o in I.run_function(f, [V("param", "sni")]):
        c.paths += 1
        if o.kind != "ret":
            continue
        n += 1
        v = o.val
        if v.k != "tuple" or len(v.a) != 2 and len(v.a[0]) != 2:
            c.fail("GEN", w, "new_keypair does not return certificate and key", key="shape")
            continue
        cert, key = v.a[0] if isinstance(v.a[0], tuple) else v.a
        gens = {x for x in subterms(key, o.st.heap) if is_gen(x)}
        c.require(len(gens) == 1, "GEN", w, "the returned key is not generated in this call", key="fresh")
        if len(gens) != 1:
            continue
        g = gens.pop()
        size = kwarg(g, "key_size", 1)
        if g.k == "call" and "rsa" in (ext_name(g) or ""):
            c.require(size is not None and size.k == "const" and isinstance(size.a[0], int) and size.a[0] >= 2048, "GEN", w,
                      "the RSA key is too short", key="size")
        # the certificate: its public key and its signature come from this key
        sign = [x for x in subterms(cert, o.st.heap) if meth(x, "sign")]
        pubs = [x for x in subterms(cert, o.st.heap) if meth(x, "public_key") and x.a[1]]
        c.require(bool(sign) and all(x.a[1] and x.a[1][0] is g for x in sign), "GEN", w,
                  "the certificate is not signed with the generated key", key="signed")
        c.require(bool(pubs) and all(contains(x.a[1][0], lambda y: y is g) and contains(x.a[1][0], lambda y: meth(y, "public_key"))
                                     for x in pubs), "GEN", w, "the certificate is not for the generated key", key="public")
    if not n:
        raise Broken("new_keypair never returns")


def is_gen(x):
    return x.k == "call" and ((ext_name(x) or "").endswith("generate_private_key") or x.a[0].k == "bm" and x.a[0].a[1] in ("generate_private_key", "generate"))


def kp_item(v, i, site=None):
    """v is item i of a call to new_keypair"""
    return v is not None and v.k == "item" and is_kp(v.a[0]) and v.a[1] in (const(i), i)


def is_kp(x):
    return x.k == "call" and x.a[0].k == "func" and x.a[0].a[0].endswith("tls.new_keypair") or \
        x.k == "call" and "new_keypair" in show(x.a[0])


def create_db(c):
    dm = c.prog.cls(DB, "DbDataManager" if (DB + ".DbDataManager") in c.prog.classes else "DataManager")
    f = dm.find_method("create_cluster")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("new_keypair", "encode_tls_credentials", "encode_token"))
    I.term_types[SELF] = dm.qual
    n = 0
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=SELF):
        c.paths += 1
        evs = list(walk_events(events(o.st.trace)))
        news = [e for e in evs if e.kind == "new" and str(e.get("cls")).endswith("Cluster") or e.kind == "new" and {"tls_cert", "token"} <= set(e.kwargs)]
        ins = [e for e in evs if e.kind == "call" and e.get("name") == "values" and "token" in e.kwargs]
        for e in news:
            n += 1
            kw = e.kwargs
            judge_new(c, kw.get("tls_cert"), kw.get("tls_key"), kw.get("token"), where(e), kw.get("name"))
            for i in ins:
                tc, tk = i.kwargs.get("tls_credentials"), i.kwargs.get("token")
                ok = tc is not None and tc.k == "call" and contains(tc.a[0], lambda x: x.k in ("bound", "func", "bm") and "encode_tls_credentials" in str(x.a)) \
                    and list(call_args(tc)) == [kw.get("tls_cert"), kw.get("tls_key")]
                c.require(ok, "NEW", where(i), "the stored credentials are not those of the new cluster", key="stored")
                ok = tk is not None and contains(tk, lambda x: x is kw.get("token"))
                c.require(ok, "NEW", where(i), "the stored token is not that of the new cluster", key="storedtoken")
                c.require(i.kwargs.get("name") is kw.get("name"), "NEW", where(i), "the stored name differs from the cluster's", key="storedname")
    for g in I.inlined:
        c.analysed(g)
    if not n:
        raise Broken("create_cluster creates no Cluster")


def call_args(x):
    return list(x.a[1]) + [v for _, v in (x.a[2] or ())]


def judge_new(c, cert, key, token, w, name=None):
    c.require(kp_item(cert, 0) and kp_item(key, 1) and cert.a[0] is key.a[0], "NEW", w,
              "the cluster does not get the certificate and key of one freshly generated pair", key="pair")
    gen = [x for x in subterms(token) if x.k == "call" and ext_name(x) in FRESH] if token is not None else []
    ok = any(name is None or not contains(name, lambda y: y is x) for x in gen)
    c.require(ok, "NEW", w, "the cluster's token is not freshly generated", key="token")


def leaves(v, heap, want):
    """occurrences of the wanted terms in v, from left to right"""
    out = []

    def go(x, depth=0):
        if depth > 40:
            return
        if isinstance(x, tuple):
            for y in x:
                go(y, depth + 1)
        elif isinstance(x, V):
            if x in want:
                out.append(x)
            elif x.k == "ref":
                for s in getattr(heap[x.a[0]], "segs", ()):
                    go(s[1], depth + 1)
            else:
                for y in x.a:
                    go(y, depth + 1)
    go(v)
    return out


def restore_db(c):
    dm = c.prog.cls(DB, "DbDataManager" if (DB + ".DbDataManager") in c.prog.classes else "DataManager")
    enc = dm.find_method("encode_tls_credentials")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("encrypt", "decrypt"))
    I.term_types[SELF] = dm.qual
    A, K = V("param", "tls_cert"), V("param", "tls_key")
    w = f"{enc.module.rel()}:{enc.line}"
    for o in I.run_function(enc, [A, K], selfv=SELF):
        c.paths += 1
        if o.kind == "ret":
            order = leaves(o.val, o.st.heap, (A, K))
            c.require(order == [A, K], "PAIR", w, "the stored credentials are not certificate and key in this order", key="join")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("encrypt", "decrypt", "encode_token", "decode_token", "decode_tls_credentials", "decode_state"))
    I.term_types[SELF] = dm.qual
    n = 0
    for m in dm.methods.values():
        if not any(str(getattr(x, "attr", "")) == "decode_tls_credentials" for x in __import__("ast").walk(m.node)) or m.name == "decode_tls_credentials":
            continue
        for o in I.run_function(m, [V("param", x) for x in m.params()[1:]], selfv=SELF):
            c.paths += 1
            for e in walk_events(events(o.st.trace)):
                if e.kind == "new" and {"tls_cert", "tls_key", "token"} <= set(e.kwargs):
                    n += 1
                    kw = e.kwargs
                    a, k, t = kw["tls_cert"], kw["tls_key"], kw["token"]
                    dec = lambda v, i: v.k == "item" and v.a[1] in (const(i), i) and "decode_tls_credentials" in show(v.a[0])
                    ok = dec(a, 0) and dec(k, 1)
                    c.require(ok, "PAIR", where(e), "certificate and key are not restored in the order they were stored", key="restore")
                    rows = {x.a[0] for v in (a, k, t, kw.get("name")) if v is not None for x in subterms(v)
                            if x.k == "attr" and x.a[1] in ("tls_credentials", "token", "name")}
                    c.require(len(rows) == 1, "PAIR", where(e), "credentials of one cluster are restored from another row", key="row")
                    c.require("decode_token" in show(t) and contains(t, lambda x: x.k == "attr" and x.a[1] == "token"), "PAIR", where(e),
                              "the token is not restored from the stored one", key="token")
        c.analysed(m)
    if not n:
        raise Broken("no cluster is restored from the database")


# ------------------------------------------------------------- db processes

def processes(c, k):
    """the environment and command handed to the scheduler and worker processes of backend k"""
    cred = None
    for m, root, role in (("do_start_cluster", CLUSTER, "SCHEDULER"), ("do_start_worker", WORKER, "WORKER")):
        f = k.find_method(m)
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        n = 0
        for o in I.run_function(f, [root], selfv=SELF):
            c.paths += 1
            if o.st.facts.tr.get(root) is False:
                continue                     # worker and cluster objects are true
            evs = list(walk_events(events(o.st.trace)))
            if m == "do_start_cluster" and cred is None:
                cred = placed(evs)
            for env, cmds, e in launches(evs, role):
                n += 1
                judge_env(c, k, env, e, role, cred, root, cmds)
                if "SCHEDULER" in role:
                    judge_cmd(c, k, cmds, e)
            for e in evs:          # yarn: the worker service is part of the application
                if e.kind == "call" and (ext_name(e.callee) or "") == "skein.Service":
                    env = kwarg(e, "env")
                    judge_env(c, k, env, e, "WORKER", cred, root)
            sec = [e for e in evs if e.kind == "call" and (ext_name(e.callee) or "") == "skein.Security"]
            for e in sec:
                own = lambda v, a: v is not None and v.k == "attr" and v.a[1] == a and cluster_of(v.a[0], root)
                c.require(own(kwarg(e, "cert_bytes"), "tls_cert") and own(kwarg(e, "key_bytes"), "tls_key"), "ENV", where(e),
                          "the application master does not use the cluster's credentials", key="skein")
        for g in I.inlined:
            c.analysed(g)
        if not n and not (role == "WORKER" and k.name == "YarnBackend"):
            raise Broken(f"{k.name}.{m} starts no process")


def cluster_of(v, root):
    return v is root if root is CLUSTER else v.k == "attr" and v.a == V("attr", WORKER, "cluster", 0).a or v.k == "attr" and v.a[0] is WORKER and v.a[1] == "cluster"


def launches(evs, role):
    for e in evs:
        if e.kind != "call":
            continue
        n = ext_name(e.callee) or ""
        if n in ("asyncio.create_subprocess_exec", "subprocess.Popen") and kwarg(e, "env") is not None and kwarg(e, "env") is not NONE \
                and "sudo" not in [x.a[0] for x in e.args if x.k == "const"]:
            yield kwarg(e, "env"), e.args, e
        ob = payload(e)
        if ob is not None:
            env = dict_get(ob, const("env"))
            act = dict_get(ob, const("action"))
            if act and const("start") in act and env:
                yield env[0], [x for x in (dict_get(ob, const("cmd")) or []) + (dict_get(ob, const("stdin")) or []) if x is not None], e
        if n == "skein.Master" and role == "SCHEDULER":
            yield kwarg(e, "env"), [kwarg(e, "script")], e


def placed(evs):
    """{path or name: "tls_cert"/"tls_key"} of where the cluster's credentials are put, plus the workdir yielded"""
    out, state = {}, None
    tmp = {}
    for e in evs:
        if e.kind == "call" and e.get("name") in ("write", "writelines") and e.args:
            for x in subterms(e.args[0], e.heap):
                if x.k == "attr" and x.a[0] is CLUSTER and x.a[1] in ("tls_cert", "tls_key"):
                    p = None
                    for y in subterms(e.recv):
                        if y.k == "call" and (ext_name(y) == "os.open" or y.a[0].k == "builtin" and y.a[0].a[0] == "open"):
                            p = y.a[1][0]
                    if p is not None:
                        out.setdefault(p, set()).add(x.a[1])
                    tmp.setdefault(base_obj(e.recv), set()).add(x.a[1])
        if payload(e) is not None:
            ob = payload(e)
            files, sd = dict_get(ob, const("files")), dict_get(ob, const("staging_dir"))
            if files and files[0] is not None and files[0].k == "ref":
                fo = e.heap[files[0].a[0]]
                for l in fo.layers:
                    if l[0] == "kv":
                        secret = {x.a[1] for x in subterms(l[2], e.heap) if x.k == "attr" and x.a[0] is CLUSTER and x.a[1] in ("tls_cert", "tls_key")}
                        out.setdefault((sd[0], l[1]), set()).update(secret or {"?"})
        elif e.kind == "call" and (ext_name(e.callee) or "") == "skein.Master":
            fv = kwarg(e, "files")
            if fv is not None and fv.k == "ref":
                for l in e.heap[fv.a[0]].layers:
                    if l[0] == "kv":
                        b = base_obj(l[2])
                        out.setdefault(l[1], set()).update(tmp.get(b, {"?"}))
        elif e.kind == "yield" and state is None and e.value.k == "ref":
            w = dict_get(e.heap[e.value.a[0]], const("workdir"))
            state = w[0] if w else None
    return out, state


def payload(e):
    """the dict sent as JSON to the job-queue launcher by this call"""
    if e.kind != "call" or e.get("name") not in ("communicate", "write"):
        return None
    for a in e.args:
        for x in subterms(a):
            if x.k == "call" and ext_name(x) == "json.dumps" and x.a[1] and x.a[1][0].k == "ref":
                ob = e.heap[x.a[1][0].a[0]]
                return ob if ob.kind == "dict" else None
    return None


def meth(x, name):
    return x.k == "call" and x.a[0].k in ("bm", "attr") and x.a[0].a[1] == name


def base_obj(v):
    while v.k in ("attr", "bm") and v.k != "call":
        v = v.a[0]
    return v


def what_at(path, cred, root, cmds=(), heap=None):
    """the secret stored at the path the environment names"""
    files, wd = cred
    cl = CLUSTER if root is CLUSTER else V("attr", WORKER, "cluster", 0)

    def f(x):
        if root is not CLUSTER and x.k == "attr" and x.a[0] is WORKER and x.a[1] == "cluster":
            return CLUSTER
        return None
    path = norm(path)
    if wd is not None:
        def g(x):
            if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[0] is CLUSTER and x.a[0].a[1] == "state" and x.a[1] in (const("workdir"), "workdir"):
                return wd
            return None
        path = rewrite(path, g)
    for p, s in files.items():
        if isinstance(p, tuple):
            d, n = p
            if path is n and any("stagein" in show(y) and strip(norm(d)) in {norm(z) for z in subterms(y)} for x in cmds if x is not None for y in subterms(x, heap)
                                 if y.k in ("str", "const", "binop")):
                return s
            if path.k == "call" and (ext_name(path) or "").endswith("path.join") and len(path.a[1]) == 2 and path.a[1][1] is n and norm(path.a[1][0]) is norm(d):
                return s
        elif strip(p) is strip(path) or p is path:
            return s
    return None


def norm(path):
    return strip(rewrite(path, lambda x: CLUSTER if x.k == "attr" and x.a[0] is WORKER and x.a[1] == "cluster" else None))


def strip(t):
    """os.path.join and getpwnam give the same result for the same arguments: forget the call's number"""
    def f(x):
        if x.k == "call" and ((ext_name(x) or "").endswith(("path.join", "getpwnam")) or x.a[0].k == "bm" and x.a[0].a[1] == "format"):
            return V("call", rewrite(x.a[0], f), tuple(rewrite(y, f) for y in x.a[1]), tuple((n, rewrite(y, f)) for n, y in x.a[2]), 0)
        return None
    return rewrite(t, f)


def judge_env(c, k, env, e, role, cred, root, cmds=()):
    w = f"{where(e)} [{k.name}]"
    if env is None or env.k != "ref":
        c.fail("ENV", w, "the environment of the process cannot be traced to the cluster's settings", key="env")
        return
    ob = e.heap[env.a[0]]

    def vals(key):
        return [x for x in (dict_get(ob, const(key)) or [None]) if x is None or not contains(x, lambda y: y.k == "ext" and y.a[0] == "os.environ")]
    own = lambda v: v is not None and v.k == "attr" and v.a[1] == "token" and cluster_of(v.a[0], root)
    v = vals("DASK_GATEWAY_API_TOKEN")
    c.require(v and all(own(x) for x in v), "ENV", w, f"the {role.lower()} does not get the cluster's own token", key=f"token:{role}")
    v = vals(P + "REQUIRE_ENCRYPTION")
    c.require(v and all(x is not None and x.k == "const" and str(x.a[0]).lower() in ("true", "1") for x in v), "ENV", w,
              f"the {role.lower()} is not told to require encryption", key=f"require:{role}")
    for key, want in (("TLS__CA_FILE", "tls_cert"), (f"TLS__{role}__CERT", "tls_cert"), (f"TLS__{role}__KEY", "tls_key")):
        v = vals(P + key)
        ok = bool(v) and all(x is not None and what_at(x, cred, root, cmds, e.heap) == {want} for x in v)
        c.require(ok, "ENV", w, f"{P + key} does not name the file holding the cluster's {want}", key=f"{key}:{role}")


def judge_cmd(c, k, cmds, e):
    w = f"{where(e)} [{k.name}]"
    ok = any(tls_proto(x, e.heap) for x in cmds if x is not None)
    c.require(ok, "TLS", w, "the scheduler is not started with --protocol tls", key="protocol")


def tls_proto(v, heap):
    """some list reachable from v has '--protocol', 'tls' in sequence, and no later --protocol"""
    for x in subterms(v, heap):
        if x.k == "ref" and getattr(heap[x.a[0]], "segs", None):
            flat = [s[1] if s[0] == "one" else None for s in heap[x.a[0]].segs]
        elif x.k == "tuple":
            flat = list(x.a[0] if x.a and isinstance(x.a[0], tuple) else x.a)
        else:
            continue
        at = [i for i, y in enumerate(flat) if y is const("--protocol")]
        if at and at[-1] + 1 < len(flat) and flat[at[-1] + 1] is const("tls"):
            return True
        if any(y is not None and y.k == "const" and isinstance(y.a[0], str) and "--protocol=tls" in y.a[0].replace(" ", "=") for y in flat):
            return True
    return False


def inprocess(c):
    k = c.prog.cls(B + ".inprocess", "InProcessBackend")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("setup_working_directory", "get_tls_paths"))
    I.term_types[SELF] = k.qual
    n = 0
    for m, root in (("do_start_cluster", CLUSTER), ("do_start_worker", WORKER)):
        f = k.find_method(m)
        for o in I.run_function(f, [root], selfv=SELF):
            c.paths += 1
            for e in walk_events(events(o.st.trace)):
                if e.kind != "call":
                    continue
                nm = (ext_name(e.callee) or "").split(".")[-1]
                if nm in ("Scheduler", "Worker"):
                    n += 1
                    s = kwarg(e, "security")
                    ok = s is not None and s.k == "call" and (ext_name(s) or "").endswith("Security")
                    c.require(ok, "ENV", where(e), f"the {nm.lower()} gets no security settings", key=f"inproc:{nm}")
                    if ok:
                        for a, i in (("tls_ca_file", 0), (f"tls_{nm.lower()}_cert", 0), (f"tls_{nm.lower()}_key", 1)):
                            v = kwarg(s, a)
                            good = v is not None and v.k == "item" and v.a[1] in (const(i), i) and "get_tls_paths" in show(v.a[0]) \
                                and all(cluster_of(x, root) for x in v.a[0].a[1])
                            c.require(good, "ENV", where(e), f"{a} is not the cluster's", key=f"inproc:{nm}:{a}")
                    if nm == "Scheduler":
                        c.require(kwarg(e, "protocol") is const("tls"), "TLS", where(e), "the scheduler does not listen on TLS", key="inproc")
    for g in I.inlined:
        c.analysed(g)
    if n < 2:
        raise Broken("InProcessBackend starts no scheduler and worker")


# --------------------------------------------------------------------- kube

def kube_secret(c):
    k = c.prog.cls(KC, "KubeController")
    f = k.find_method("make_secret")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("new_keypair", "get_labels"))
    I.term_types[SELF] = k.qual
    for o in I.run_function(f, [V("param", "cluster_name")], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        w = f"{f.module.rel()}:{f.line}"
        data = [d for x in subterms(o.val, o.st.heap) if x.k == "ref" for d in [o.st.obj(x)]
                if getattr(d, "layers", None) and any(l[0] == "kv" and l[1] is const("dask.pem") for l in d.layers)]
        c.require(len(data) == 1, "NEW", w, "the secret holds no credentials", key="secret")
        for d in data:
            g = lambda key: next(iter([x for x in (dict_get(d, const(key)) or []) if x is not None]), None)
            pair = [next(iter([x for x in subterms(g(n)) if x.k == "item" and is_kp(x.a[0])]), None) if g(n) is not None else None for n in ("dask.crt", "dask.pem")]
            judge_new(c, pair[0], pair[1], g("api-token"), w)
    for g in I.inlined:
        c.analysed(g)


MOUNT = "/etc/dask-credentials"


def kube_pod(c):
    k = c.prog.cls(KC, "KubeController")
    f = k.find_method("make_pod")
    N = V("param", "cluster_name")
    for worker in (False, True):
        role = "WORKER" if worker else "SCHEDULER"
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("get_labels",))
        I.term_types[SELF] = k.qual
        for o in I.run_function(f, [V("param", "namespace"), N, V("param", "config"), const(worker)], selfv=SELF):
            c.paths += 1
            if o.kind != "ret":
                continue
            w = f"{f.module.rel()}:{f.line} [{role.lower()}]"
            env, mounts, secrets, cmds = {}, [], [], []
            for x in subterms(o.val, o.st.heap):
                if x.k != "ref":
                    continue
                d = o.st.obj(x)
                if getattr(d, "layers", None):
                    g = lambda key: [y for y in (dict_get(d, const(key)) or []) if y is not None]
                    if g("mountPath"):
                        mounts.append((g("mountPath")[0], g("name")[0] if g("name") else None))
                    for s in g("secret"):
                        if s.k == "ref":
                            sn = dict_get(o.st.obj(s), const("secretName")) or [None]
                            secrets.append((g("name")[0] if g("name") else None, sn[0]))
                    if any(y.k == "ref" for y in g("env")) or g("args"):
                        cmds += g("args") + g("command")
            at = [n for p, n in mounts if p is const(MOUNT) or p.k == "const" and str(p.a[0]).rstrip("/") == MOUNT]
            want = [s for n, s in secrets if n in at]
            c.require(len(at) == 1 and len(want) == 1 and is_secret_name(want[0], N), "ENV", w, "the pod does not mount the cluster's own secret", key=f"mount:{role}")
            envs = pod_env(o)
            for key, val in (("DASK_GATEWAY_API_TOKEN", "api-token"), (P + "TLS__CA_FILE", "dask.crt"), (P + f"TLS__{role}__CERT", "dask.crt"), (P + f"TLS__{role}__KEY", "dask.pem")):
                v = envs.get(key)
                c.require(v is not None and v.k == "const" and v.a[0] == f"{MOUNT}/{val}", "ENV", w, f"{key} does not name the cluster's credentials", key=f"kube:{key}")
            if not worker:
                c.require(any(tls_proto(x, o.st.heap) for x in cmds), "TLS", w, "the scheduler is not started with --protocol tls", key="kube")
            else:
                ok = any(y.k in ("str", "const", "binop", "oneof") and show(y).lstrip("f'\"").startswith("tls://") for x in cmds for y in subterms(x, o.st.heap))
                c.require(ok, "TLS", w, "the worker is not given the scheduler's TLS address", key="kubeworker")
        for g in I.inlined:
            c.analysed(g)


def is_secret_name(v, n):
    return v is not None and contains(v, lambda x: x is n)


def pod_env(o):
    """name -> entry of the container's env list as Kubernetes applies it: a later entry replaces an earlier one"""
    out = {}
    for x in subterms(o.val, o.st.heap):
        if x.k != "ref" or o.st.obj(x).kind != "dict":
            continue
        d = o.st.obj(x)
        for l in d.layers:
            if l[0] != "kv" or l[1] is not const("env") or l[2].k != "ref":
                continue
            for s in o.st.obj(l[2]).segs:
                if s[0] == "one" and s[1].k == "ref":
                    e = o.st.obj(s[1])
                    n = [y for y in (dict_get(e, const("name")) or []) if y is not None]
                    if len(n) == 1 and n[0].k == "const":
                        v = dict_get(e, const("value")) or [None]
                        out[n[0].a[0]] = v[0] if len(v) == 1 and v[0] is not None else s[1]
                        continue
                out = {}                 # entries with other names: they may replace any earlier one
    return out


def kube_load(c):
    """KubeBackend keeps, per cluster, the credentials of the secret its status names"""
    k = c.prog.cls(KB, "KubeBackend")
    n = 0
    import ast
    def calls(m):
        return {x.func.attr for x in ast.walk(m.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"}

    def reach(m):
        seen, todo = set(), [m.name]
        while todo:
            for x in calls(k.methods[todo.pop()]) & set(k.methods):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    sets_ = {m.name for m in k.methods.values() if any(isinstance(x, ast.Attribute) and x.attr == "tls_key" for x in ast.walk(m.node))}
    sets_ |= {m.name for m in k.methods.values() if reach(m) & sets_ and m.name.startswith("sync_cluster") and not m.name.endswith("loop")}
    inner = {x for m in sets_ for x in reach(k.methods[m])}      # helpers: analysed where they are called
    for m in k.methods.values():
        if m.name not in sets_ or m.name in inner:
            continue
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        for o in I.run_function(m, [V("param", x) for x in m.params()[1:]], selfv=SELF):
            c.paths += 1
            sets = {}
            for e in walk_events(events(o.st.trace)):
                if e.kind in ("setattr", "store") and e.attr in ("tls_cert", "tls_key", "token") and not (e.value.k == "const" and not e.value.a[0]):
                    sets.setdefault(e.obj, {})[e.attr] = (e.value, e)
                elif e.kind == "new" and "tls_key" in e.kwargs:
                    pass
            for ob, d in sets.items():
                for a, (v, e) in d.items():
                    n += 1
                    key = {"tls_cert": "dask.crt", "tls_key": "dask.pem", "token": "api-token"}[a]
                    old = v.k == "attr" and v.a[1] == a and contains(v.a[0], lambda x: x.k == "attr" and x.a[1] == "clusters")
                    sec = contains(v, lambda x: x.k == "item" and x.a[1] in (const(key), key) and x.a[0].k == "attr" and x.a[0].a[1] == "data")
                    c.require(old or sec, "PAIR", where(e), f"{a} is not taken from the cluster's secret", key=f"kube:{a}")
                srcs = {root_of(v) for v, _ in d.values()}
                c.require(len(srcs) == 1, "PAIR", where(e), "credentials are combined from two sources", key="kube:mix")
        c.analysed(m)
    if not n:
        raise Broken("KubeBackend loads no credentials")


def root_of(v):
    for x in subterms(v):
        if x.k == "attr" and x.a[1] == "data":
            return x.a[0]
    return v.a[0] if v.k == "attr" else v


# ------------------------------------------------------------------- client

def client_ctx(c):
    k = c.prog.cls(CL, "GatewaySecurity")
    f = k.find_method("get_connection_args")
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = k.qual
    n = 0
    for o in I.run_function(f, [V("param", "role")], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        n += 1
        w = f"{f.module.rel()}:{f.line}"
        evs = list(walk_events(events(o.st.trace)))
        files = {}
        for e in evs:
            if e.kind == "call" and e.get("name") in ("write", "write_text", "write_bytes"):
                for y in subterms(e.recv):
                    if y.k == "call" and (y.a[0].k == "builtin" and y.a[0].a[0] == "open" or ext_name(y) in ("os.open", "io.open")):
                        files[strip(y.a[1][0])] = e.args[0]
        ob = o.st.obj(o.val) if o.val.k == "ref" else None
        ctx = [x for x in (dict_get(ob, const("ssl_context")) or [])] if ob is not None else []
        enc = [x for x in (dict_get(ob, const("require_encryption")) or [])] if ob is not None else []
        c.require(len(ctx) == 1 and ctx[0] is not None and len(enc) == 1 and enc[0] is const(True), "CLIENT", w,
                  "connections are not required to be encrypted with a context", key="args")
        if len(ctx) != 1 or ctx[0] is None:
            continue
        x = ctx[0]
        verify = trusted = presented = False
        if x.k == "call" and (ext_name(x) or "").endswith("create_default_context"):
            purpose = kwarg(x, "purpose", 0)
            verify = purpose is None or "SERVER_AUTH" in show(purpose)
            for a, i in (("cafile", 1),):
                v = kwarg(x, a, i)
                if v is not None and v is not NONE:
                    trusted = self_attr(files.get(strip(v)), "tls_cert")
            v = kwarg(x, "cadata", 3)
            trusted = trusted or self_attr(v, "tls_cert")
        for e in evs:
            if e.kind in ("setattr", "store") and e.obj is x and e.attr == "verify_mode":
                verify = "CERT_REQUIRED" in show(e.value)
            if e.kind == "call" and e.recv is x and e.get("name") == "load_cert_chain":
                cp, kp = kwarg(e, "certfile", 0), kwarg(e, "keyfile", 1)
                presented = cp is not None and kp is not None and self_attr(files.get(strip(cp)), "tls_cert") and self_attr(files.get(strip(kp)), "tls_key")
            if e.kind == "call" and e.recv is x and e.get("name") == "load_verify_locations":
                v = kwarg(e, "cafile", 0)
                t = v is not None and self_attr(files.get(strip(v)), "tls_cert") or self_attr(kwarg(e, "cadata", 2), "tls_cert")
                trusted = t
            if e.kind == "call" and e.recv is x and e.get("name") in ("load_default_certs", "set_default_verify_paths"):
                trusted = False
        c.require(verify, "CLIENT", w, "the scheduler's certificate is not verified", key="verify")
        c.require(trusted, "CLIENT", w, "the scheduler is not verified against the cluster's own certificate only", key="trusted")
        c.require(presented, "CLIENT", w, "the cluster's certificate and key are not presented", key="presented")
    c.analysed(f)
    if not n:
        raise Broken("get_connection_args never returns")


def self_attr(v, a):
    return v is not None and any(x.k == "attr" and x.a[0] is SELF and x.a[1] == a for x in subterms(v)) and \
        not any(x.k == "attr" and x.a[0] is SELF and x.a[1] in ("tls_cert", "tls_key") and x.a[1] != a for x in subterms(v))


def client_use(c):
    # the report's security object is made of the report's own credentials
    k = c.prog.cls(CL, "ClusterReport")
    f = k.find_method("security")
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = k.qual
    n = 0
    for o in I.run_function(f, [], selfv=SELF):
        c.paths += 1
        if o.kind != "ret" or o.val is NONE:
            continue
        n += 1
        ob = o.st.obj(o.val) if o.val.k == "ref" else None
        news = [e for e in walk_events(events(o.st.trace)) if e.kind == "new" and e.get("kwargs") is not None]
        vals = {e.attr: e.value for e in walk_events(events(o.st.trace)) if e.kind in ("setattr", "store") and e.obj is o.val}
        for e in news:
            vals.update({a: v for a, v in e.kwargs.items()})
        w = f"{f.module.rel()}:{f.line}"
        c.require(ob is not None and self_attr(vals.get("tls_cert"), "tls_cert") and self_attr(vals.get("tls_key"), "tls_key"), "CLIENT", w,
                  "the security object does not hold the report's certificate and key", key="report")
    if not n:
        raise Broken("ClusterReport.security never returns credentials")
    c.analysed(f)
    # report from the JSON message: certificate and key of the same message
    f = k.find_method("_from_json")
    I = Interp(c.prog, c.types)
    for o in I.run_function(f, [V("cls", k.qual)] + [V("param", x) for x in f.params()[1:]] if f.kind != "classmethod" else
                            [V("param", x) for x in f.params()[1:]], selfv=V("cls", k.qual) if f.kind == "classmethod" else None):
        c.paths += 1
        break
    c.analysed(f)
    # GatewayCluster: the rpc and the Client use the security of the cluster's own report
    g = c.prog.cls(CL, "GatewayCluster")
    n = 0
    for m in g.methods.values():
        I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name not in ("__init__",) and not fn.name.startswith("<"))
        I.term_types[SELF] = g.qual
        for o in I.run_function(m, [V("param", x) for x in m.params()[1:]], selfv=SELF):
            c.paths += 1
            for e in walk_events(events(o.st.trace)):
                if e.kind in ("setattr", "store") and e.attr == "security" and e.obj is SELF and e.value is not NONE:
                    n += 1
                    v = e.value
                    ok = v.k == "attr" and v.a[1] == "security" and contains(v.a[0], lambda x: own_name(x, e)) and \
                        contains(v.a[0], lambda x: x.k == "call" and ("_wait_for_start" in show(x.a[0]) or "_get_cluster_report" in show(x.a[0]) or "get_cluster" in show(x.a[0])))
                    c.require(ok, "CLIENT", where(e), "the credentials used are not those returned for this cluster", key="own")
                elif e.kind == "call":
                    nm = (ext_name(e.callee) or "").split(".")[-1]
                    if nm == "rpc" or nm == "connect":
                        n += 1
                        v = kwarg(e, "connection_args")
                        ok = v is not None and "get_connection_args" in show(v) and contains(v, lambda x: x.k == "attr" and x.a[0] is SELF and x.a[1] == "security")
                        c.require(ok, "CLIENT", where(e), "the scheduler is contacted without the cluster's credentials", key="rpc")
                    elif nm == "Client" and (ext_name(e.callee) or "").startswith(("distributed", "dask.distributed")) and e.args and e.args[0] is SELF:
                        n += 1
                        v = kwarg(e, "security")
                        ok = v is not None and v.k == "attr" and v.a[0] is SELF and v.a[1] == "security"
                        c.require(ok, "CLIENT", where(e), "the Client is created without the cluster's credentials", key="client")
        c.analysed(m)
    if n < 3:
        raise Broken("GatewayCluster's connections not found")


def own_name(x, e):
    """x is the name of the GatewayCluster at this event"""
    if x.k == "attr" and x.a[0] is SELF and x.a[1] == "name":
        return True
    return x is e.store.get((SELF, "name")) if isinstance(e.store, dict) else False


def connector(c):
    k = c.prog.cls("dask_gateway.comm", "GatewayConnector")
    f = k.find_method("connect")
    I = Interp(c.prog, c.types)
    I.term_types[SELF] = k.qual
    n = 0
    A = V("param", "connection_args")
    for o in I.run_function(f, [V("param", x) for x in f.params()[1:3]], selfv=SELF, kwargs={"**": (A,)}):
        c.paths += 1
        if o.kind != "ret":
            continue
        for x in subterms(o.val, o.st.heap):
            if x.k == "call" and (ext_name(x) or "").split(".")[-1] in ("TLS", "TCP"):
                n += 1
                w = f"{f.module.rel()}:{f.line}"
                s = x.a[1][0] if x.a[1] else kwarg(x, "stream")
                ok = s is not None and (ext_name(x) or "").endswith("TLS")
                st = [y for y in subterms(s) if meth(y, "start_tls")] if s is not None else []
                good = bool(st) and all("connection_args" in show(kwarg(y, "ssl_options", 1)) and "ssl_context" in show(kwarg(y, "ssl_options", 1)) for y in st)
                c.require(ok and good, "CLIENT", w, "a connection is used without the cluster's TLS context", key="comm")
    c.analysed(f)
    if not n:
        raise Broken("GatewayConnector.connect returns no comm")
