"""C10: user options cannot override the settings the gateway requires."""
from checks import c09
from checks.c09 import CLUSTER, KC, SELF, WORKER, P, cluster_of, concrete, launches, placed, pod_env
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, dict_get, ext_name, kwarg, subterms, where
from sa.state import events, walk_events
from sa.values import NONE, V, const, show

B = "dask_gateway_server.backends"
REQ = V("param", "request")


def run(c):
    c.rule("ENV", "the settings the gateway requires are put into the environment after the user's own variables")
    c.rule("ARGS", "the arguments the gateway requires follow the configured command, so that they win")
    c.rule("NAME", "a worker runs under the name the gateway gave it")
    c.rule("OPTS", "only declared options reach the cluster's configuration")
    for k in concrete(c):
        processes(c, k)
    kube(c)
    yarn(c)
    options(c)
    start(c)
    c.floor("ENV", 60)
    c.floor("ARGS", 8)


def processes(c, k):
    cred = None
    for m, root, role in (("do_start_cluster", CLUSTER, "SCHEDULER"), ("do_start_worker", WORKER, "WORKER")):
        f = k.find_method(m)
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        for o in I.run_function(f, [root], selfv=SELF):
            c.paths += 1
            if o.st.facts.tr.get(root) is False:
                continue
            evs = list(walk_events(events(o.st.trace)))
            if m == "do_start_cluster" and cred is None:
                cred = placed(evs)
            for env, cmds, e in launches(evs, role):
                required(c, k, env, e, role, root)
                judge_env(c, k, env, e, role, cred, root, cmds)
                args(c, k, cmds, e, role, root)
            for e in evs:
                if e.kind == "call" and (ext_name(e.callee) or "") == "skein.Service":
                    required(c, k, kwarg(e, "env"), e, "WORKER", root)
                    judge_env(c, k, kwarg(e, "env"), e, "WORKER", cred, root, ())
        for g in I.inlined:
            c.analysed(g)


class Relay:
    """lets C09's judgement of the TLS settings count as this property's rule"""

    def __init__(self, c):
        self.c = c

    def __getattr__(self, n):
        return getattr(self.c, n)

    def require(self, cond, rid, w, msg, key=None):
        self.c.require(cond, "ENV", w, msg, key=key)

    def fail(self, rid, w, msg, key=None):
        self.c.fail("ENV", w, msg, key=key)


def judge_env(c, k, env, e, role, cred, root, cmds):
    c09.judge_env(Relay(c), k, env, e, role, cred, root, cmds)


def required(c, k, env, e, role, root):
    w = f"{where(e)} [{k.name}]"
    if env is None or env.k != "ref":
        c.fail("ENV", w, "the environment of the process cannot be traced", key="env")
        return
    ob = e.heap[env.a[0]]
    for key, ok in (("DASK_GATEWAY_API_URL", lambda x: x.k == "attr" and x.a[0] is SELF and x.a[1] == "api_url"),
                    ("DASK_GATEWAY_CLUSTER_NAME", lambda x: x.k == "attr" and x.a[1] == "name" and cluster_of(x.a[0], root))):
        v = [x for x in (dict_get(ob, const(key)) or [None]) if x is None or not contains(x, lambda y: y.k == "ext" and y.a[0] == "os.environ")]
        c.require(v and all(x is not None and ok(x) for x in v), "ENV", w, f"{key} of the {role.lower()} may be the user's own value", key=f"{key}:{role}")


def user(v):
    """a value taken from the cluster's configuration"""
    return v is not None and contains(v, lambda x: x.k == "attr" and x.a[1] in ("scheduler_cmd", "worker_cmd", "environment"))


FLAGS = {"SCHEDULER": ("--protocol", "--preload", "--dg-api-address", "--dg-heartbeat-period"), "WORKER": ("--name",)}


def args(c, k, cmds, e, role, root):
    w = f"{where(e)} [{k.name}]"
    found = {f: False for f in FLAGS[role]}
    for top in cmds:
        if top is None:
            continue
        for x in subterms(top, e.heap):
            if x.k != "ref" or not getattr(e.heap[x.a[0]], "segs", None):
                continue
            segs = e.heap[x.a[0]].segs
            flat = [s[1] if s[0] == "one" else None for s in segs]
            for f in FLAGS[role]:
                at = [i for i, y in enumerate(flat) if y is const(f)]
                if not at:
                    continue
                after = [s for s in segs[at[-1]:] if s[0] != "one" or user(s[1])]
                ok = not after
                if f == "--name":
                    nxt = flat[at[-1] + 1] if at[-1] + 1 < len(flat) else None
                    good = nxt is not None and (nxt.k == "attr" and nxt.a[1] == "name" and nxt.a[0] is WORKER or
                                                nxt.k == "const" and "DASK_GATEWAY_WORKER_NAME" in str(nxt.a[0]))
                    c.require(good, "NAME", w, "the worker is not started under its own name", key=f"name:{k.name}")
                c.require(ok, "ARGS", w, f"arguments of the user's configuration follow {f}", key=f"after:{f}")
                found[f] = True
    for f, ok in found.items():
        c.require(ok, "ARGS", w, f"the {role.lower()} is started without {f}", key=f"flag:{f}")


def kube(c):
    k = c.prog.cls(KC, "KubeController")
    f = k.find_method("make_pod")
    ns, n = V("param", "namespace"), V("param", "cluster_name")
    for worker in (False, True):
        role = "WORKER" if worker else "SCHEDULER"
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name == "get_labels")
        I.term_types[SELF] = k.qual
        for o in I.run_function(f, [ns, n, V("param", "config"), const(worker)], selfv=SELF):
            c.paths += 1
            if o.kind != "ret":
                continue
            w = f"{f.module.rel()}:{f.line} [{role.lower()}]"
            env = pod_env(o)
            v = env.get("DASK_GATEWAY_API_URL")
            c.require(v is not None and v.k == "attr" and v.a[0] is SELF and v.a[1] == "api_url", "ENV", w,
                      "DASK_GATEWAY_API_URL may be the user's own value", key=f"kube:url:{role}")
            v = env.get("DASK_GATEWAY_CLUSTER_NAME")
            c.require(v is not None and contains(v, lambda x: x is ns) and contains(v, lambda x: x is n), "ENV", w,
                      "DASK_GATEWAY_CLUSTER_NAME may be the user's own value", key=f"kube:name:{role}")
            for key in ("DASK_GATEWAY_API_TOKEN", P + "TLS__CA_FILE", P + f"TLS__{role}__CERT", P + f"TLS__{role}__KEY"):
                v = env.get(key)
                c.require(v is not None and v.k == "const" and str(v.a[0]).startswith(c09.MOUNT + "/"), "ENV", w,
                          f"{key} may be the user's own value", key=f"kube:{key}:{role}")
            if worker:
                v = env.get("DASK_GATEWAY_WORKER_NAME")
                c.require(v is not None and v.k == "ref" and contains(v, lambda x: x is const("metadata.name"), o.st.heap), "NAME", w,
                          "the worker's name is not that of its pod", key="kube:worker")
            cmds = []
            for x in subterms(o.val, o.st.heap):
                if x.k == "ref" and o.st.obj(x).kind == "dict":
                    for l in o.st.obj(x).layers:
                        if l[0] == "kv" and l[1] in (const("args"), const("command")):
                            cmds.append(l[2])

            class E:
                heap = o.st.heap
                func, line = f, f.line
            flags = [x for x in FLAGS[role] if x != "--dg-heartbeat-period" or True]
            kargs(c, cmds, o, role, w, flags)
        for g in I.inlined:
            c.analysed(g)


def kargs(c, cmds, o, role, w, flags):
    for f in flags:
        ok = False
        for x in cmds:
            if x.k != "ref":
                continue
            segs = o.st.obj(x).segs
            flat = [s[1] if s[0] == "one" else None for s in segs]
            at = [i for i, y in enumerate(flat) if y is const(f)]
            if at and all(s[0] == "one" and not user(s[1]) for s in segs[at[-1]:]):
                ok = True
                if f == "--name":
                    c.require(flat[at[-1] + 1] is const("$(DASK_GATEWAY_WORKER_NAME)"), "NAME", w, "the worker is not started under its pod's name", key="kube:arg")
        c.require(ok, "ARGS", w, f"{f} is missing or followed by arguments of the user's configuration", key=f"kube:{f}")


def yarn(c):
    k = c.prog.cls(B + ".yarn", "YarnBackend")
    f = k.find_method("do_start_worker")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name == "_get_app_client")
    I.term_types[SELF] = k.qual
    n = 0
    for o in I.run_function(f, [WORKER], selfv=SELF):
        c.paths += 1
        for e in walk_events(events(o.st.trace)):
            if e.kind != "call" or not any(contains(x, lambda y: y.k in ("attr", "bm") and y.a[1] == "add_container") for x in [e.callee] + list(e.args)):
                continue
            n += 1
            env = kwarg(e, "env")
            ob = e.heap[env.a[0]] if env is not None and env.k == "ref" else None
            v = dict_get(ob, const("DASK_GATEWAY_WORKER_NAME")) if ob is not None else None
            ok = bool(v) and all(x is not None and x.k == "attr" and x.a[0] is WORKER and x.a[1] == "name" for x in v)
            c.require(ok, "NAME", where(e), "the container is not told the worker's own name", key="yarn")
            v = dict_get(ob, const("DASK_GATEWAY_SCHEDULER_ADDRESS")) if ob is not None else None
            ok = bool(v) and all(x is not None and x.k == "attr" and x.a[1] == "scheduler_address" and cluster_of(x.a[0], WORKER) for x in v)
            c.require(ok, "NAME", where(e), "the container is not told the address of its own scheduler", key="yarnaddr")
    for g in I.inlined:
        c.analysed(g)
    if not n:
        raise Broken("YarnBackend adds no container")


def options(c):
    """parse_options and transform_options produce entries for declared fields only"""
    k = c.prog.cls("dask_gateway_server.options", "Options")
    fields = lambda x: x.k == "elem" and contains(x, lambda y: y.k == "attr" and y.a[0] is SELF and y.a[1] == "fields")
    for m, arg in (("parse_options", REQ), ("transform_options", V("param", "options"))):
        f = k.find_method(m)
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        n = 0
        for o in I.run_function(f, [arg], selfv=SELF):
            c.paths += 1
            if o.kind != "ret":
                continue
            w = f"{f.module.rel()}:{f.line}"
            ob = o.st.obj(o.val) if o.val.k == "ref" else None
            if ob is None or ob.kind != "dict":
                c.fail("OPTS", w, f"{m} does not return a new mapping of declared options", key=f"{m}:shape")
                continue
            n += 1
            for l in ob.layers:
                keys = [l[1]] if l[0] == "kv" else [x[0] for x in l[1]] if l[0] == "rep" else [None] if l[0] == "src" else []
                for x in keys:
                    ok = x is not None and contains(x, fields) and not contains(x, lambda y: y is arg)
                    c.require(ok, "OPTS", w, "an entry that no declared field stands for is taken over from the request", key=f"{m}:key")
        c.analysed(f)
        if not n:
            raise Broken(f"{m} never returns")
    f = k.find_method("get_configuration")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name == "transform_options")
    I.term_types[SELF] = k.qual
    O = V("param", "options")
    for o in I.run_function(f, [O, V("param", "user")], selfv=SELF):
        c.paths += 1
        if o.kind == "ret":
            raw = [x for x in subterms(o.val, o.st.heap) if x is O]
            via = [x for x in subterms(o.val, o.st.heap) if x.k == "call" and "transform_options" in show(x.a[0])]
            c.require(bool(via), "OPTS", f"{f.module.rel()}:{f.line}", "the configuration does not stem from the declared fields", key="conf")
    c.analysed(f)


def start(c):
    """both backend families build the configuration from the processed options only"""
    k = c.prog.cls(B + ".base", "Backend")
    f = k.find_method("process_cluster_options")
    I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("get_cluster_options", "parse_options", "get_configuration"))
    I.term_types[SELF] = k.qual
    n = 0
    for o in I.run_function(f, [V("param", "user"), REQ], selfv=SELF):
        c.paths += 1
        if o.kind != "ret":
            continue
        n += 1
        w = f"{f.module.rel()}:{f.line}"

        def via(x):
            return x.k == "call" and "parse_options" in show(x.a[0])
        direct = [x for x in free(o.val, via, o.st.heap) if x is REQ]
        c.require(not direct, "OPTS", w, "the request reaches the configuration without passing the declared options", key="direct")
        c.require(contains(o.val, via, o.st.heap), "OPTS", w, "the options are not checked against the declared ones", key="parsed")
    if not n:
        raise Broken("process_cluster_options never returns")
    c.analysed(f)
    for q in ((B + ".db_base", "DBBackendBase"), (B + ".kubernetes.backend", "KubeBackend")):
        k = c.prog.cls(*q)
        f = k.find_method("start_cluster")
        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name in ("process_cluster_options", "create_cluster"))
        I.term_types[SELF] = k.qual
        m = 0
        O = V("param", "cluster_options")
        for o in I.run_function(f, [V("param", "user"), O], selfv=SELF):
            c.paths += 1
            for e in walk_events(events(o.st.trace)):
                if e.kind != "call" or is_process(e.result):
                    continue
                if e.get("name") in ("create_cluster", "create_namespaced_custom_object"):
                    m += 1
                    vals = list(e.args) + list(e.kwargs.values())
                    ok = not any(y is O for x in vals for y in free(x, is_process, e.heap))
                    c.require(ok and any(contains(x, is_process, e.heap) for x in vals), "OPTS", where(e),
                              "the cluster is created from unchecked options", key="create")
        c.analysed(f)
        if not m:
            raise Broken(f"{k.name}.start_cluster creates nothing")


def is_process(x):
    return isinstance(x, V) and x.k == "call" and "process_cluster_options" in show(x.a[0])


def free(v, stop, heap):
    """subterms of v outside the terms for which stop holds"""
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        if stop(x):
            continue
        out.append(x)
        todo.extend(x.a)
        if x.k == "ref" and heap is not None and x.a[0] in heap:
            ob = heap[x.a[0]]
            for l in list(getattr(ob, "layers", ()) or ()) + list(getattr(ob, "segs", ()) or ()):
                todo.extend(y for y in l if isinstance(y, (V, tuple)))
            if isinstance(getattr(ob, "d", None), dict):
                todo.extend(y for y in ob.d.values() if isinstance(y, (V, tuple)))
    return out
