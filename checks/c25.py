"""C25: every Kubernetes object a cluster owns is tied to it and created idempotently.

The controller's reconciliation is followed from every stage a cluster object
can be in (nothing created yet, scheduler up, service up, running and scaling,
shutting down, scheduler gone), and every call of the Kubernetes API it makes
is, one at a time, made to fail in every way that is told apart.
"""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import is_log, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from .kube import API, CFG, KIND, Kube, NAME, NS, PNAME, PUID, SELF, UID, api, evs

SP, CRED, SVC = (V("str", const(f"recorded {x} of "), NAME) for x in ("pod", "secret", "service"))


def lookup(heap, v, key):
    """value of a key of a dict, as far as it is determined; the configured extra labels are the administrator's"""
    o = heap.get(v.a[0]) if v is not None and v.k == "ref" else None
    if o is None or o.kind != "dict":
        return None
    for l in reversed(o.layers):
        if l[0] == "kv":
            if l[1] == const(key):
                return l[2]
            if l[1].k != "const":
                return None
        elif l[0] == "src":
            if CFG not in set(subterms(l[1])):
                return None
        else:
            return None
    return None


def items(heap, v):
    o = heap.get(v.a[0]) if v is not None and v.k == "ref" else None
    if o is None or o.kind != "list" or any(g[0] != "one" for g in o.segs):
        return None
    return [g[1] for g in o.segs]


STAGES = {
    "nothing created": (None, dict(), "absent", False),
    "scheduler created, not seen": (dict(phase="Pending", credentials=CRED, schedulerPod=SP), dict(), "absent", False),
    "scheduler starting": (dict(phase="Pending", credentials=CRED, schedulerPod=SP), dict(), "waiting", False),
    "scheduler running": (dict(phase="Pending", credentials=CRED, schedulerPod=SP), dict(), "running", False),
    "scheduler running, endpoints ready": (dict(phase="Pending", credentials=CRED, schedulerPod=SP), dict(), "running", True),
    "scheduler terminated": (dict(phase="Pending", credentials=CRED, schedulerPod=SP), dict(), "terminated", False),
    "more workers wanted": (dict(phase="Running", credentials=CRED, schedulerPod=SP, service=SVC), dict(replicas=2), "running", True),
    "fewer workers wanted": (dict(phase="Running", credentials=CRED, schedulerPod=SP, service=SVC), dict(replicas=0), "running", True),
    "running, scheduler terminated": (dict(phase="Running", credentials=CRED, schedulerPod=SP, service=SVC), dict(replicas=2), "terminated", True),
    "running, scheduler gone": (dict(phase="Running", credentials=CRED, schedulerPod=SP, service=SVC), dict(replicas=2), "absent", True),
    "asked to stop": (dict(phase="Running", credentials=CRED, schedulerPod=SP, service=SVC), dict(active=False, replicas=2), "running", True),
}


def scene(c, stage, fails=None, created="waiting"):
    status, spec, sched, ready = STAGES[stage]
    w = Kube(c, fails=fails, opaque=("batch_create_pods",) if False else ())
    w.I.unroll = 3
    info = w.info(pending=("p1",) if "fewer" in stage else (), stopped=("s1",), running=())
    cl = w.cluster(status, **spec)
    pods = {"absent": const(None), "waiting": w.pod("Pending"), "running": w.pod("Running", "running"), "terminated": w.pod("Running", "terminated", exit=1)}
    w.found = {"cluster": cl, "pod": pods[sched], "endpoints": w.endpoints() if ready else const(None), "created": pods[created]}
    return w


def go(c, w):
    return w.run("reconcile_cluster", V("param", "key"))


def object_of(e):
    """what a create call creates"""
    for a in list(e.args) + list((e.get("kwargs") or {}).values()):
        if a.k == "ref" and lookup(e.heap, a, "metadata") is not None:
            return a
    return None


def creates(c):
    """labels, owners, namespace and names of what is created"""
    kinds = {}
    for stage in STAGES:
        for created in ("waiting", "running"):
            if created == "running" and stage != "nothing created":
                continue
            w = scene(c, stage, created=created)
            outs = go(c, w)
            c.require(bool(outs), "OWNER", w.where, f"the reconciliation is not followed ({stage})", key="followed")
            for o in outs:
                for e in evs(o):
                    if e.kind == "call" and api(e) and e.name.startswith("create_"):
                        built(c, w, e, stage, kinds)
    c.floor("OWNER", 5)
    c.notes.append(f"objects created: {', '.join(sorted(kinds))}")
    for k in ("scheduler pod", "worker pod", "secret", "service", "custom object"):
        c.require(k in kinds, "OWNER", "controller", f"no {k} is ever created", key=f"kind {k}")


def built(c, w, e, stage, kinds):
    ws, h = where(e), e.heap
    obj = object_of(e)
    kind = e.name.replace("create_namespaced_", "").replace("_", " ")
    if not c.require(obj is not None, "OWNER", ws, f"what is created is not determined ({kind})", key=f"obj {kind}"):
        return
    meta = lookup(h, obj, "metadata")
    labels = lookup(h, meta, "labels")
    gen, name = lookup(h, meta, "generateName"), lookup(h, meta, "name")
    if kind == "pod":
        kind = "worker pod" if gen is not None else "scheduler pod"
    kinds[kind] = True
    c.require(NS in list(e.args) + list((e.get("kwargs") or {}).values()), "NAMESPACE", ws, f"a {kind} is created in another namespace than its cluster's", key=f"ns {kind}")
    ns = lookup(h, meta, "namespace")
    c.require(ns in (None, NS), "NAMESPACE", ws, f"a {kind} is created in another namespace than its cluster's", key=f"meta ns {kind}")
    v = lookup(h, labels, "gateway.dask.org/cluster")
    c.require(v == NAME, "LABELS", ws, f"a {kind} carries {show(v) if v is not None else 'no label'} as its cluster", key=f"cluster label {kind}")
    v = lookup(h, labels, "gateway.dask.org/instance")
    c.require(v is not None and v.k == "attr" and v.a[0] == SELF and v.a[1] == "gateway_instance", "LABELS", ws, f"a {kind} does not carry the label of this gateway", key=f"instance label {kind}")
    v = lookup(h, labels, "app.kubernetes.io/component")
    want = {"worker pod": "dask-worker", "scheduler pod": "dask-scheduler", "service": "dask-scheduler"}.get(kind)
    c.require(v is not None and v.k == "const" and (want is None or v == const(want)), "LABELS", ws, f"a {kind} is labelled as {show(v) if v is not None else 'nothing'}", key=f"component label {kind}")
    own = items(h, lookup(h, meta, "ownerReferences"))
    if c.require(own is not None and len(own) == 1, "OWNER", ws, f"a {kind} does not have an owner", key=f"owner {kind}"):
        r = {k: lookup(h, own[0], k) for k in ("apiVersion", "kind", "name", "uid")}
        cluster = r == {"apiVersion": API, "kind": KIND, "name": NAME, "uid": UID}
        pod = r == {"apiVersion": const("v1"), "kind": const("Pod"), "name": PNAME, "uid": PUID}
        c.require(cluster or pod and kind not in ("scheduler pod", "secret"), "OWNER", ws,
                  f"a {kind} is owned by {', '.join(f'{k}={show(v) if v is not None else None}' for k, v in r.items())}"[:230], key=f"owner is {kind}")
    if kind == "worker pod":
        c.require(name is None and gen is not None and NAME in set(subterms(gen)), "NAMES", ws, "a worker's name is not left to the server", key="worker name")
    else:
        det = name is not None and all(x.k in ("const", "str") or x == NAME for x in subterms(name)) and NAME in set(subterms(name))
        c.require(det, "NAMES", ws, f"the name of a {kind} is {show(name)[:60] if name is not None else None}: creating it again does not find the first one", key=f"name {kind}")


def calls(c, stage, created="waiting"):
    """every API call made at a stage"""
    w = scene(c, stage, created=created)
    seen = {}
    for o in go(c, w):
        n = {}
        for e in evs(o):
            if e.kind == "call" and api(e):
                k = site(e)
                n[k] = n.get(k, 0) + 1
                seen.setdefault(k, e)
    return seen


def site(e):
    return (e.name, e.func.qual if hasattr(e.func, "qual") else str(e.func), e.node.lineno if getattr(e, "node", None) is not None else 0)


def recorded(o):
    """the status that is written back"""
    for e in evs(o):
        if e.kind == "call" and api(e) and e.name.startswith("patch_"):
            for a in e.args:
                for x in items(e.heap, a) or ():
                    v = lookup(e.heap, x, "value")
                    if v is not None and v.k == "ref" and e.heap.get(v.a[0]).kind == "dict":
                        return [l[2] for l in e.heap[v.a[0]].layers if l[0] == "kv"]
    return None


def statuses(c):
    """the HTTP statuses the controller could tell apart"""
    m = c.prog.modules["dask_gateway_server.backends.kubernetes.controller"]
    got = {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and type(x.value) is int and 300 <= x.value < 600}
    return {403, 404, 409, 422, 429, 500} | got


def faults(c):
    n = 0
    hows = sorted(statuses(c)) + ["RuntimeError"]
    c.notes.append(f"failures told apart: {hows}")
    for stage in STAGES:
        for created in ("waiting", "running"):
            if created == "running" and stage != "nothing created":
                continue
            for k, e0 in calls(c, stage, created).items():
                for how in hows:
                    def fails(st, ev, k=k, how=how):
                        if site(ev) == k and not any(x.kind == "callraised" and api(x) for x in walk_events(events(st.trace))):
                            return [how]
                    w = scene(c, stage, fails, created)
                    for o in go(c, w):
                        es = evs(o)
                        bad = [i for i, e in enumerate(es) if e.kind == "callraised" and api(e)]
                        if not bad:
                            continue
                        n += 1
                        after(c, w, o, es, es[bad[0]], how, stage)
    c.require(n > 100, "RETRY", "controller", f"only {n} failing calls were followed", key="n")


def after(c, w, o, es, bad, how, stage):
    call = bad.call
    ws, op = where(call), call.name
    truth = o.val is not None and o.val.k == "const" and bool(o.val.a[0])
    falsy = o.val is not None and o.val.k == "const" and not o.val.a[0]
    named = True
    if op.startswith("create_"):
        obj = object_of(call)
        meta = lookup(call.heap, obj, "metadata")
        name = lookup(call.heap, meta, "name")
        named = name is not None
    if op.startswith("create_") and how == 409 and named:
        if c.require(o.kind == "ret" and falsy, "EXISTS", ws, f"creating an object that already exists is a failure ({op}, {stage})", key=f"exists {op}"):
            rec = recorded(o)
            c.require(rec is not None and name in rec, "EXISTS", ws, f"an object that already exists is not recorded in the cluster's status ({op}, {stage})", key=f"recorded {op}")
        return
    if op.startswith("delete_") and how == 404:
        c.require(o.kind == "ret" and falsy, "GONE", ws, f"deleting an object that is already gone is a failure ({op}, {stage})", key=f"gone {op}")
        return
    failed = o.kind == "raise" and not (o.val.k == "exc" and o.val.a[0].split(".")[-1] in ("CancelledError", "KeyboardInterrupt", "SystemExit", "GeneratorExit"))
    c.require(failed or o.kind == "ret" and truth, "RETRY", ws, f"the reconciliation is not retried after {op} failed with {how} ({stage})", key=f"retry {op} {how}")
    if o.kind == "ret":
        i = es.index(bad)
        c.require(any(is_log(e) and loud(e) for e in es[i + 1:]), "REPORT", ws, f"{op} failing with {how} is not reported ({stage})", key=f"report {op}")


def loud(e):
    return (e.get("name") or "") in ("warning", "error", "exception", "critical", "warn")


def loop(c):
    """the reconciler: what follows a reconciliation that fails, asks to be repeated, or succeeds"""
    k = c.prog.cls("dask_gateway_server.backends.kubernetes.controller", "KubeController")
    f = k.find_method("reconciler_loop")
    if f is None:
        raise Broken("no reconciler_loop")
    KEY = V("param", "next key")
    for text, how in (("fails", ("ApiException", "RuntimeError", "KeyError")), ("asks to be repeated", True), ("is done", False), ("has nothing to do", None)):
        bodies = []

        def on_event(st, ev):
            if ev.kind == "loop" and ev.func is f:
                bodies.extend(ev.bodies)

        def results(I, st, name, func, args, kw, how=how):
            if name == "reconcile_cluster" and not isinstance(how, tuple):
                return const(how)
            if name == "get":
                return KEY
            return None

        I = Interp(c.prog, c.types, opaque=lambda g, r: g.name == "reconcile_cluster" or g.cls is not None and g.cls.name == "WorkQueue", results=results,
                   raises=lambda I, st, ev: list(how) if isinstance(how, tuple) and ev.get("name") == "reconcile_cluster" else None, on_event=on_event)
        I.term_types[SELF] = k.qual
        outs = I.run_function(f, [], selfv=SELF)
        c.analysed(f)
        ws = f"{f.module.rel()}:{f.line} (KubeController.reconciler_loop)"
        c.require(bool(bodies) and not outs, "RETRY", ws, f"the reconciler ends when a reconciliation {text}", key="loop ends")
        n = 0
        for b in bodies:
            es = list(walk_events(b.events))
            rec = [i for i, e in enumerate(es) if (e.kind == "callraised" and e.call.get("name") or e.kind == "call" and e.get("name")) == "reconcile_cluster"]
            if not rec or isinstance(how, tuple) and es[rec[-1]].kind != "callraised":
                continue
            n += 1
            tail = es[rec[-1] + 1:]
            q = [e for e in tail if e.kind == "call" and e.get("name") in ("put", "put_backoff", "put_after")]
            c.require(b.kind in ("next", "cont"), "RETRY", ws, f"the reconciler ends when a reconciliation {text}", key="loop leaves")
            done = [e for e in tail if e.kind == "call" and e.get("name") == "task_done" and KEY in list(e.args)]
            c.require(len(done) == 1, "RETRY", ws, f"a reconciliation that {text} is not marked as done: the cluster is never reconciled again", key="loop done")
            if isinstance(how, tuple) or how is True:
                c.require(any(KEY in list(e.args) for e in q), "RETRY", ws, f"a reconciliation that {text} is not retried", key=f"loop retry {text}")
            if isinstance(how, tuple):
                c.require(any(is_log(e) and loud(e) for e in tail), "REPORT", ws, "a reconciliation that fails is not reported", key="loop report")
        c.require(n > 0, "RETRY", ws, f"the reconciler does not reconcile ({text})", key="loop n")


def run(c):
    c.rule("LABELS", "every object created for a cluster carries the cluster's, the gateway's and its component's label")
    c.rule("OWNER", "every object created for a cluster has one owner reference: the cluster object, or the scheduler pod, which the cluster object owns")
    c.rule("NAMESPACE", "every object is created in the namespace of its cluster (an owner in another namespace would not count)")
    c.rule("NAMES", "names are functions of the cluster's name, so that creating an object again finds the first one; worker pods get theirs from the server")
    c.rule("EXISTS", "creating an object that exists succeeds, and its name is recorded like that of a new one")
    c.rule("GONE", "deleting an object that is gone succeeds")
    c.rule("RETRY", "after any other failure of an API call the reconciliation fails or asks to be repeated, and the reconciler queues the cluster again")
    c.rule("REPORT", "such a failure is logged as a warning or worse")
    c.assumptions.append("extra pod labels in the configuration, which are applied last, do not replace the gateway's own labels")
    creates(c)
    faults(c)
    loop(c)
