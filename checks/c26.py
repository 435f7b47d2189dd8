"""C26: the phases of a cluster on Kubernetes follow the lifecycle.

One reconciliation is followed from every combination of the cluster's recorded
phase, the objects its status records, what it asks for, the state of its
scheduler pod and the readiness of its endpoints; the written status and the
API calls before it are compared with what the lifecycle allows.
"""
import ast
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import bounds, ext_name, subterms, where
from sa.state import Obj, events, walk_events
from sa.values import V, const, show
from .c25 import items, lookup
from .kube import K8S, Kube, MOD, NAME, NS, SELF, api, evs

NOW, PARSED, CT = V("param", "the current time"), V("param", "the recorded time"), V("str", const("recorded time of "), NAME)
REC = {k: V("str", const(f"recorded {k} of "), NAME) for k in ("credentials", "schedulerPod", "service", "ingressroute", "ingressroutetcp")}
STEPS = (), ("credentials",), ("credentials", "schedulerPod"), ("credentials", "schedulerPod", "service"), ("credentials", "schedulerPod", "service", "ingressroute"), tuple(REC)
# pod phase, container state -> what it is
PODS = {
    "absent": None,
    "not scheduled": ("Pending", None),
    "starting": ("Pending", "waiting"),
    "waiting": ("Running", "waiting"),
    "running": ("Running", "running"),
    "terminated": ("Running", "terminated"),
    "succeeded": ("Succeeded", "terminated"),
    "failed": ("Failed", "terminated"),
    "evicted": ("Failed", None),
    "lost": ("Unknown", None),
}
OVER = ("terminated", "succeeded", "failed", "evicted")
FINAL = ("Stopped", "Failed")


class Run:
    def __init__(self, c, phase, rec, active, pod, ready, fails=None, created="starting"):
        self.cfg = (phase, rec, active, pod, ready, created)
        self.w = w = Kube(c, fails=fails)
        w.I.unroll = 3
        status = None
        if phase is not None or rec:
            status = {k: REC[k] for k in rec}
            if phase is not None:
                status["phase"] = phase
            if phase in FINAL:
                status["completionTime"] = CT
        w.info()
        w.st.store[(SELF, "stopped_clusters")] = w.dict()
        cl = w.cluster(status, **({} if active is None else {"active": active}), replicas=0)
        self.status = status or {}
        mk = lambda x: const(None) if PODS[x] is None else w.pod(PODS[x][0], PODS[x][1], exit=1)
        end = {"none": const(None), "not ready": w.dict(subsets=w.list(w.dict(notReadyAddresses=w.list("ip")))), "mixed": w.dict(subsets=w.list(w.dict(addresses=w.list("ip1")), w.dict(notReadyAddresses=w.list("ip2")))),
               "empty": w.dict(subsets=w.list()), "absent": w.dict(), "ready": w.endpoints()}[ready]
        w.found = {"cluster": cl, "pod": mk(pod), "endpoints": end, "created": mk(created)}
        self.times = w.times = {"k8s_timestamp": NOW, "timestamp": V("param", "now in ms"), "parse_k8s_timestamp": PARSED}
        self.outs = w.run("reconcile_cluster", V("param", "key"))


class Step:
    """one path of a reconciliation"""

    def __init__(self, run, o):
        self.o = o
        es = self.evs = evs(o)
        self.calls = [e for e in es if e.kind == "call" and api(e)]
        self.created = [e for e in self.calls if e.name.startswith("create_")]
        self.deleted = [e for e in self.calls if e.name.startswith("delete_")]
        self.patch = [e for e in self.calls if e.name.startswith("patch_")]
        self.status = None
        for e in self.patch:
            for a in e.args:
                for x in items(e.heap, a) or ():
                    v = lookup(e.heap, x, "value")
                    ob = e.heap.get(v.a[0]) if v is not None and v.k == "ref" else None
                    if ob is not None and ob.kind == "dict":
                        self.status = {l[1].a[0]: l[2] for l in ob.layers if l[0] == "kv" and l[1].k == "const"} if all(l[0] == "kv" for l in ob.layers) else {}
                        self.op = (lookup(e.heap, x, "op"), lookup(e.heap, x, "path"))
        r = o.st.store.get((SELF, "stopped_clusters"))
        ob = o.st.heap.get(r.a[0]) if r is not None and r.k == "ref" else None
        self.stopped = {l[1]: l[2] for l in ob.layers} if ob is not None and all(l[0] == "kv" for l in ob.layers) else None

    def phase(self):
        v = (self.status or {}).get("phase")
        return v.a[0] if v is not None and v.k == "const" else None


def situations():
    for phase, rec, active, pod, ready in itertools.product((None, "Pending", "Running", "Stopped", "Failed"), STEPS, (None, True, False), PODS, ("none", "not ready", "mixed", "empty", "absent", "ready")):
        if phase is None and rec:
            continue
        if phase in FINAL and (ready not in ("none", "ready") or len(rec) in (1, 3, 4)):
            continue
        if active is False and (ready not in ("none", "ready") or pod not in ("absent", "running", "failed")):
            continue
        if active is True and pod not in ("running", "absent", "evicted"):
            continue
        if pod != "running" and ready not in ("none", "ready"):
            continue
        if "schedulerPod" not in rec and (pod != "absent" or ready != "none"):
            continue
        if phase == "Running" and len(rec) not in (0, 2, 5):
            continue
        for created in (("starting", "running", "terminated") if "schedulerPod" not in rec and phase in (None, "Pending") and active is not False else ("starting",)):
            yield phase, rec, active, pod, ready, created


def lifecycle(c, names):
    n = 0
    for phase, rec, active, pod, ready, created in situations():
        r = Run(c, phase, rec, active, pod, ready, created=created)
        text = f"phase {phase or 'not set'}, {', '.join(rec) or 'nothing'} recorded, {'asked to stop' if active is False else 'active'}, scheduler pod {pod}, endpoints {ready}"
        ws = r.w.where
        c.require(bool(r.outs), "FINAL", ws, f"the reconciliation is not followed ({text})", key="followed")
        for o in r.outs:
            n += 1
            s = Step(r, o)
            if not c.require(o.kind == "ret", "WRITE", ws, f"the reconciliation fails ({text})", key="fails"):
                continue
            judge(c, r, s, text, ws, names)
    c.notes.append(f"{n} paths over the situations of a cluster")
    c.floor("FINAL", 20)
    c.floor("RUN", 100)


def judge(c, r, s, text, ws, names):
    phase, rec, active, pod, ready, created = r.cfg
    key = V("str", NS, const("."), NAME)
    new = s.phase()
    if phase in FINAL:
        c.require(not s.created, "FINAL", ws, f"a finished cluster is given new objects ({text})", key="final create")
        c.require(s.status is None or new == phase, "FINAL", ws, f"a finished cluster's phase changes to {new} ({text})", key="final phase")
        c.require(s.stopped is not None and s.stopped.get(key) == PARSED, "RETAIN", ws, f"the time a cluster finished is not taken from its status ({text})", key="final time")
        c.require(s.status is None or s.status.get("completionTime") == CT, "RETAIN", ws, "the time a cluster finished is changed", key="final ct")
        return
    c.require(s.stopped == {}, "RETAIN", ws, f"a cluster that is not recorded as finished is listed for deletion ({text})", key="listed early")
    if s.patch:
        c.require(s.status is not None and getattr(s, "op", None) in ((const("add"), const("/status")), (const("replace"), const("/status"))), "WRITE", ws, f"the status that is written is not determined ({text})", key="patch")
        c.require(all(e.args[:1] and NS in e.args and NAME in e.args for e in s.patch), "WRITE", ws, "the status of another cluster is written", key="patch which")
    if s.status is not None:
        for k in r.status:
            c.require(k in s.status and (k in ("phase", "completionTime") or s.status[k] == REC[k]), "WRITE", ws, f"the recorded {k} is lost ({text})", key=f"keep {k}")
    if phase != "Running":
        for e in s.created:
            for a in e.args:
                name = lookup(e.heap, lookup(e.heap, a, "metadata"), "name") if a.k == "ref" else None
                if name is not None:
                    c.require(s.status is not None and name in s.status.values(), "WRITE", ws, f"an object that is created ({e.name}) is not recorded in the status ({text})", key=f"record {e.name}")
    over = pod in OVER or "schedulerPod" not in rec and created in OVER and phase != "Running"
    gone = phase == "Running" and (pod == "absent" or "schedulerPod" not in rec)
    if active is False:
        want = "Stopped"
    elif over or gone:
        want = "Failed"
    else:
        want = None
    if want:
        c.require(new in FINAL, "STOP" if want == "Stopped" else "FAIL", ws, f"the cluster is left in {new or 'its phase'} ({text})", key=f"brought {want}")
    c.require(new in (None, "Pending", "Running") + FINAL, "WRITE", ws, f"the phase becomes {new} ({text})", key="phase name")
    if new in FINAL:
        c.require(want is not None, "FAIL", ws, f"a cluster whose scheduler is {pod} is brought to {new} ({text})", key=f"final why {new}")
        c.require(new == want, "STOP" if want == "Stopped" else "FAIL", ws, f"the cluster is brought to {new} rather than {want} ({text})", key="final which")
        before = s.evs[:s.evs.index(s.patch[0])]
        for what, field in (("pod", "schedulerPod"), ("secret", "credentials")):
            own = REC[field] if field in rec else names[field]
            got = s.status.get(field) if field not in rec and s.status is not None and field in s.status else None
            ok = [e for e in before if e.kind == "call" and api(e) and e.name == f"delete_namespaced_{what}" and (own in e.args or got is not None and got in e.args) and NS in e.args]
            c.require(bool(ok), "CLEAN", ws, f"the cluster is {new} while its {what} was not removed ({text})", key=f"clean {what} {field in rec}")
        c.require(s.status.get("completionTime") == NOW, "RETAIN", ws, f"the time at which a cluster finished is not recorded ({text})", key="completion")
        c.require(not s.created or phase in (None, "Pending") and active is not False, "FINAL", ws, f"a cluster being finished is given new objects ({text})", key="create while stopping")
    if phase == "Running":
        c.require(new in (None, "Running") + FINAL, "RUN", ws, f"a running cluster goes back to {new}", key="back")
        c.require(not [e for e in s.created if "secret" in e.name or "service" in e.name or "custom" in e.name], "RUN", ws, "a running cluster is set up again", key="again")
    elif new == "Running" or want is None:
        up = (pod if "schedulerPod" in rec else created) == "running"
        made = {lookup(e.heap, lookup(e.heap, a, "metadata"), "name"): e for e in s.created for a in e.args if a.k == "ref"}
        kinds = [x.a[0] for e in s.created for x in e.args if x.k == "const" and isinstance(x.a[0], str)]
        st = s.status or r.status
        have = {"service": "service" in rec or any(e.name.endswith("_service") for e in s.created),
                "ingressroute": "ingressroute" in rec or "ingressroutes" in kinds, "ingressroutetcp": "ingressroutetcp" in rec or "ingressroutetcps" in kinds}
        if new == "Running":
            c.require(up, "RUN", ws, f"a cluster is running although its scheduler is not ({text})", key="run up")
            c.require(ready == "ready", "RUN", ws, f"a cluster is running although its endpoints are not ready ({text})", key="run ready")
            for k, v in have.items():
                c.require(v and (k in rec or st.get(k) in made), "RUN", ws, f"a cluster is running without its {k} ({text})", key=f"run {k}")
        elif up and ready == "ready":
            c.fail("RUN", ws, f"a cluster that is ready is left in {new or phase or 'Pending'} ({text})", key="ready")
        else:
            c.require(True, "RUN", ws, "")
        if ready != "ready":
            c.require(not [e for e in s.created if "custom" in e.name], "RUN", ws, f"routes are added before the endpoints are ready ({text})", key="early route")
    if phase is None and active is not False and want is None:
        c.require(new in ("Pending", "Running"), "WRITE", ws, f"the phase of a new cluster becomes {new}", key="new")


def unclean(c):
    """a removal that fails leaves the phase as it is"""
    for phase, active, pod in (("Running", False, "running"), ("Running", True, "terminated"), ("Pending", True, "failed"), ("Running", True, "absent"), ("Pending", False, "starting")):
        for op in ("delete_namespaced_pod", "delete_namespaced_secret"):
            r = Run(c, phase, ("credentials", "schedulerPod"), active, pod, "none", fails=lambda st, e, op=op: [500] if e.get("name") == op else None)
            for o in r.outs:
                s = Step(r, o)
                if any(e.kind == "callraised" and api(e) for e in s.evs):
                    c.require(s.phase() not in FINAL, "CLEAN", r.w.where, f"the cluster is {s.phase()} although {op} failed", key=f"unclean {op}")


def created_names(c):
    """names under which the scheduler pod and the credentials are created"""
    names = {}
    r = Run(c, None, (), None, "absent", "none")
    for o in r.outs:
        for e in Step(r, o).created:
            f = {"create_namespaced_pod": "schedulerPod", "create_namespaced_secret": "credentials"}.get(e.name)
            if f:
                names[f] = [lookup(e.heap, lookup(e.heap, a, "metadata"), "name") for a in e.args if a.k == "ref"][0]
    if set(names) != {"schedulerPod", "credentials"}:
        raise Broken("the names of the scheduler pod and credentials are not determined")
    return names


def queued(c):
    """events that may change a phase lead to a reconciliation"""
    key = V("str", NS, const("."), NAME)
    for name, kind, state in [("on_pod_update", "dask-scheduler", p) for p in PODS if p != "absent"] + [("on_pod_delete", "dask-scheduler", "running"), ("on_endpoints_update", None, "ready"), ("on_endpoints_update", None, "not ready"), ("on_cluster_update", None, None)]:
        for stopping in (False, True):
            w = Kube(c)
            w.info()
            w.st.store[(SELF, "stopped_clusters")] = w.st.alloc(Obj("dict", layers=(("kv", key, PARSED),) if stopping else ()))
            labels = w.st.alloc(Obj("dict", layers=(("kv", const("gateway.dask.org/cluster"), NAME), ("kv", const("app.kubernetes.io/component"), const("dask-scheduler")))))
            meta = dict(namespace=NS, labels=labels)
            if kind:
                p, s = PODS[state]
                obj = w.pod(p, s, exit=1)
                pm = lookup(w.st.heap, obj, "metadata")
                o = w.st.obj(pm)
                w.st.setobj(pm, o.replace(layers=o.layers + (("kv", const("labels"), labels),)))
            elif "cluster" in name:
                obj = w.cluster()
            else:
                obj = w.dict(metadata=w.dict(**meta, name=V("param", "endpoints")), subsets=w.list(w.dict(addresses=w.list("ip"))) if state == "ready" else w.list())
            outs = w.run(name, obj)
            c.require(bool(outs), "QUEUE", w.where, f"{name} is not followed", key="queue n")
            for o in outs:
                put = [e for e in evs(o) if e.kind == "call" and e.get("name") in ("put", "put_after", "put_backoff")]
                c.require(o.kind == "ret", "QUEUE", w.where, f"{name} fails", key=f"queue raise {name}")
                c.require(all(key in e.args for e in put), "QUEUE", w.where, f"{name} leads to a reconciliation of something else", key=f"queue key {name}")
                if (not stopping or name == "on_cluster_update") and not (state in ("not scheduled", "starting", "waiting", "lost", "not ready")):
                    c.require(bool(put), "QUEUE", w.where, f"{name} does not lead to a reconciliation (scheduler {state})", key=f"queue {name} {state}")


def retention(c):
    """records are removed only when they have been finished long enough"""
    k = c.prog.cls(MOD, "KubeController")
    f = k.find_method("cleanup_expired_cluster_records_loop")
    if f is None:
        raise Broken("no cleanup loop")
    KEY, T = V("str", NS, const("."), NAME), V("param", "stop time")
    TS = V("param", "now in ms")
    found = []

    def on_event(st, ev):
        if ev.kind == "call" and ev.get("name", ) and "delete_namespaced_custom_object" == ev.name:
            found.append((st, ev))

    w = Kube(c, on_event=on_event)
    w.times = {"timestamp": TS, "k8s_timestamp": NOW, "parse_k8s_timestamp": PARSED}
    w.st.store[(SELF, "stopped_clusters")] = w.st.alloc(Obj("dict", layers=(("kv", KEY, T),)))
    w.run("cleanup_expired_cluster_records_loop")
    c.require(bool(found), "RETAIN", w.where, "no record is ever removed", key="removed")
    for st, e in found:
        ws = where(e)
        old = [l for l, s in bounds(e.facts) if l.get(T) == 1]
        ok = any(l.get(TS) == -1 and [v for t, v in l.items() if t is not None and t.k == "attr" and t.a[1] == "completed_cluster_max_age"] == [1000] and l.get(None, 0) >= 0 and len([t for t in l if t is not None]) == 3 for l in old)
        c.require(ok, "RETAIN", ws, "a cluster's record can be removed before the retention time has passed", key="age")
        c.require(all(x.k != "ref" for x in e.args) and any("split" in show(a) or a == NS for a in e.args) and const("daskclusters") in e.args, "RETAIN", ws, "another record is removed", key="which")
    inl = set(w.I.inlined) | {f.qual}
    n = 0
    for m in c.prog.modules.values():
        if not m.name.startswith(K8S.rstrip(".")):
            continue
        for g in m.all_funcs:
            for x in ast.walk(g.node):
                if isinstance(x, ast.Attribute) and x.attr in ("delete_namespaced_custom_object", "delete_cluster_custom_object", "delete_collection_namespaced_custom_object"):
                    n += 1
                    c.require(g.qual in inl, "RETAIN", f"{m.rel()}:{x.lineno} ({g.name})", "a cluster's record is removed outside of the retention loop", key=f"outside {g.name}")
                if isinstance(x, ast.Attribute) and x.attr == "delete_cluster" and g.qual not in inl:
                    c.fail("RETAIN", f"{m.rel()}:{x.lineno} ({g.name})", "a cluster's record is removed outside of the retention loop", key=f"outside {g.name}")
    c.require(n > 0, "RETAIN", f.qual, "no removal found", key="removal")


def times(c):
    """recorded times are UTC, and are compared in milliseconds"""
    mod = "dask_gateway_server.backends.kubernetes.utils"
    I = Interp(c.prog, c.types)
    ts = V("param", "ts")
    g = c.prog.funcs.get(f"{mod}.k8s_timestamp")
    p = c.prog.funcs.get(f"{mod}.parse_k8s_timestamp")
    t = c.prog.funcs.get("dask_gateway_server.utils.timestamp")
    if not (g and p and t):
        raise Broken("the time functions are gone")
    from sa.query import linear
    for o in I.run_function(g, []):
        utc = any("utc" in str(x.a).lower() for x in subterms(o.val) if x.k in ("attr", "ext", "call"))
        c.require(o.kind == "ret" and utc, "TIME", f"{g.module.rel()}:{g.line} ({g.name})", "the recorded time is not UTC", key="utc now")
    for o in I.run_function(p, [ts]):
        utc = any("utc" in str(x.a).lower() for x in subterms(o.val) if x.k in ("attr", "ext", "call"))
        c.require(o.kind == "ret" and utc and ts in set(subterms(o.val)), "TIME", f"{p.module.rel()}:{p.line} ({p.name})", "a recorded time is not read as UTC", key="utc read")
        c.require(milli(o.val), "TIME", f"{p.module.rel()}:{p.line} ({p.name})", "a recorded time is not in milliseconds", key="ms read")
    for o in I.run_function(t, []):
        c.require(o.kind == "ret" and milli(o.val), "TIME", f"{t.module.rel()}:{t.line} ({t.name})", "the current time is not in milliseconds", key="ms now")
    c.analysed(g, p, t)


def milli(v):
    """1000 times a number of seconds, rounded"""
    from sa.query import linear
    v = strip(v)
    l = linear(v)
    if l is None:
        return False
    xs = [(t, k) for t, k in l.items() if t is not None]
    return len(xs) == 1 and xs[0][1] in (1000, 1000.0) and strip(xs[0][0]).k == "call"


def strip(v):
    while v.k == "call" and v.a[0].k in ("builtin", "ext") and v.a[0].a[0] in ("int", "round") and len(v.a[1]) == 1:
        v = v.a[1][0]
    return v


def run(c):
    c.rule("FINAL", "a cluster in a final phase keeps it, and gets no new objects")
    c.rule("RUN", "the phase becomes running exactly when the scheduler pod runs, its endpoints are ready and the service and both routes exist; never again afterwards")
    c.rule("STOP", "a cluster that asked to stop is stopped")
    c.rule("FAIL", "a cluster whose scheduler terminated (or is gone while running) fails, and no other does")
    c.rule("CLEAN", "the scheduler pod and the credentials are removed, recorded or not, before a final phase is written; a removal that fails leaves the phase")
    c.rule("WRITE", "the new phase is written to the status of that cluster, and what was recorded is kept")
    c.rule("QUEUE", "events about the scheduler, its endpoints or the cluster lead to a reconciliation")
    c.rule("RETAIN", "a cluster object is removed only by the retention loop, when its recorded completion is older than the retention time")
    c.rule("TIME", "completion times are recorded in UTC and compared in milliseconds")
    c.analysed()
    names = created_names(c)
    lifecycle(c, names)
    unclean(c)
    queued(c)
    retention(c)
    times(c)
