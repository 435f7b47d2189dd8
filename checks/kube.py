"""The Kubernetes controller with a cluster object whose parts are known, shared by several properties."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import subterms
from sa.state import Obj, events, walk_events
from sa.values import V, const

K8S = "dask_gateway_server.backends.kubernetes."
APIEXC = "kubernetes_asyncio.client.rest.ApiException"
MOD = K8S + "controller"
SELF = V("param", "self")
NS, NAME, UID, API, KIND, CFG = (V("param", x) for x in ("namespace", "cluster", "cluster uid", "cluster apiVersion", "cluster kind", "config"))
PUID, PNAME = V("param", "pod uid"), V("param", "pod name")
CREATES = ("create_namespaced_pod", "create_namespaced_secret", "create_namespaced_service", "create_namespaced_custom_object")
DELETES = ("delete_namespaced_pod", "delete_namespaced_secret", "delete_namespaced_custom_object")


def api(e, names=None):
    """the event is a call of the Kubernetes API (of one of the names)"""
    if e.kind == "callraised" and e.get("call") is not None:
        e = e.call
    if e.kind not in ("call", "callraised"):
        return False
    fv = e.get("callee")
    n = e.get("name") or ""
    if fv is None or fv.k not in ("attr", "bm"):
        return False
    if names is not None:
        return n in names
    return any(x.k == "attr" and x.a[1] in ("core_client", "custom_client", "api_client") for x in subterms(fv)) and n.split("_")[0] in ("create", "delete", "patch", "list", "get", "read", "replace")


class Kube:
    """one situation the controller can be in"""

    def __init__(self, c, opaque=(), fails=None, found=None, hints=None, on_event=None, awaits=None):
        self.c = c
        c.analysed()
        self.k = c.prog.cls(MOD, "KubeController")
        self.fails = fails
        self.found = found or {}
        self.opaque = opaque
        I = self.I = Interp(c.prog, c.types, opaque=self.opq, raises=self.raised, results=self.result, on_event=on_event)
        I.awaits = awaits
        I.term_types[SELF] = self.k.qual
        self.st = I.new_state()
        self.reply = self.dict()
        self.times = {}

    def opq(self, func, recv):
        if func.qual in self.opaque or func.name in self.opaque:
            return True
        if func.cls is not None and func.cls.name in ("Informer", "WorkQueue"):
            return True
        return func.name in ("merge_json_objects", "new_keypair", "k8s_timestamp", "parse_k8s_timestamp", "timestamp")

    def result(self, I, st, name, func, args, kw):
        fv = I.callee
        if name == "get" and fv is not None:
            w = self.informer(fv)
            if w is not None and w in self.found:
                v = self.found[w]
                return v(I, st, args) if callable(v) else v
        if name == "sanitize_for_serialization" and "created" in self.found:
            return self.found["created"]
        if name in self.times:
            return self.times[name]
        if name in CREATES:
            return self.reply
        return None

    @staticmethod
    def informer(fv):
        for x in subterms(fv):
            if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "informers" and x.a[1].k == "const":
                return x.a[1].a[0]
        return None

    def raised(self, I, st, ev):
        if ev.get("name") == "loads":
            return ["ValueError"]
        if not api(ev):
            return None
        f = self.fails(st, ev) if callable(self.fails) else self.fails
        if f is None or f is False:
            return None
        return [(APIEXC, True, {"status": const(x), "reason": V("param", "reason"), "body": V("param", "body")}) if isinstance(x, int) else x for x in f]

    def dict(self, **kv):
        return self.st.alloc(Obj("dict", layers=tuple(("kv", const(a), b if isinstance(b, V) else const(b)) for a, b in kv.items() if b is not None)))

    def cluster(self, status=None, **spec):
        meta = self.dict(namespace=NS, name=NAME, uid=UID)
        spec = self.dict(config=CFG, **spec)
        kw = dict(apiVersion=API, kind=KIND, metadata=meta, spec=spec)
        if status is not None:
            kw["status"] = self.dict(**status)
        return self.dict(**kw)

    def pod(self, phase=None, state=None, name=PNAME, container="dask-scheduler", exit=None):
        stat = {"phase": phase}
        if state is not None:
            s = self.dict(**{state: self.dict(exitCode=exit)})
            cs = self.dict(name=container, state=s)
            stat["containerStatuses"] = self.st.alloc(Obj("list", lk="list", segs=(("one", cs),)))
        meta = self.dict(name=name, uid=PUID, namespace=NS)
        return self.dict(metadata=meta, status=self.dict(**stat))

    def endpoints(self):
        return self.dict(subsets=self.list(self.dict(addresses=self.list(const("ip")))))

    def list(self, *xs, kind="list"):
        return self.st.alloc(Obj("list", lk=kind, segs=tuple(("one", x if isinstance(x, V) else const(x)) for x in xs)))

    def info(self, pending=(), running=(), stopped=(), failed=(), creates=0, deletes=0):
        """what is known about the cluster's workers"""
        I, st = self.I, self.st
        v = V("param", "info")
        k = self.c.prog.cls(MOD, "ClusterInfo")
        I.term_types[v] = k.qual
        st.facts = st.facts.assume(V("cmp", "is", v, const(None)), False)
        self.sets = {"pending": self.list(*pending, kind="set"), "running": self.list(*running, kind="set"), "succeeded": self.list(*stopped, kind="set"),
                     "failed": self.list(*failed, kind="set"), "all_pods": self.list(*pending, *running, *stopped, *failed, kind="set")}
        st.store = {**st.store, **{(v, a): x for a, x in self.sets.items()}, (v, "creates"): const(creates), (v, "deletes"): const(deletes)}
        self.infov = v
        infos = st.alloc(Obj("dict", layers=(("kv", self.key(), v),)))
        st.store[(SELF, "cluster_info")] = infos
        return v

    def key(self):
        return V("str", NS, const("."), NAME)

    def run(self, name, *args, **kw):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.name} has no {name}")
        outs = self.I.run_function(f, list(args), selfv=SELF, st=self.st, kwargs=kw)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        self.where = f"{f.module.rel()}:{f.line} ({self.k.name}.{name})"
        return outs


def evs(o):
    return list(walk_events(events(o.st.trace)))
