"""Pods the Kubernetes controller makes of a known configuration."""
from sa.interp import Interp
from sa.program import Broken
from sa.state import Obj
from sa.values import V, const, show
from .optw import Unknown, get, put

K8S = "dask_gateway_server.backends.kubernetes."
CONFIG = dict(image="img:1", image_pull_policy=None, image_pull_secrets=[], environment={"A": "1", "DASK_GATEWAY_API_URL": "evil"}, adaptive_period=3.0, idle_timeout=60.0,
              worker_cmd=["dask-worker"], scheduler_cmd=["dask-scheduler"], worker_threads=3,
              worker_memory=2000, worker_memory_limit=2500, worker_cores=2.0, worker_cores_limit=2.5,
              scheduler_memory=1000, scheduler_memory_limit=1500, scheduler_cores=1.0, scheduler_cores_limit=1.25,
              worker_extra_pod_config={}, worker_extra_container_config={}, worker_extra_pod_annotations={}, worker_extra_pod_labels={},
              scheduler_extra_pod_config={}, scheduler_extra_container_config={}, scheduler_extra_pod_annotations={}, scheduler_extra_pod_labels={})
LABELS = {"app": "dask", "common": "yes"}
ANNOTATIONS = {"note": "common", "other": "kept"}


class Pods:
    def __init__(self, c, conf=None):
        self.c = c
        self.k = c.prog.cls(K8S + "controller", "KubeController")
        self.conf = {**CONFIG, **(conf or {})}
        I = self.I = Interp(c.prog, c.types)
        I.recursion = 6
        st = self.st = I.new_state()
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={
            "common_labels": put(st, dict(LABELS)), "common_annotations": put(st, dict(ANNOTATIONS)), "gateway_instance": const("inst"), "api_url": const("http://api"),
            "proxy_prefix": const("")}))
        self.cfg = st.alloc(Obj("inst", cls=c.prog.cls(K8S + "backend", "KubeClusterConfig").qual, attrs={k: put(st, v) for k, v in self.conf.items()}))

    def pod(self, worker, st=None):
        """[(state, the pod)]"""
        f = self.k.find_method("make_pod")
        if f is None:
            raise Broken("the controller makes no pods")
        out = []
        for o in self.I.run_function(f, [const("ns"), const("c1"), self.cfg], selfv=self.S, kwargs={"is_worker": const(worker)}, st=(st or self.st).fork()):
            self.c.paths += 1
            if o.kind != "ret":
                self.c.fail("POD", f.qual, f"making a pod fails with {show(o.val)}")
                continue
            out.append((o.st, get(o.st, o.val)))
        if not out:
            raise Broken("no pod is made")
        self.c.analysed(f, *self.I.inlined)
        return out

    def shared(self, st):
        """what other pods are made of"""
        a = st.obj(self.S).attrs
        return {"labels": get(st, a["common_labels"]), "annotations": get(st, a["common_annotations"]), **{k: get(st, st.obj(self.cfg).attrs[k]) for k in self.conf}}


def merged(a, b):
    """the documented merge"""
    out = dict(a)
    for k, y in b.items():
        x = a.get(k)
        out[k] = y if k not in a else merged(x, y) if isinstance(x, dict) and isinstance(y, dict) else x + y if isinstance(x, list) and isinstance(y, list) else y
    return out
