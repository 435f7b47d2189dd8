"""C49: the Kubernetes API server and the controller agree on what cluster objects mean.

The API server and the controller are followed in turns on a shared set of Kubernetes objects: what one's code creates
or patches is what the other's code reads next.  The rules of the Kubernetes API (JSON patches, the status subresource,
what a service's endpoints are called and labelled, label selectors) are the only things added."""
import base64
import copy
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.query import where
from sa.state import Obj, events
from sa.values import NONE, V, const, is_const, show
from .c48 import Heap, known
from .kube import APIEXC
from .optw import Unknown, put
from .pods import ANNOTATIONS, CONFIG, LABELS

K8S = "dask_gateway_server.backends.kubernetes."
NS = "ns7"
CONF = {**CONFIG, "namespace": NS, "environment": {"A": "1"}, "cluster_max_workers": None, "cluster_max_memory": None, "cluster_max_cores": None}
OPTIONS = {"opt": "value", "n": 3}
CRT, KEY = b"-----CRT", b"-----KEY"
SIGNATURE = {"custom": {"create": ("group", "version", "namespace", "plural", "body"), "patch": ("group", "version", "namespace", "plural", "name", "body"), "delete": ("group", "version", "namespace", "plural", "name"), "get": ("group", "version", "namespace", "plural", "name")},
             "core": {"create": ("namespace", "body"), "delete": ("name", "namespace"), "read": ("name", "namespace"), "patch": ("name", "namespace", "body"), "replace": ("name", "namespace", "body")}}


def operation(name):
    """(verb, resource, sub) of an API operation's name"""
    verb, _, rest = (name or "").partition("_namespaced_")
    if not rest or verb not in ("create", "patch", "delete", "get", "read", "replace"):
        return None
    if rest.startswith("custom_object"):
        return verb, "custom", rest[len("custom_object"):].lstrip("_")
    return verb, rest, ""


def receiver(fv):
    return next((x for x in fv.a if isinstance(x, V)), None) if fv is not None and fv.k not in ("ext", "cls") else None


class Objects:
    """what Kubernetes stores"""

    def __init__(self):
        self.all = {}       # (plural, namespace, name): object
        self.uids = itertools.count()
        self.log = []

    def create(self, plural, ns, body):
        o = copy.deepcopy(body)
        o.setdefault("metadata", {})
        o["metadata"]["namespace"] = ns
        o["metadata"]["uid"] = f"uid{next(self.uids)}"
        o["metadata"]["creationTimestamp"] = "2020-01-01T00:00:00Z"
        if "name" not in o["metadata"]:
            o["metadata"]["name"] = f"{o['metadata'].get('generateName', '')}x{next(self.uids)}"
        o.pop("status", None)
        if plural == "pods":
            o["status"] = {"phase": "Pending"}
        self.all[plural, ns, o["metadata"]["name"]] = o
        return o

    def get(self, plural, ns, name):
        return self.all.get((plural, ns, name))

    def patch(self, plural, ns, name, body, sub):
        """RFC 6902; of a resource with a status subresource each endpoint changes its own half"""
        o = self.all.get((plural, ns, name))
        if o is None:
            return
        new = copy.deepcopy(o)
        if isinstance(body, dict):
            merge(new, body)
        else:
            for p in body:
                parts = p["path"].lstrip("/").split("/")
                x = new
                for k in parts[:-1]:
                    x = x[k]
                if p["op"] in ("add", "replace"):
                    x[parts[-1]] = copy.deepcopy(p["value"])
                elif p["op"] == "remove":
                    x.pop(parts[-1], None)
                else:
                    raise KeyError(p["op"])
        if sub == "status":
            o = {**o, "status": new.get("status", {})}
        else:
            s = o.get("status")
            o = new
            o.pop("status", None)
            if s is not None:
                o["status"] = s
        self.all[plural, ns, name] = o


def merge(a, b):
    for k, v in b.items():
        if v is None:
            a.pop(k, None)
        elif isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v


class Side:
    """the API server or the controller, kept from one step to the next"""

    def __init__(self, c, cls, objects, attrs):
        self.c, self.objects = c, objects
        self.k = cls
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.recursion = 6
        I.unroll = 6
        st = self.st = I.new_state()
        self.queue, self.core, self.custom, self.client = V("param", "queue"), V("param", "core client"), V("param", "custom client"), V("param", "api client")
        self.informers = {k: V("param", f"{k} informer") for k in ("cluster", "pod", "endpoints")}
        informer = c.prog.cls(K8S + "utils", "Informer")
        for v in self.informers.values():
            I.term_types[v] = informer.qual
        self.S = st.alloc(Obj("inst", cls=cls.qual, attrs={
            "common_labels": put(st, dict(LABELS)), "common_annotations": put(st, dict(ANNOTATIONS)), "gateway_instance": const("inst"), "api_url": const("http://api/api"), "crd_version": const("v1alpha1"), "proxy_prefix": const(""),
            "proxy_web_entrypoint": const("web"), "proxy_tcp_entrypoint": const("tcp"), "proxy_web_middlewares": put(st, []), "queue": self.queue, "core_client": self.core, "custom_client": self.custom, "api_client": self.client,
            "informers": put(st, dict(self.informers)), "informer": self.informers["cluster"], "stopped_clusters": put(st, {}), "clusters": put(st, {}), **{k: v(st) if callable(v) else v for k, v in attrs.items()}}))
        self.n = itertools.count()

    def opaque(self, f, recv):
        return f.cls is not None and f.cls.name in ("Informer", "WorkQueue", "Flag") or f.name in ("new_keypair", "process_cluster_options", "k8s_timestamp", "parse_k8s_timestamp", "timestamp", "to_dict")

    def results(self, I, st, name, func, args, kw):
        fv = I.callee
        base = receiver(fv)
        if name == "get" and base in self.informers.values():
            kind = next(k for k, v in self.informers.items() if v == base)
            key = known(st, args[-1])
            plural = {"cluster": "daskclusters", "pod": "pods", "endpoints": "endpoints"}[kind]
            o = next((o for (p, ns, n), o in self.objects.all.items() if p == plural and f"{ns}.{n}" == key), None)
            return put(st, copy.deepcopy(o)) if o is not None else NONE
        if name == "new_keypair":
            return V("tuple", const(CRT), const(KEY))
        if name in ("b64encode", "b64decode") and len(args) == 1 and is_const(args[0]) and args[0].k == "const":
            return const(getattr(base64, name)(args[0].a[0]))
        if name == "uuid4":
            v = V("param", f"uuid {next(self.n)}")
            st.store = {**st.store, (v, "hex"): const(f"u{self.k.name.lower()}{next(self.n)}")}
            return v
        if name == "process_cluster_options":
            cfg = st.alloc(Obj("inst", cls=self.c.prog.cls(K8S + "backend", "KubeClusterConfig").qual, attrs={k: put(st, v) for k, v in CONF.items()}))
            return V("tuple", put(st, copy.deepcopy(OPTIONS)), cfg)
        if name == "to_dict":
            return put(st, copy.deepcopy(CONF))
        if name == "k8s_timestamp":
            return const("stopped at")
        if name == "parse_k8s_timestamp":
            return const(f"parsed {known(st, args[0])}")
        if name == "timestamp":
            return const(5000)
        if name == "monotonic":
            return const(100.0)
        op = operation(name)
        if op is not None and base in (self.core, self.custom):
            a = self.arguments(st, op, args, kw)
            if op[0] in ("read", "get"):
                o = self.objects.get(op[1] + "s" if op[1] != "custom" else a.get("plural"), a.get("namespace"), a.get("name"))
                if o is None:
                    return V("never")
                v = V("param", f"reply {next(self.n)}")
                st.store = {**st.store, **{(v, k): put(st, copy.deepcopy(x)) for k, x in o.items()}}
                return v
            if op[0] == "create":
                v = V("param", f"reply {next(self.n)}")
                body = a.get("body")
                if isinstance(body, dict):
                    body = copy.deepcopy(body)
                    body.setdefault("metadata", {}).update(namespace=a.get("namespace"), uid="uid of reply")
                    if op[1] == "pod":
                        body["status"] = {"phase": "Pending"}
                    return put(st, body)
                return v
            return V("param", f"reply {next(self.n)}")
        if name == "sanitize_for_serialization" and args and st.obj(args[-1]) is not None:
            return args[-1]
        return None

    def arguments(self, st, op, args, kw):
        names = SIGNATURE["custom" if op[1] == "custom" else "core"].get(op[0], ())
        a = {n: known(st, v) for n, v in zip(names, args)}
        a.update({n: known(st, v) for n, v in (kw or {}).items()})
        return a

    def raises(self, I, st, ev):
        op = operation(ev.get("name"))
        if op is not None and op[0] in ("read", "get"):
            a = self.arguments(st, op, ev.get("args") or (), ev.get("kwargs") or {})
            if self.objects.get(op[1] + "s" if op[1] != "custom" else a.get("plural"), a.get("namespace"), a.get("name")) is None:
                return [(APIEXC, True, {"status": const(404), "reason": V("param", "reason"), "body": V("param", "body")})]
        return None

    def do(self, name, *args):
        """follow one call; the API operations it makes are applied to the objects, what it queues is returned"""
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"{self.k.name} has no {name}")
        self.where = f.qual
        st = self.st.fork()
        outs = self.I.run_function(f, [put(st, copy.deepcopy(a)) for a in args], selfv=self.S, st=st)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        done = [o for o in outs if o.kind == "ret"]
        self.failed = [o for o in outs if o.kind != "ret"]
        if not done:
            return None
        results = [self.effects(o) for o in done]
        if not all(r == results[0] for r in results):
            self.c.fail("FOLLOW", f.qual, f"{name} does different things in one situation", key=("fork", name))
        ops, queued = results[0]
        o = done[0]
        self.st = o.st.fork()
        self.st.trace = st.trace
        self.value = o.val
        self.ops = ops
        for op, a in ops:
            self.apply(op, a)
        return queued

    def effects(self, o):
        ops, queued = [], []
        for e in events(o.st.trace):
            if e.kind != "call":
                continue
            fv = e.get("callee")
            base = receiver(fv)
            h = Heap(e)
            if base == self.queue and e.get("name") in ("put", "put_backoff", "put_after"):
                queued.append(known(h, e.args[0]))
            op = operation(e.get("name"))
            if op is not None and base in (self.core, self.custom):
                ops.append((op, self.arguments(h, op, e.get("args") or (), e.get("kwargs") or {})))
        return ops, queued

    def apply(self, op, a):
        verb, res, sub = op
        plural = a.get("plural") if res == "custom" else res + "s"
        if verb == "create" and isinstance(a.get("body"), dict):
            self.objects.create(plural, a.get("namespace"), a["body"])
        elif verb == "patch":
            try:
                self.objects.patch(plural, a.get("namespace"), a.get("name"), a.get("body"), sub)
            except (KeyError, TypeError, AttributeError):
                self.c.fail("PATCH", "the " + plural, f"a patch of {a.get('name')} is refused by the API server: {a.get('body')}", key=f"patch {plural} {sub}")
        elif verb == "delete":
            self.objects.all.pop((plural, a.get("namespace"), a.get("name")), None)
        if verb not in ("read", "get"):
            self.objects.log.append((verb, plural, a.get("namespace"), a.get("name") or (a.get("body") or {}).get("metadata", {}).get("name")))


class Both:
    """an API server and a controller of one gateway, and a user's cluster"""

    def __init__(self, c):
        self.c = c
        self.o = Objects()
        self.api = Side(c, c.prog.cls(K8S + "backend", "KubeBackend"), self.o, {})
        self.ctl = Side(c, c.prog.cls(K8S + "controller", "KubeController"), self.o, {})
        user = V("param", "user")
        self.api.st.store[(user, "name")] = const("alice")
        q = self.api.do("start_cluster", user, {})
        if q is None:
            raise Broken("no cluster is started")
        self.name = known(self.api.st, self.api.value)
        self.ops = self.api.ops
        self.waiter = V("param", "waiter")
        set_(self.api, "cluster_waiters", {self.name: self.waiter})
        set_(self.api, "username_to_clusters", {"alice": {}})
        self.fresh()

    def fresh(self):
        """the controller knows nothing about the cluster's workers"""
        info = self.c.prog.cls(K8S + "controller", "ClusterInfo")
        outs = [o for o in self.ctl.I.run_value(V("cls", info.qual), [], self.ctl.st.fork(), {}) if o.kind == "ret"]
        if len(outs) != 1:
            raise Broken("ClusterInfo()")
        self.ctl.st = outs[0].st.fork()
        self.info = outs[0].val
        set_(self.ctl, "cluster_info", {self.name: self.info})

    def restart(self):
        """both start again, with nothing but what Kubernetes stores"""
        self.api = Side(self.c, self.api.k, self.o, {})
        self.ctl = Side(self.c, self.ctl.k, self.o, {})
        set_(self.api, "cluster_waiters", {self.name: self.waiter})
        set_(self.api, "username_to_clusters", {"alice": {}})
        self.fresh()
        for p in self.objects("pods"):
            self.ctl.do("on_pod_update", p)

    @property
    def object(self):
        l = [o for (p, ns, n), o in self.o.all.items() if p == "daskclusters"]
        return l[0] if len(l) == 1 else None

    def objects(self, plural):
        return [o for (p, ns, n), o in self.o.all.items() if p == plural]

    def need(self, ok, rule, side, msg, key):
        return self.c.require(ok, rule, getattr(side, "where", K8S), msg, key=key)

    def notify(self):
        """the controller is told of the object"""
        q = self.ctl.do("on_cluster_update", self.object)
        self.need(q == [self.name], "KEY", self.ctl, f"the cluster {self.name} is reconciled under {q}", "cluster event")
        return q[0] if q else self.name

    def reconcile(self, key=None):
        before = len(self.o.log)
        q = self.ctl.do("reconcile_cluster", key or self.name)
        self.need(q is not None, "FOLLOW", self.ctl, f"reconciling {key or self.name} fails: {[show(o.val) for o in self.ctl.failed][:1]}", "reconcile")
        return self.o.log[before:]

    def sync(self):
        q = self.api.do("on_cluster_event", self.object)
        self.need(q == [self.name], "KEY", self.api, f"the cluster {self.name} is synchronised under {q}", "api event")
        r = self.api.do("sync_cluster", q[0] if q else self.name)
        self.need(r is not None, "FOLLOW", self.api, f"synchronising {self.name} fails: {[show(o.val) for o in self.api.failed][:1]}", "sync")
        d = known(self.api.st, self.api.st.obj(self.api.S).attrs["clusters"])
        m = d.get(self.name) if isinstance(d, dict) else None
        o = self.api.st.obj(m) if isinstance(m, V) else None
        return {k: known(self.api.st, v) for k, v in o.attrs.items()} if o is not None else {}

    def scheduler(self, state="running", exit=0):
        pods = [p for p in self.objects("pods") if labels(p).get("app.kubernetes.io/component") == "dask-scheduler"]
        for p in pods:
            p["status"] = {"phase": {"running": "Running", "terminated": "Failed", "waiting": "Pending"}[state], "containerStatuses": [{"name": p["spec"]["containers"][0]["name"], "state": {state: {"exitCode": exit} if state == "terminated" else {}}}]}
        return pods

    def workers(self):
        return [p for p in self.objects("pods") if labels(p).get("app.kubernetes.io/component") != "dask-scheduler"]

    def endpoints(self):
        for s in self.objects("services"):
            m = {k: v for k, v in s["metadata"].items() if k in ("name", "namespace", "labels")}
            self.o.all["endpoints", s["metadata"]["namespace"], s["metadata"]["name"]] = {"metadata": copy.deepcopy(m), "subsets": [{"addresses": [{"ip": "10.0.0.1"}]}]}

    def to_running(self):
        self.reconcile(self.notify())
        for p in self.scheduler():
            self.ctl.do("on_pod_update", p)
        self.reconcile()
        self.endpoints()
        for e in self.objects("endpoints"):
            self.ctl.do("on_endpoints_update", e)
        self.reconcile()


def set_(side, name, value):
    """an attribute of the server"""
    st = side.st
    v = put(st, value)
    o = st.obj(side.S)
    st.setobj(side.S, Obj("inst", cls=o.cls, attrs={**o.attrs, name: v}))


def labels(o):
    return o["metadata"].get("labels") or {}


def selected(sel, o):
    want = dict(x.split("=", 1) for x in sel.split(",")) if isinstance(sel, str) else sel or {}
    return want.items() <= labels(o).items()


def port(service, name_or_number):
    return next((p for p in service["spec"].get("ports", ()) if p.get("port") == name_or_number or p.get("name") == name_or_number), None)


def run(c):
    c.rule("FOLLOW", "each step is followed to one outcome")
    c.rule("PATCH", "the changes either side asks for are ones the Kubernetes API accepts")
    c.rule("OBJECT", "the object the API server creates is one the controller starts, for the user, with the options and configuration that were accepted")
    c.rule("KEY", "both sides find one cluster under one name, from every object that belongs to it")
    c.rule("STATUS", "what the controller records the API server reads: phase, addresses, credentials, times")
    c.rule("CREDS", "the credentials the API server uses are those the scheduler and the workers are given")
    c.rule("SCALE", "the count the API server requests is the number of workers the controller runs")
    c.rule("STOP", "a cluster the API server stops is removed by the controller, and reported stopped")
    c.rule("FAILED", "a scheduler that ends is recorded, cleaned up and reported as a failure")
    c.rule("RESTART", "when both start again, they find the cluster as it was and change nothing")
    c.rule("SELECT", "the labels given to objects are those they are looked for by")
    start(c)
    scale(c)
    stop(c)
    failed(c)
    restart(c)
    for r, n in (("FOLLOW", 10), ("OBJECT", 5), ("KEY", 10), ("STATUS", 8), ("CREDS", 5), ("SCALE", 5), ("STOP", 5), ("FAILED", 3), ("RESTART", 6), ("SELECT", 6)):
        c.floor(r, n)


def status(m):
    v = m.get("status")
    return v.a[1] if isinstance(v, V) and v.k == "enum" else show(v) if isinstance(v, V) else v


def start(c):
    w = Both(c)
    # -- what the API server makes
    o = w.object
    if not w.need(o is not None and len(w.ops) == 1, "OBJECT", w.api, f"starting a cluster makes {[x[0] for x in w.ops]}", "one"):
        return
    a = w.ops[0][1]
    w.need((a.get("group"), a.get("version"), a.get("plural"), a.get("namespace")) == ("gateway.dask.org", "v1alpha1", "daskclusters", NS) and o.get("apiVersion") == "gateway.dask.org/v1alpha1" and o.get("kind") == "DaskCluster", "OBJECT", w.api, f"the object is created as {a.get('group')}/{a.get('version')} {a.get('plural')} in {a.get('namespace')}", "as")
    w.need(w.name == f"{NS}.{o['metadata']['name']}", "KEY", w.api, f"the cluster is called {w.name}, its object {o['metadata']['name']}", "name")
    sel = {}
    for s in (w.api, w.ctl):
        r = s.do("_default_label_selector")
        sel[s] = known(s.st, s.value) if r is not None else None
        w.need(isinstance(sel[s], str) and selected(sel[s], o), "SELECT", s, f"the object's labels {labels(o)} are not matched by {sel[s]}", ("selector", s is w.api))
    # -- first reconciliation
    m = w.sync()
    w.need(status(m) in ("PENDING", "STARTING") and m.get("username") == "alice" and m.get("options") == OPTIONS and m.get("config") == CONF, "STATUS", w.api, f"a new cluster is reported as {status(m)} of {m.get('username')} with {str(m.get('options'))[:60]}", "new")
    key = w.notify()
    did = w.reconcile(key)
    secrets, pods = w.objects("secrets"), w.objects("pods")
    w.need(len(secrets) == 1 and len(pods) == 1, "OBJECT", w.ctl, f"reconciling a new cluster makes {did}", "made")
    if len(secrets) != 1 or len(pods) != 1:
        return
    secret, pod = secrets[0], pods[0]
    w.need(secret["metadata"]["namespace"] == NS == pod["metadata"]["namespace"], "OBJECT", w.ctl, "the scheduler or its credentials are made in another namespace than the cluster", "namespace")
    ct = pod["spec"]["containers"][0]
    w.need(ct["image"] == CONF["image"] and ct.get("args", ct.get("command", []))[:1] == CONF["scheduler_cmd"][:1], "OBJECT", w.ctl, f"the scheduler runs {ct['image']} {ct.get('args')}", "config")
    for x in (pod, secret):
        w.need(selected(sel[w.ctl], x), "SELECT", w.ctl, f"the labels of {x['metadata']['name']} are not matched by {sel[w.ctl]}", ("made", x is pod))
    env = {e["name"]: e.get("value") for e in ct["env"]}
    w.need(env.get("DASK_GATEWAY_CLUSTER_NAME") == w.name, "KEY", w.ctl, f"the scheduler knows its cluster as {env.get('DASK_GATEWAY_CLUSTER_NAME')}, the API server as {w.name}", "env")
    st1 = w.object.get("status") or {}
    w.need(bool(st1), "STATUS", w.ctl, "a started scheduler is not recorded in the object's status", "recorded")
    # -- the scheduler runs
    for p in w.scheduler():
        q = w.ctl.do("on_pod_update", p)
        w.need(q == [w.name], "KEY", w.ctl, f"the running scheduler of {w.name} leads to a reconciliation of {q}", "pod event")
    n = len(w.o.log)
    w.reconcile()
    svcs = w.objects("services")
    w.need(len(svcs) == 1 and [x[1] for x in w.o.log[n:] if x[0] == "create"] == ["services"], "OBJECT", w.ctl, f"with the scheduler running, {w.o.log[n:]} is done", "service")
    if len(svcs) != 1:
        return
    svc = svcs[0]
    w.need(selected(svc["spec"].get("selector"), pod) and svc["metadata"]["namespace"] == NS, "SELECT", w.ctl, f"the service selects {svc['spec'].get('selector')}, which is not the scheduler", "service")
    w.endpoints()
    for e in w.objects("endpoints"):
        w.need(selected(sel[w.ctl], e) and labels(e).get("app.kubernetes.io/component") == "dask-scheduler", "SELECT", w.ctl, "the controller does not watch the service's endpoints", "endpoints")
        q = w.ctl.do("on_endpoints_update", e)
        w.need(q == [w.name], "KEY", w.ctl, f"ready endpoints of {w.name} lead to a reconciliation of {q}", "endpoints event")
    m = w.sync()
    w.need(status(m) not in ("RUNNING",) and not m.get("scheduler_address"), "STATUS", w.api, "the cluster is reported as running before its routes exist", "early")
    w.reconcile()
    routes = w.objects("ingressroutes") + w.objects("ingressroutetcps")
    w.need(len(routes) == 2, "OBJECT", w.ctl, f"with the endpoints ready, {w.o.log[-3:]} is done", "routes")
    for r in routes:
        s = r["spec"]["routes"][0]["services"][0]
        w.need(s["name"] == svc["metadata"]["name"] and s.get("namespace", NS) == NS and port(svc, s["port"]) is not None, "SELECT", w.ctl, f"the route {r['kind']} leads to {s}, which is not the scheduler's service", ("route", r["kind"]))
        w.need(w.name in r["spec"]["routes"][0]["match"], "KEY", w.ctl, f"the route {r['kind']} is for {r['spec']['routes'][0]['match']}", ("route", r["kind"]))
    # -- what the API server makes of it
    m = w.sync()
    w.need(status(m) == "RUNNING", "STATUS", w.api, f"a cluster the controller runs is reported as {status(m)}", "running")
    host = f"{svc['metadata']['name']}.{NS}"
    cmd = ct.get("args", ct.get("command", []))
    opt = lambda f: next((cmd[i + 1].lstrip(":") for i, x in enumerate(cmd[:-1]) if x == f), None)
    for attr, scheme, flag in (("scheduler_address", "tls", "--port"), ("dashboard_address", "http", "--dashboard-address"), ("api_address", "http", "--dg-api-address")):
        got = m.get(attr)
        p = str(got).rsplit(":", 1)[-1]
        w.need(got == f"{scheme}://{host}:{opt(flag)}" and p.isdigit() and port(svc, int(p)) is not None, "STATUS", w.api, f"{attr} is {got}, the scheduler listens on {opt(flag)} of {host}", attr)
    data = {k: base64.b64decode(v) for k, v in secret["data"].items()}
    w.need(m.get("tls_cert") == CRT == data.get("dask.crt") and m.get("tls_key") == KEY == data.get("dask.pem"), "CREDS", w.api, "the API server does not use the credentials made for the cluster", "tls")
    token = m.get("token")
    w.need(isinstance(token, str) and token.encode() in data.values() and len(token) > 3, "CREDS", w.api, f"the API server expects the token {token!r}", "token")
    creds(w, pod, secret, token, "scheduler")
    w.need(m.get("stop_time") is None and m.get("start_time") == "parsed " + w.object["metadata"]["creationTimestamp"], "STATUS", w.api, "the start or stop time of a running cluster is wrong", "times")
    w.need(m.get("name") == w.name and m.get("username") == "alice" and m.get("options") == OPTIONS and m.get("config") == CONF, "STATUS", w.api, "a running cluster's name, user, options or configuration are not what it was started with", "same")
    # nothing more to do
    n = len(w.o.log)
    w.reconcile()
    w.need(len(w.o.log) == n, "OBJECT", w.ctl, f"reconciling an unchanged cluster does {w.o.log[n:]}", "idle")


def creds(w, pod, secret, token, what):
    """the files the environment refers to are those of the secret"""
    ct = pod["spec"]["containers"][0]
    env = {e["name"]: e.get("value") for e in ct["env"]}
    vols = {v["name"]: v["secret"]["secretName"] for v in pod["spec"].get("volumes", ()) if "secret" in v}
    files = {}
    for mt in ct.get("volumeMounts", ()):
        if vols.get(mt["name"]) == secret["metadata"]["name"]:
            for k, v in secret["data"].items():
                files[mt["mountPath"].rstrip("/") + "/" + k] = base64.b64decode(v)
    w.need(files.get(env.get("DASK_GATEWAY_API_TOKEN")) == str(token).encode(), "CREDS", w.ctl, f"the {what}'s token is not the one the API server expects", ("token", what))
    part = "SCHEDULER" if what == "scheduler" else "WORKER"
    for k, want in ((f"DASK_DISTRIBUTED__COMM__TLS__{part}__CERT", CRT), (f"DASK_DISTRIBUTED__COMM__TLS__{part}__KEY", KEY), ("DASK_DISTRIBUTED__COMM__TLS__CA_FILE", CRT)):
        w.need(files.get(env.get(k)) == want, "CREDS", w.ctl, f"{k} of the {what} is {env.get(k)}, which does not hold it", (k, what))


def beat(w, n):
    msg = {"timestamp": 1000, "count": n, "active_workers": [], "closing_workers": [], "closed_workers": []}
    before = len(w.o.log)
    r = w.api.do("on_cluster_heartbeat", w.name, msg)
    w.need(r is not None, "FOLLOW", w.api, "a heartbeat fails", "heartbeat")
    return w.o.log[before:]


def scale(c):
    for n in (0, 1, 3):
        w = Both(c)
        w.to_running()
        w.sync()
        beat(w, n)
        w.reconcile(w.notify())
        workers = w.workers()
        w.need(len(workers) == n, "SCALE", w.ctl, f"a heartbeat asks for {n} workers, the controller makes {len(workers)}", "up")
        if n and workers:
            ct = workers[0]["spec"]["containers"][0]
            env = {e["name"]: e.get("value") for e in ct["env"]}
            w.need(env.get("DASK_GATEWAY_CLUSTER_NAME") == w.name, "KEY", w.ctl, f"the workers know their cluster as {env.get('DASK_GATEWAY_CLUSTER_NAME')}", "worker env")
            svc = w.objects("services")
            if svc:
                w.need(not selected(svc[0]["spec"].get("selector"), workers[0]), "SELECT", w.ctl, "the scheduler's service selects workers, too", "worker service")
                cmd = ct.get("args", ct.get("command", []))
                w.need(w.sync().get("scheduler_address") in cmd, "STATUS", w.ctl, f"the workers connect to another address than the API server reports: {cmd[:3]}", "worker address")
            w.need(selected("gateway.dask.org/instance=inst", workers[0]), "SELECT", w.ctl, "the controller does not watch its workers", "worker")
            if w.objects("secrets"):
                s = w.objects("secrets")[0]
                creds(w, workers[0], s, base64.b64decode(s["data"].get("api-token", "")).decode(), "worker")
            for p in workers:
                p["status"] = {"phase": "Pending"}
                w.ctl.do("on_pod_update", p)
            before = len(w.o.log)
            w.reconcile()
            w.need(len(w.o.log) == before, "SCALE", w.ctl, f"with all workers made, {w.o.log[before:]} is done", "known")
            beat(w, n - 1)
            w.reconcile(w.notify())
            w.need(len(w.workers()) == n - 1, "SCALE", w.ctl, f"a heartbeat asks for {n - 1} of {n} workers, {len(w.workers())} remain", "down")


def stop(c):
    for when in ("new", "starting", "running"):
        w = Both(c)
        if when == "starting":
            w.reconcile(w.notify())
        if when == "running":
            w.to_running()
        w.sync()
        r = w.api.do("stop_cluster", w.name)
        w.need(r is not None and w.object is not None, "STOP", w.api, f"stopping a {when} cluster fails or removes its record", ("stop", when))
        w.reconcile(w.notify())
        left = [p for p in ("pods", "secrets") if w.objects(p)]
        w.need(not left, "STOP", w.ctl, f"of a {when} cluster that is stopped, the {left} remain", ("left", when))
        m = w.sync()
        w.need(status(m) == "STOPPED", "STOP", w.api, f"a {when} cluster that was stopped is reported as {status(m)}", ("status", when))
        w.need(m.get("stop_time") == "parsed stopped at", "STATUS", w.api, f"the stop time of a {when} cluster is {m.get('stop_time')}", ("time", when))
        n = len(w.o.log)
        w.reconcile()
        w.need(len(w.o.log) == n, "STOP", w.ctl, f"a stopped cluster is changed: {w.o.log[n:]}", ("again", when))
        w.api.do("stop_cluster", w.name)
        w.need(len(w.o.log) == n, "STOP", w.api, f"stopping a stopped cluster does {w.o.log[n:]}", ("twice", when))
        d = known(w.ctl.st, w.ctl.st.obj(w.ctl.S).attrs["stopped_clusters"])
        w.need(isinstance(d, dict) and list(d) == [w.name], "KEY", w.ctl, f"the record of {w.name} is kept to be removed as {list(d) if isinstance(d, dict) else d}", "record")


def failed(c):
    for when in ("starting", "running"):
        w = Both(c)
        w.to_running() if when == "running" else w.reconcile(w.notify())
        w.sync()
        for p in w.scheduler("terminated", 1):
            q = w.ctl.do("on_pod_update", p)
            w.need(q == [w.name], "KEY", w.ctl, f"the ended scheduler of {w.name} leads to a reconciliation of {q}", "end event")
        w.reconcile()
        m = w.sync()
        w.need(status(m) == "FAILED" and m.get("stop_time") == "parsed stopped at", "FAILED", w.api, f"a {when} cluster whose scheduler ended is reported as {status(m)}", ("status", when))
        w.need(not w.objects("pods") and not w.objects("secrets"), "FAILED", w.ctl, f"of a {when} cluster whose scheduler ended, something remains", ("left", when))
        n = len(w.o.log)
        w.reconcile(w.notify())
        w.need(len(w.o.log) == n, "FAILED", w.ctl, f"a failed cluster is changed: {w.o.log[n:]}", ("again", when))
        d = known(w.ctl.st, w.ctl.st.obj(w.ctl.S).attrs["stopped_clusters"])
        w.need(isinstance(d, dict) and list(d) == [w.name], "FAILED", w.ctl, f"the record of the failed {w.name} is kept to be removed as {list(d) if isinstance(d, dict) else d}", ("record", when))


def restart(c):
    for when in ("starting", "running", "scaled", "stopped"):
        w = Both(c)
        w.reconcile(w.notify()) if when == "starting" else w.to_running()
        if when == "scaled":
            beat(w, 2)
            w.reconcile(w.notify())
            for p in w.workers():
                p["status"] = {"phase": "Pending"}
                w.ctl.do("on_pod_update", p)
        if when == "stopped":
            w.sync()
            w.api.do("stop_cluster", w.name)
            w.reconcile(w.notify())
        m = w.sync()
        n = len(w.o.log)
        w.restart()
        w.reconcile(w.notify())
        w.need(len(w.o.log) == n, "RESTART", w.ctl, f"a {when} cluster is changed when the controller starts again: {w.o.log[n:]}", ("same", when))
        m2 = w.sync()
        if when == "stopped":
            m, m2 = ({k: v for k, v in x.items() if k not in ("tls_cert", "tls_key", "token")} for x in (m, m2))
        else:
            gone = [k for k in ("tls_cert", "tls_key", "token") if not m2.get(k)]
            w.need(not gone, "RESTART", w.api, f"after the API server started again, it knows no {gone} of a {when} cluster", ("creds", when))
        diff = [k for k in m if m2.get(k) != m[k]]
        w.need(bool(m) and not diff, "RESTART", w.api, f"the API server sees {diff} of a {when} cluster differently when it starts again", ("api", when))
