"""C30: the Helm chart grants what the servers use and configures what they read.

The chart's templates are rendered (checks/helm.py) for a family of values; the server configuration they generate is a
Python program, which is interpreted like the code of the servers.  What the servers do to Kubernetes, which settings
they have and which names they use is taken from their source."""
import ast
import base64
import glob
import itertools
import json
import os
import re
import textwrap

import yaml

from checks.helm import Chart, Invalid
from checks.optw import Unknown, get, put
from sa import web
from sa.interp import Interp
from sa.program import REPO, Broken, Module
from sa.query import subterms
from sa.state import events
from sa.values import V, const, show

KUBE = "dask_gateway_server.backends.kubernetes."
TEMPLATES = "resources/helm/dask-gateway/templates/"
VERBS = {"create": "create", "read": "get", "get": "get", "list": "list", "patch": "patch", "delete": "delete", "replace": "update", "watch": "watch"}
OPS = re.compile(r"^(create|read|get|list|patch|delete|replace|watch)_(?:namespaced_(\w+)|cluster_(custom_object\w*)|(\w+)_for_all_namespaces)$")
REL = ("rel", "ns1")
FULL = {"gateway": {"backend": {
    "image": {"name": "img-u", "tag": "tag-u", "pullPolicy": "IfNotPresent"}, "imagePullSecrets": [{"name": "sec-u"}], "namespace": "ns-u", "environment": {"K": "v"},
    "scheduler": {"extraPodConfig": {"a": 1}, "extraContainerConfig": {"b": 1}, "cores": {"request": 2, "limit": 3.5}, "memory": {"request": "4 G", "limit": "5 G"}},
    "worker": {"extraPodConfig": {"c": 1}, "extraContainerConfig": {"d": 1}, "cores": {"request": 6, "limit": 7.5}, "memory": {"request": "8 G", "limit": "9 G"}, "threads": 11}}}}
HUB = {"gateway": {"auth": {"type": "jupyterhub", "jupyterhub": {"apiUrl": "http://hub/hub/api"}}}}
HUBT = {"gateway": {"auth": {"type": "jupyterhub", "jupyterhub": {"apiUrl": "http://hub/hub/api", "apiToken": "tok-SECRET-1", "jupyterhubServiceName": "svc-u"}}}}
# name: (values, release)
SETUPS = {
    "the defaults": ({}, REL),
    "a prefix": ({"gateway": {"prefix": "/pre"}}, REL),
    "a nested prefix": ({"gateway": {"prefix": "/a/b"}}, REL),
    "a TCP port": ({"gateway": {"prefix": "/pre"}, "traefik": {"dashboard": True, "service": {"ports": {"tcp": {"port": 8786, "nodePort": 30001}, "web": {"port": 81, "nodePort": 30000}}}}}, REL),
    "JupyterHub with a token in the values": (HUBT, REL),
    "JupyterHub with a token in a secret": (HUB, REL),
    "kerberos": ({"gateway": {"auth": {"type": "kerberos", "kerberos": {"keytab": "/x.keytab"}}}}, REL),
    "a password": ({"gateway": {"auth": {"type": "simple", "simple": {"password": "pw-u"}}}}, REL),
    "a custom authenticator": ({"gateway": {"auth": {"type": "custom", "custom": {"class": "my.mod.MyAuth", "config": {"x": 1}}}}}, REL),
    "all backend settings": (FULL, REL),
    "other service accounts": ({"rbac": {"gateway": {"serviceAccountName": "sa-g"}, "controller": {"serviceAccountName": "sa-c"}, "traefik": {"serviceAccountName": "sa-t"}}}, REL),
    "no RBAC": ({"rbac": {"enabled": False}}, REL),
    "a full name override": ({"fullnameOverride": "other"}, REL),
    "a name override": ({"nameOverride": "short"}, REL),
    "a release called like the chart": ({}, ("dask-gateway", "ns2")),
    "a long release name": ({"gateway": {"prefix": "/pre"}}, ("r" * 53, "ns2")),
    "no traefik": ({"traefik": {"installTraefik": False}}, REL),
    "no controller": ({"controller": {"enabled": False}}, REL),
    "extra configuration": ({"gateway": {"extraConfig": "c.DaskGateway.log_level = 'DEBUG'\nc.KubeClusterConfig.image = 'last'"}}, REL),
    "extra configurations": ({"gateway": {"extraConfig": {"b": "c.KubeClusterConfig.image = 'last'", "a": "c.KubeClusterConfig.image = 'first'"}}}, REL),
    "values with quotes": ({"gateway": {"backend": {"environment": {"K": "a'b\"c\\d\n{}%s<&>"}}}}, REL),
}


# ---------------------------------------------------------------- what the servers do to Kubernetes
class Calls:
    """{component: {(group, resource, verb): where}}, from the syntax of everything a component's methods reach"""

    def __init__(self, c):
        self.prog = p = c.prog
        self.comp = {"api": p.cls(KUBE + "backend", "KubeBackend"), "controller": p.cls(KUBE + "controller", "KubeController")}
        mods = [m for n, m in p.modules.items() if n.startswith(KUBE[:-1]) and ".tests" not in n]
        funcs = [f for f in p.funcs.values() if f.module in mods]
        self.funcs = funcs
        byname = {}
        for f in funcs:
            byname.setdefault(f.node.name if hasattr(f.node, "name") else "", []).append(f)
        self.unresolved = []
        self.found = {}
        self.version = set()
        for comp, cls in self.comp.items():
            mro = set(x.qual for x in cls.mro())
            todo = [f for f in funcs if f.cls is not None and f.cls.qual in mro]
            seen = set()
            while todo:
                f = todo.pop()
                if f.qual in seen:
                    continue
                seen.add(f.qual)
                for n in ast.walk(f.node):
                    s = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                    for g in byname.get(s, ()):
                        if g.cls is None or g.cls.qual in mro:
                            todo.append(g)
            c.analysed(*[p.funcs[q] for q in seen])
            self.found[comp] = {}
            for q in sorted(seen):
                self.scan(p.funcs[q], comp)

    def scan(self, f, comp):
        for n in ast.walk(f.node):
            name = n.attr if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
            m = name and OPS.match(name)
            if not m:
                continue
            verbs = {VERBS[m.group(1)]}
            if isinstance(n, ast.Constant) and m.group(1) == "list":
                verbs.add("watch")
            res = m.group(2) or m.group(3) or m.group(4)
            sub = ""
            if res.startswith("custom_object"):
                sub = "/status" if res.endswith("_status") else ""
                groups = self.custom(f, n)
            else:
                base, _, tail = res.partition("_")
                sub = "/" + tail if tail else ""
                groups = {("", base if base.endswith("s") else base + "s")}
            if not groups:
                self.unresolved.append(f"{f.qual}: {name}")
            for g, plural in groups or ():
                for v in verbs:
                    self.found[comp].setdefault((g, plural + sub, v), f"{f.qual}:{n.lineno}")

    def custom(self, f, n):
        """the (group, plural) pairs of a custom object operation"""
        call = next((x for x in ast.walk(f.node) if isinstance(x, ast.Call) and x.func is n), None)
        where = call
        if call is None:        # the operation's name or the operation itself is handed on, with its arguments near it
            where = next((x for x in ast.walk(f.node) if isinstance(x, (ast.Call,)) and any(y is n for y in [*x.args, *[k.value for k in x.keywords]])), None)
        if where is None:
            return set()
        g = p = None
        kw = {}
        for x in ast.walk(where):
            if isinstance(x, ast.keyword) and x.arg in ("group", "plural", "version"):
                kw.setdefault(x.arg, x.value)
            if isinstance(x, ast.Dict):
                for k, v in zip(x.keys, x.values):
                    if isinstance(k, ast.Constant) and k.value in ("group", "plural", "version"):
                        kw.setdefault(k.value, v)
        for x in ast.walk(where):
            if isinstance(x, ast.keyword) and x.arg == "method_kwargs" and isinstance(x.value, ast.Name):
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.value.id for t in y.targets):
                        for z in ast.walk(y.value):
                            if isinstance(z, ast.keyword) and z.arg in ("group", "plural"):
                                kw.setdefault(z.arg, z.value)
                            if isinstance(z, ast.Dict):
                                for k, v in zip(z.keys, z.values):
                                    if isinstance(k, ast.Constant) and k.value in ("group", "plural"):
                                        kw.setdefault(k.value, v)
        args = where.args if call is not None else []
        if call is None and "plural" not in kw:
            args = [y for y in where.args if y is not n]
        namespaced = isinstance(n, ast.Attribute) and "namespaced" in n.attr or isinstance(n, ast.Constant) and "namespaced" in n.value
        g = kw.get("group") or (args[0] if args else None)
        p = kw.get("plural") or (args[3 if namespaced else 2] if len(args) > (3 if namespaced else 2) else None)
        if g is None or p is None or any(isinstance(x, ast.Starred) for x in args[:4]):
            return set()
        return {(a, b) for a in self.consts(f, g) for b in self.consts(f, p)}

    def consts(self, f, e, depth=0):
        if isinstance(e, ast.Constant):
            return {e.value} if isinstance(e.value, str) else set()
        if isinstance(e, ast.IfExp):
            return self.consts(f, e.body, depth) | self.consts(f, e.orelse, depth)
        if depth > 4:
            return set()
        out = set()
        if isinstance(e, ast.Name):
            params = [a.arg for a in [*f.node.args.posonlyargs, *f.node.args.args]]
            local = [y for y in ast.walk(f.node) if isinstance(y, (ast.Assign, ast.AnnAssign)) for t in (y.targets if isinstance(y, ast.Assign) else [y.target]) if isinstance(t, ast.Name) and t.id == e.id]
            for y in local:
                out |= self.consts(f, y.value, depth + 1)
            if e.id in params or e.id in [a.arg for a in f.node.args.kwonlyargs]:
                i = params.index(e.id) if e.id in params else None
                bound = f.cls is not None and f.kind == "function"
                for h in self.funcs:
                    for x in ast.walk(h.node):
                        if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == f.node.name or isinstance(x.func, ast.Name) and x.func.id == f.node.name):
                            k = next((k.value for k in x.keywords if k.arg == e.id), None)
                            j = None if i is None else i - (1 if bound and isinstance(x.func, ast.Attribute) else 0)
                            if k is None and j is not None and 0 <= j < len(x.args):
                                k = x.args[j]
                            if k is not None:
                                out |= self.consts(h, k, depth + 1)
            if not out:
                for y in f.module.tree.body:
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in y.targets):
                        out |= self.consts(f, y.value, depth + 1)
        elif isinstance(e, ast.Attribute) and f.cls is not None:
            for k in f.cls.mro():
                v = k.assigns.get(e.attr)
                if v is not None:
                    v = v[0] if isinstance(v, list) else v
                    if isinstance(v, ast.Call) and v.args:
                        v = v.args[0]
                    out |= self.consts(f, v, depth + 1)
                    break
        return out


# ---------------------------------------------------------------- settings
class Settings:
    def __init__(self, prog):
        self.prog = prog

    def cls(self, name):
        """the configurable class of a short name"""
        found = [k for k in self.prog.classes.values() if k.qual.rsplit(".", 1)[-1] == name and ".tests" not in k.qual and k.qual.startswith("dask_gateway_server.")]
        return found[0] if len(found) == 1 else None

    def trait(self, cls, name):
        """the declaration of a setting: (its call, configurable)"""
        for k in cls.mro():
            n = k.assigns.get(name)
            n = n[-1] if isinstance(n, list) else n
            if n is None:
                continue
            tag = False
            while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "tag":
                tag = tag or any(w.arg == "config" and getattr(w.value, "value", None) is True for w in n.keywords)
                n = n.func.value
            if not isinstance(n, ast.Call):
                return None, False
            return n, tag or any(w.arg == "config" and getattr(w.value, "value", None) is True for w in n.keywords)
        return None, False

    def kind(self, n):
        f = n.func
        return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")

    def default(self, cls, name):
        n, ok = self.trait(cls, name)
        if n is None:
            return None
        d = next((w.value for w in n.keywords if w.arg == "default_value"), n.args[0] if n.args else None)
        try:
            return ast.literal_eval(d) if d is not None else None
        except ValueError:
            return None


FITS = {"Unicode": str, "Command": (str, list), "Integer": int, "Int": int, "Float": (int, float), "Bool": bool, "List": list, "Dict": dict, "MemoryLimit": (str, int, float), "Type": str, "Bytes": bytes}


class Conf:
    """a generated configuration, evaluated: .set {(class, setting): value}"""
    count = itertools.count()

    def __init__(self, c, text, where):
        p = c.prog
        name = "helm_config%d" % next(self.count)
        try:
            src = "def config(c):\n" + textwrap.indent(text, "    ") + "\n    return None\n"
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Invalid(f"the generated configuration is not a Python program: line {e.lineno}: {e.msg}")
        m = Module(name, os.path.join(REPO, where), tree, src)
        m.is_pkg = False
        p.modules[name] = m
        p._index(m)
        fi = p.funcs[name + ".config"]
        p.func_of_node = {id(f.node): f for f in p.funcs.values()}
        C = V("param", "c")

        def results(I, st, n, func, args, kw):
            if n in ("loads", "json.loads") and args and args[0].k == "const" and isinstance(args[0].a[0], str):
                return put(st, json.loads(args[0].a[0]))

        I = Interp(p, c.types, results=results)
        I.UNROLL = 60
        outs = I.run_function(fi, [C], st=I.new_state())
        rets = [o for o in outs if o.kind == "ret"]
        self.raised = [o for o in outs if o.kind != "ret"]
        del p.modules[name]
        for q in [q for q in p.funcs if q.startswith(name + ".")]:
            del p.funcs[q]
        if not rets:
            raise Invalid("the generated configuration never succeeds")
        self.sets = []
        for o in rets:
            s = {}
            for k, v in o.st.store.items():
                if isinstance(k, tuple) and isinstance(k[0], V) and k[0].k in ("attr", "sub", "item") and k[0].a[0] == C:
                    try:
                        val = get(o.st, v)
                    except Unknown:
                        val = v
                    kn = k[0].a[1]
                    kn = kn.a[0] if isinstance(kn, V) and kn.k == "const" else kn
                    s[kn, k[1]] = val
            for e in events(o.st.trace):
                fv = e.get("callee") if e.kind == "call" else None
                if fv is not None and fv.k == "attr" and fv.a[1] == "update" and any(x == C for x in subterms(fv)):
                    h = fv.a[0]
                    kn = h.a[1] if h.k in ("attr", "sub", "item") else None
                    kn = kn.a[0] if isinstance(kn, V) and kn.k == "const" else kn
                    a = e.get("args") or ()
                    try:
                        for x, y in (get(e.get("st") or o.st, a[0]) if a else {}).items():
                            s[kn, x] = y
                    except Unknown:
                        s[kn, "?"] = a[0]
            self.sets.append(s)
        self.set = self.sets[0]


class Setup:
    """one rendering"""

    def __init__(self, c, chart, name, values, release, settings):
        self.name, self.values, self.release = name, values, release
        self.all = chart.objects(values, release)
        self.s = settings
        self.dep = {}
        for n, o in self.all:
            if o.get("kind") == "Deployment":
                ct = o["spec"]["template"]["spec"]["containers"][0]
                args = [str(x) for x in [*(ct.get("command") or ()), *(ct.get("args") or ())]]
                role = "controller" if "kube-controller" in args else "api" if "dask-gateway-server" in args else "traefik"
                self.dep[role] = (n, o, ct, args)
        self.conf = {}
        for role in ("api", "controller"):
            if role in self.dep:
                if c is None:
                    continue
                n, t = self.configuration(role)
                self.conf[role] = Conf(c, t, n)

    def kind(self, k):
        return [o for _, o in self.all if o.get("kind") == k]

    def named(self, k, name):
        return next((o for o in self.kind(k) if o["metadata"]["name"] == name), None)

    def configuration(self, role):
        """(template, text) of the file the server of a deployment is told to load"""
        n, o, ct, args = self.dep[role]
        path = next((args[i + 1] for i, a in enumerate(args[:-1]) if a in ("--config", "-f")), next((a.split("=", 1)[1] for a in args if a.startswith("--config=")), None))
        if path is None:
            raise Invalid(f"{n}: the server is not told which configuration to load")
        spec = o["spec"]["template"]["spec"]
        for mt in ct.get("volumeMounts") or ():
            d = mt["mountPath"].rstrip("/")
            v = next((v for v in spec.get("volumes") or () if v["name"] == mt["name"]), None)
            cm = v and v.get("configMap") and next(((m, x) for m, x in self.all if x.get("kind") == "ConfigMap" and x["metadata"]["name"] == v["configMap"]["name"]), None)
            if not cm:
                continue
            for k, t in cm[1]["data"].items():
                if path == d + "/" + k or path == d and mt.get("subPath") == k:
                    return cm[0], t
        raise Invalid(f"{n}: the server is told to load {path}, which no ConfigMap of the chart provides")

    def setting(self, role, cls, name):
        """what the server sees: the configured value, or the default of the code"""
        k = self.s.cls(cls)
        for x in [z.qual.rsplit(".", 1)[-1] for z in k.mro()]:
            if (x, name) in self.conf[role].set:
                return self.conf[role].set[x, name]
        return self.s.default(k, name)


def port_of(address):
    m = re.fullmatch(r"[^:]*:(\d+)", address or "")
    return int(m.group(1)) if m else None


def at(x, path):
    for k in path:
        x = x.get(k) if isinstance(x, dict) else x[k] if isinstance(x, list) and isinstance(k, int) and k < len(x) else None
    return x


def plant(path, v):
    for k in reversed(path.split(".")):
        v = {k: v}
    return v


DEPLOY = {      # documented value -> where it must be, for each deployment (value section, role)
    "replicas": (5, ("spec", "replicas"), "eq"), "annotations": ({"ann-u": "x"}, ("spec", "template", "metadata", "annotations"), "sub"), "resources": ({"limits": {"cpu": "u"}}, ("C", "resources"), "eq"),
    "image.name": ("name-u", ("C", "image"), "in"), "image.tag": ("tag-u", ("C", "image"), "in"), "image.pullPolicy": ("Never", ("C", "imagePullPolicy"), "eq"), "imagePullSecrets": ([{"name": "ps-u"}], ("spec", "template", "spec", "imagePullSecrets"), "eq"),
    "env": ([{"name": "E-u", "value": "1"}], ("C", "env"), "sub"), "nodeSelector": ({"n-u": "x"}, ("spec", "template", "spec", "nodeSelector"), "eq"), "affinity": ({"a-u": {}}, ("spec", "template", "spec", "affinity"), "eq"),
    "tolerations": ([{"key": "t-u"}], ("spec", "template", "spec", "tolerations"), "eq"),
    **{f"{p}.{k}": (77, ("C", p, k), "eq") for p in ("livenessProbe", "readinessProbe") for k in ("initialDelaySeconds", "timeoutSeconds", "periodSeconds", "failureThreshold")},
    "additionalArguments": (["--arg-u=1"], ("C", "args"), "sub"), "loglevel": ("DEBUG", None, "log"),
}
SERVICE = {
    "service.annotations": ({"sa-u": "x"}, ("metadata", "annotations"), "eq"), "service.type": ("NodePort", ("spec", "type"), "eq"), "service.spec": ({"externalIPs": ["1.2.3.4"]}, ("spec",), "sub"),
}
CONTROLLER = {"completedClusterMaxAge": ("completed_cluster_max_age", 12345), "completedClusterCleanupPeriod": ("completed_cluster_cleanup_period", 678), "backoffBaseDelay": ("backoff_base_delay", 0.25), "backoffMaxDelay": ("backoff_max_delay", 123),
              "k8sApiRateLimit": ("k8s_api_rate_limit", 17), "k8sApiRateLimitBurst": ("k8s_api_rate_limit_burst", 19), "loglevel": ("log_level", "DEBUG")}
BACKEND = {"image": "img-u:tag-u", "image_pull_policy": "IfNotPresent", "image_pull_secrets": [{"name": "sec-u"}], "namespace": "ns-u", "environment": {"K": "v"}, "scheduler_extra_pod_config": {"a": 1}, "scheduler_extra_container_config": {"b": 1},
           "scheduler_cores": 2, "scheduler_cores_limit": 3.5, "scheduler_memory": "4 G", "scheduler_memory_limit": "5 G", "worker_extra_pod_config": {"c": 1}, "worker_extra_container_config": {"d": 1}, "worker_cores": 6, "worker_cores_limit": 7.5,
           "worker_memory": "8 G", "worker_memory_limit": "9 G", "worker_threads": 11}
LIMIT = 15


def has(kind, got, want):
    if kind == "eq":
        return got == want
    if kind == "in":
        return isinstance(got, str) and want in got
    if isinstance(want, dict):
        return isinstance(got, dict) and all(got.get(k) == v for k, v in want.items())
    return isinstance(got, list) and all(x in got for x in want)


def grants(u, role):
    """(rules, problem) of the service account of a deployment"""
    n, o, ct, args = u.dep[role]
    sa = o["spec"]["template"]["spec"].get("serviceAccountName")
    if sa is None:
        return None, "has no service account"
    if u.named("ServiceAccount", sa) is None:
        return None, f"runs as {sa}, a service account the chart does not create"
    rules, bound = [], False
    for b in u.kind("ClusterRoleBinding"):
        if any(s.get("kind") == "ServiceAccount" and s.get("name") == sa and s.get("namespace") == u.release[1] for s in b.get("subjects") or ()):
            bound = True
            r = b["roleRef"]
            role_ = u.named(r.get("kind"), r["name"])
            if role_ is None or r.get("apiGroup") != "rbac.authorization.k8s.io":
                return None, f"is bound to {r.get('kind')} {r['name']}, which the chart does not create"
            rules += role_.get("rules") or []
    if not bound:
        return None, f"runs as {sa}, which no cluster role is bound to"
    return rules, None


def granted(rules, g, r, v):
    return any((g in x.get("apiGroups", ()) or "*" in x.get("apiGroups", ())) and (r in x.get("resources", ()) or "*" in x.get("resources", ())) and (v in x.get("verbs", ()) or "*" in x.get("verbs", ())) and not x.get("resourceNames") for x in rules)


class Routing:
    """Traefik, given the chart's routes and what the controller adds for a cluster"""

    def __init__(self, c, u):
        self.u = u
        self.prog, self.types = c.prog, c.types
        self.k = c.prog.cls(KUBE + "controller", "KubeController")

    def selfstore(self, st, me):
        cls = self.k
        done = set()
        for k in cls.mro():
            for n in k.assigns:
                if n in done:
                    continue
                t, ok = self.u.s.trait(cls, n)
                if t is not None and ok:
                    done.add(n)
                    v = next((self.u.conf["controller"].set[x.qual.rsplit(".", 1)[-1], n] for x in cls.mro() if (x.qual.rsplit(".", 1)[-1], n) in self.u.conf["controller"].set), None)
                    if v is None:
                        v = self.u.s.default(cls, n)
                        if v is None and self.u.s.kind(t) in ("List", "Dict"):
                            v = [] if self.u.s.kind(t) == "List" else {}
                        if v is None:
                            continue
                    for h in self.validators(cls, n):
                        v = self.validate(h, v)
                    st.store[(me, n)] = put(st, v)

    def validators(self, cls, n):
        for k in cls.mro():
            for f in k.methods.values() if isinstance(k.methods, dict) else ():
                for d in f.node.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, "id", getattr(d.func, "attr", "")) == "validate" and any(isinstance(a, ast.Constant) and a.value == n for a in d.args):
                        yield f

    def validate(self, f, v):
        I = Interp(self.prog, self.types)
        st = I.new_state()
        P = V("param", "proposal")
        w = put(st, v)
        st.store[(P, "value")] = w
        outs = [o for o in I.run_function(f, [P], selfv=V("param", "self"), st=st) if o.kind == "ret"]
        if len(outs) != 1:
            raise Broken(f"{f.qual} of {v!r}")
        return get(outs[0].st, outs[0].val)

    def made(self, name, *args):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"KubeController.{name} is gone")
        me = V("param", "self")
        I = Interp(self.prog, self.types)
        I.term_types[me] = self.k.qual
        st = I.new_state()
        self.selfstore(st, me)
        outs = [o for o in I.run_function(f, [const(a) for a in args], selfv=me, st=st) if o.kind == "ret"]
        if len(outs) != 1:
            raise Broken(f"{f.qual}: {len(outs)} results")
        return get(outs[0].st, outs[0].val)


def strip(path, m):
    """the path after a middleware"""
    s = m["spec"]
    for p in (s.get("stripPrefix") or {}).get("prefixes", ()):
        if path.startswith(p):
            path = path[len(p):]
            return path if path.startswith("/") else "/" + path
    for r in (s.get("stripPrefixRegex") or {}).get("regex", ()):
        g = re.match(r, path)
        if g and path.startswith(g.group(0)):
            path = path[g.end():]
            return path if path.startswith("/") else "/" + path
    return path


def prefixes(route):
    return re.findall(r"PathPrefix\(`([^`]*)`\)", route["match"])


def run(c):
    c.rule("RENDER", "the chart renders to Kubernetes objects, and its generated configurations to Python programs that succeed, for every supported combination of values")
    c.rule("GRANT", "every Kubernetes operation a server performs is granted by the role its service account is bound to")
    c.rule("LEAST", "the API server's role grants nothing on pods and nothing but reading on secrets")
    c.rule("TRAIT", "every setting the generated configuration makes is one the servers have, and its value one the setting takes")
    c.rule("PLUMB", "a documented value reaches the setting or object it is documented to set, unchanged")
    c.rule("NAMES", "components refer to each other under the names, ports and paths the chart and the servers give them")
    c.rule("ROUTE", "requests under the prefix reach the API server and clusters under the paths these serve")
    c.rule("SECRET", "the JupyterHub token is in a secret and in no configuration map")
    d = os.path.join(REPO, "resources/helm/dask-gateway")
    chart = Chart(d)
    settings = Settings(c.prog)
    calls = Calls(c)
    for x in calls.unresolved:
        c.notes.append(f"the resource of {x} is not a constant") if isinstance(c.notes, list) else None
    crds = {}
    for p in sorted(glob.glob(os.path.join(d, "crds", "*.y*ml"))):
        for o in yaml.safe_load_all(open(p)):
            if o and o.get("kind") == "CustomResourceDefinition":
                crds[o["spec"]["group"], o["spec"]["names"]["plural"]] = o
    setups = {}
    for name, (values, release) in SETUPS.items():
        try:
            setups[name] = Setup(c, chart, name, values, release, settings)
            c.require(True, "RENDER", TEMPLATES, "")
            for role, k in setups[name].conf.items():
                c.require(not (k.raised and name in ("the defaults",)), "RENDER", TEMPLATES + role, f"with {name}, the configuration of the {role} can fail", key=("raise", role))
        except Invalid as e:
            c.require(False, "RENDER", TEMPLATES, f"with {name}: {e}", key=("render", name))
    routes = web.routes(c.prog, c.types)
    routes = routes[0] if isinstance(routes, tuple) else routes
    # the API server's own health and cluster paths
    paths = {(r.method, r.path) for r in routes}

    for name, u in setups.items():
        check_setup(c, u, calls, settings, crds, paths)
    plumb(c, chart, settings)
    # -- secrets
    u = setups.get("JupyterHub with a token in the values")
    if u is not None:
        tok = u.values["gateway"]["auth"]["jupyterhub"]["apiToken"]
        for n, o in u.all:
            t = json.dumps(o)
            c.require(o.get("kind") == "Secret" or tok not in t and base64.b64encode(tok.encode()).decode() not in t, "SECRET", n, f"the JupyterHub token is in the {o.get('kind')} {o['metadata']['name']}", key=("token", n))
    for name in ("JupyterHub with a token in the values", "JupyterHub with a token in a secret"):
        u = setups.get(name)
        if u is None or "api" not in u.dep:
            continue
        env = hub_env(c, u)
        ref = at(next((e for e in u.dep["api"][2].get("env") or () if e.get("name") == env), {}), ("valueFrom", "secretKeyRef"))
        want = u.values["gateway"]["auth"]["jupyterhub"].get("apiToken")
        if want:
            s = ref and u.named("Secret", ref["name"])
            got = s and (s.get("data") or {}).get(ref["key"])
            c.require(bool(got) and base64.b64decode(got).decode() == want, "NAMES", u.dep["api"][0], f"with {name}, {env} is not taken from the secret holding the token", key="hub token")
        else:
            v = chart.values["gateway"]["auth"]["jupyterhub"]
            c.require(ref == {"name": v["apiTokenFromSecretName"], "key": v["apiTokenFromSecretKey"]}, "NAMES", u.dep["api"][0], f"with {name}, {env} is not taken from the configured secret", key="hub secret")
    for r, n in (("RENDER", 20), ("GRANT", 100), ("LEAST", 15), ("TRAIT", 100), ("PLUMB", 60), ("NAMES", 200), ("ROUTE", 50), ("SECRET", 10)):
        c.floor(r, n)


def hub_env(c, u):
    """the environment variable the JupyterHub authenticator takes its token from"""
    k = c.prog.cls("dask_gateway_server.auth", "JupyterHubAuthenticator")
    for f in k.methods.values():
        for dd in f.node.decorator_list:
            if isinstance(dd, ast.Call) and any(isinstance(a, ast.Constant) and a.value == "jupyterhub_api_token" for a in dd.args):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[A-Z][A-Z_]+", n.value):
                        return n.value
    return "JUPYTERHUB_API_TOKEN"


def check_setup(c, u, calls, settings, crds, paths):
    w = f"with {u.name}, "
    names = [(o["kind"], o["metadata"]["name"]) for _, o in u.all]
    for x in sorted(set(names)):
        c.require(names.count(x) == 1 and len(x[1]) <= 63 and re.fullmatch(r"[a-z0-9]([a-z0-9.-]*[a-z0-9])?", x[1]), "NAMES", TEMPLATES, f"{w}the chart makes {names.count(x)} objects {x[0]} {x[1]}, or the name is not one Kubernetes takes", key=("object", x[0]))
    # -- roles
    if u.values.get("rbac", {}).get("enabled", True):
        for role in u.dep:
            own = (u.values.get("rbac", {}).get({"api": "gateway"}.get(role, role)) or {}).get("serviceAccountName")
            n, o, ct, args = u.dep[role]
            if own:
                c.require(o["spec"]["template"]["spec"].get("serviceAccountName") == own, "NAMES", n, f"{w}the {role} does not run as the service account configured for it", key=("sa", role))
                continue
            rules, problem = grants(u, role)
            c.require(problem is None, "NAMES", n, f"{w}the {role} {problem}", key=("sa", role))
            if problem:
                continue
            need = calls.found.get(role)
            if role == "traefik":
                made = {("traefik.io", x["kind"].lower() + "s") for _, x in u.all if x["apiVersion"].startswith("traefik.io/")}
                need = {(g, r, v): "traefik" for g, r in made | {(g, r) for g, r, v in calls.found["controller"] if g == "traefik.io" and v == "create"} for v in ("get", "list", "watch")}
            for (g, r, v), where in sorted(need.items()):
                c.require(granted(rules, g, r, v), "GRANT", where, f"{w}the {role} may not {v} {r} ({g or 'core'}), which {where} does", key=("grant", role, g, r, v))
            if role == "api":
                for x in rules:
                    core = "" in x.get("apiGroups", ()) or "*" in x.get("apiGroups", ())
                    res = set(x.get("resources", ()))
                    c.require(not core or not any(y == "*" or y == "pods" or y.startswith("pods/") for y in res), "LEAST", n, f"{w}the API server's role covers pods", key="least pods")
                    c.require(not core or not (res & {"*", "secrets"}) or set(x.get("verbs", ())) <= {"get", "list", "watch"}, "LEAST", n, f"{w}the API server's role allows {sorted(x.get('verbs', ()))} on secrets", key="least secrets")
    # -- settings
    custom = at(u.values, ("gateway", "auth", "custom", "class"))
    for role, conf in u.conf.items():
        for (cn, tn), v in sorted(conf.set.items(), key=str):
            if custom and cn == custom.rsplit(".", 1)[-1]:
                continue
            k = settings.cls(str(cn))
            if not c.require(k is not None, "TRAIT", TEMPLATES + role, f"{w}the {role}'s configuration sets {cn}.{tn}, and there is no such class", key=("class", role, str(cn))):
                continue
            t, ok = settings.trait(k, tn)
            if t is None and tn == "log_level" and any("Application" in b for b in ext(k)):
                c.require(v in ("DEBUG", "INFO", "WARN", "WARNING", "ERROR", "CRITICAL") or isinstance(v, int), "TRAIT", TEMPLATES + role, f"{w}{cn}.{tn} is {v!r}", key=("value", role, cn, tn))
                continue
            if not c.require(t is not None and ok, "TRAIT", k.qual, f"{w}the {role}'s configuration sets {cn}.{tn}, which is not a setting", key=("trait", role, cn, tn)):
                continue
            want = FITS.get(settings.kind(t))
            none = any(x.arg == "allow_none" and getattr(x.value, "value", None) is True for x in t.keywords)
            if want is None or isinstance(v, V):
                continue
            c.require(isinstance(v, want) and (not isinstance(v, bool) or want is bool) or v is None and none, "TRAIT", k.qual, f"{w}the {role}'s configuration sets {cn}.{tn}, a {settings.kind(t)}, to {v!r}", key=("value", role, cn, tn))
            for b in ("min", "max"):
                lim = next((x.value for x in t.keywords if x.arg == b), None)
                if isinstance(lim, ast.Constant) and isinstance(v, (int, float)):
                    c.require(v >= lim.value if b == "min" else v <= lim.value, "TRAIT", k.qual, f"{w}{cn}.{tn} is {v!r}, beyond its {b}", key=("bound", role, cn, tn))
    if "api" not in u.conf:
        return
    # -- the command lines
    gw = c.prog.cls("dask_gateway_server.app", "DaskGateway")
    for role in u.conf:
        n, o, ct, args = u.dep[role]
        k = calls.comp["controller"] if role == "controller" else gw
        if role == "controller":
            sub = args[args.index("dask-gateway-server") + 1] if "dask-gateway-server" in args[:-1] else None
            got = table(gw, "subcommands").get(sub)
            c.require(got is not None and str(got[0] if isinstance(got, (tuple, list)) else got) == k.qual, "NAMES", n, f"{w}the controller is started by the command {sub!r}, which the server has none of for {k.qual}", key="subcommand")
        flag = next((a.split("=")[0].lstrip("-") for a in args if a.split("=")[0] in ("--config", "-f")), None)
        al = table(k, "aliases").get(flag, "")
        t, ok = settings.trait(k, al.rsplit(".", 1)[-1]) if al else (None, False)
        c.require(al.split(".")[0] in [x.qual.rsplit(".", 1)[-1] for x in k.mro()] and ok, "NAMES", n, f"{w}--{flag} is not an option of the {role}", key=("option", role))
    # -- addresses
    apin, api, apict, _ = u.dep["api"]
    listen = port_of(u.setting("api", "DaskGateway", "address"))
    labels = {r: at(d[1], ("spec", "template", "metadata", "labels")) for r, d in u.dep.items()}
    for r, (n, o, ct, _) in u.dep.items():
        sel = at(o, ("spec", "selector", "matchLabels")) or {}
        for r2, l in labels.items():
            m = sel.items() <= l.items()
            c.require(m == (r == r2), "NAMES", n, f"{w}the selector of the {r} deployment {'matches' if m else 'does not match'} the pods of the {r2} deployment", key=("selector", r, r2))
        c.require(o["metadata"].get("namespace", u.release[1]) == u.release[1], "NAMES", n, f"{w}the {r} is in another namespace", key=("ns", r))
    svc = {}
    for s in u.kind("Service"):
        to = [r for r, l in labels.items() if (s["spec"].get("selector") or {}).items() <= l.items()]
        svc[s["metadata"]["name"]] = (s, to)
        c.require(len(to) == 1, "NAMES", TEMPLATES, f"{w}the service {s['metadata']['name']} reaches the pods of {to}", key=("service", s["metadata"]["name"].split("-")[0]))
    c.require(any(p.get("containerPort") == listen for p in apict.get("ports") or ()), "NAMES", apin, f"{w}the API server listens on {listen}, which is not a port of its container", key="api port")

    def serves(name, port):
        s, to = svc.get(name, (None, ()))
        if s is None or to != ["api"]:
            return False
        p = next((p for p in s["spec"]["ports"] if p["port"] == port), None)
        return p is not None and resolve(apict, p.get("targetPort", p["port"])) == listen

    for role, cls in (("api", "KubeBackend"), ("controller", "KubeController")):
        if role not in u.conf:
            continue
        url = u.setting(role, cls, "api_url")
        m = re.fullmatch(r"https?://([^.:/]+)\.([^:/.]+)(?:\.svc[^:/]*)?:(\d+)(/.*)?", url or "")
        ok = m and m.group(2) == u.release[1] and serves(m.group(1), int(m.group(3)))
        c.require(ok, "NAMES", TEMPLATES + role, f"{w}the {role}'s API address {url} is not that of the API server", key=("url", role))
        c.require(m and any(p.startswith((m.group(4) or "").rstrip("/") + "/v1/clusters/") and p.endswith("/heartbeat") for _, p in paths), "NAMES", TEMPLATES + role, f"{w}the API server serves no heartbeats under {url}", key=("urlpath", role))
    for probe in ("livenessProbe", "readinessProbe"):
        g = at(apict, (probe, "httpGet"))
        if g is not None:
            c.require(("get", g["path"]) in paths and resolve(apict, g["port"]) == listen, "NAMES", apin, f"{w}the {probe} asks {g['path']} on {g['port']}, which the API server does not serve", key=("probe", probe))
    if "controller" in u.conf:
        p = port_of(u.setting("controller", "KubeController", "address"))
        c.require(any(x.get("containerPort") == p for x in u.dep["controller"][2].get("ports") or ()), "NAMES", u.dep["controller"][0], f"{w}the controller listens on {p}, which is not a port of its container", key="controller port")
    # -- the instance
    inst = u.setting("api", "KubeBackend", "gateway_instance")
    if "controller" in u.conf:
        c.require(inst == u.setting("controller", "KubeController", "gateway_instance") and bool(inst), "NAMES", TEMPLATES, f"{w}the API server's and the controller's gateway instances differ", key="instance")
    targs = u.dep["traefik"][3] if "traefik" in u.dep else []
    sel = next((a.split("=", 1)[1] for a in targs if a.startswith("--providers.kubernetescrd.labelselector=")), "")
    wanted = dict(x.split("=", 1) for x in sel.split(",") if "=" in x)
    eps = {m.group(1): int(m.group(2)) for a in targs for m in [re.fullmatch(r"--entrypoints\.(\w+)\.address=:(\d+)(?:/tcp)?", a)] if m}
    made = []
    if "controller" in u.conf:
        r = Routing(c, u)
        # the cluster's namespace and name as the API server and the client know them
        made = [r.made("make_ingressroute", "cn0", "ns7"), r.made("make_ingressroutetcp", "cn0", "ns7")]
    if "traefik" in u.dep:
        tsvc = [s for s, to in svc.values() if to == ["traefik"]]
        for o in [o for _, o in u.all if o["apiVersion"].startswith("traefik.io/")] + made:
            what = f"{o['kind']} {o['metadata']['name']}"
            c.require(wanted.items() <= (o["metadata"].get("labels") or {}).items(), "NAMES", TEMPLATES, f"{w}{what} does not have the labels traefik looks for ({sel})", key=("label", o["kind"], o in made))
            for e in o["spec"].get("entryPoints") or ():
                c.require(e in eps, "NAMES", TEMPLATES, f"{w}{what} is for the entry point {e}, which traefik does not have", key=("entrypoint", o["kind"], o in made))
                if e in eps:
                    c.require(any(resolve(u.dep["traefik"][2], p.get("targetPort", p["port"])) == eps[e] for s in tsvc for p in s["spec"]["ports"]), "NAMES", TEMPLATES, f"{w}no service leads to traefik's entry point {e}", key=("entry service", e))
                    c.require(any(p.get("containerPort") == eps[e] for p in u.dep["traefik"][2].get("ports") or ()), "NAMES", TEMPLATES, f"{w}the port of traefik's entry point {e} is not one of its container", key=("entry port", e))
        c.require("--providers.kubernetescrd.allowcrossnamespace=true" in targs and "--providers.kubernetescrd" in targs, "NAMES", u.dep["traefik"][0], f"{w}traefik does not follow routes of clusters in other namespaces", key="cross")
        for probe in ("livenessProbe", "readinessProbe"):
            g = at(u.dep["traefik"][2], (probe, "httpGet"))
            if g is not None:
                c.require(g["path"] == "/ping" and "--ping=true" in targs and resolve(u.dep["traefik"][2], g["port"]) == eps.get("traefik"), "NAMES", u.dep["traefik"][0], f"{w}traefik's {probe} is not answered", key=("tprobe", probe))
    # -- the custom resources
    for g, r, v in sorted({k for f in calls.found.values() for k in f if k[0]}):
        base, _, sub = r.partition("/")
        d = crds.get((g, base))
        c.require(d is not None, "NAMES", TEMPLATES, f"{base}.{g} is not among the chart's resource definitions", key=("crd", g, base))
        if d is not None and sub:
            c.require(any(sub in (x.get("subresources") or {}) for x in d["spec"]["versions"]), "NAMES", TEMPLATES, f"{base}.{g} has no {sub}", key=("crdsub", g, base))
        if d is not None and g == "gateway.dask.org":
            ver = u.setting("api", "KubeBackend", "crd_version")
            c.require(any(x["name"] == ver and x["served"] for x in d["spec"]["versions"]) and d["spec"]["scope"] == "Namespaced", "NAMES", TEMPLATES, f"{base}.{g} is not served in the version {ver}", key=("crdver", g, base))
    for o in made:
        d = next((d for d in crds.values() if d["spec"]["names"]["kind"] == o["kind"] and d["spec"]["group"] == o["apiVersion"].split("/")[0]), None)
        c.require(d is not None and any(x["name"] == o["apiVersion"].split("/")[1] and x["served"] for x in d["spec"]["versions"]), "NAMES", KUBE + "controller", f"{o['apiVersion']} {o['kind']} is not among the chart's resource definitions", key=("crdmade", o["kind"]))
    # -- routes
    prefix = at(u.values, ("gateway", "prefix")) or "/"
    base = prefix.rstrip("/")
    mws = {(u.release[1], m["metadata"]["name"]): m for m in u.kind("Middleware")}

    def through(path, routes):
        """(service, port, path) a request ends at"""
        best = None
        for o, ns in routes:
            for r in o["spec"]["routes"]:
                if "web" not in (o["spec"].get("entryPoints") or ["web"]):
                    continue
                for p in prefixes(r):
                    if path.startswith(p) and (best is None or len(p) > len(best[0])):
                        best = (p, r, ns)
        if best is None:
            return None
        p, r, ns = best
        for m in r.get("middlewares") or ():
            x = mws.get((m.get("namespace", ns), m["name"]))
            if x is None:
                return f"the middleware {m['name']}, which the chart does not make"
            path = strip(path, x)
        s = r["services"][0]
        return s["name"], s["port"], path, s.get("namespace", ns)

    every = [(o, u.release[1]) for o in u.kind("IngressRoute")] + [(o, "ns7") for o in made if o["kind"] == "IngressRoute"]
    for _, path in sorted(paths)[:]:
        if not path.startswith("/api/"):
            continue
        got = through(base + path, every)
        c.require(isinstance(got, tuple) and serves(got[0], got[1]) and got[2] == path and got[3] == u.release[1], "ROUTE", TEMPLATES, f"{w}a request for {base}{path} ends at {got}", key=("route", path))
    if made:
        for rest in ("/", "/status", "/a/b", "/api/v1/", "/clusters/x/"):
            got = through(f"{base}/clusters/ns7.cn0{rest}", every)
            c.require(isinstance(got, tuple) and got[0] == made_service(c, u) and got[1] == 8787 and got[2] == rest and got[3] == "ns7", "ROUTE", TEMPLATES, f"{w}a request for {base}/clusters/ns7.cn0{rest} ends at {got}", key=("cluster", rest))


def made_service(c, u):
    return Routing(c, u).made("make_service_name", "cn0")


def resolve(ct, port):
    """the number of a container's port"""
    if isinstance(port, int):
        return port
    return next((p["containerPort"] for p in ct.get("ports") or () if p.get("name") == port), None)


def table(cls, name):
    for k in cls.mro():
        n = k.assigns.get(name)
        n = n[-1] if isinstance(n, list) else n
        if n is not None:
            if isinstance(n, ast.Call):
                n = n.args[0] if n.args else ast.Dict([], [])
            try:
                return ast.literal_eval(n)
            except ValueError:
                return {}
    return {}


def ext(k):
    return [str(b) for x in k.mro() for b in x.ext_bases()]


def plumb(c, chart, settings):
    values = chart.values
    # objects
    for role, section in (("api", "gateway"), ("controller", "controller"), ("traefik", "traefik")):
        for path, (v, where, how) in DEPLOY.items():
            if path == "loglevel" and section != "traefik" or at(values.get(section), path.split(".")[:1]) is None and path.split(".")[0] not in values.get(section, {}):
                continue
            if at(values[section], path.split(".")[:-1]) is not None and path.split(".")[-1] not in (at(values[section], path.split(".")[:-1]) or {}):
                continue
            try:
                u = Rendered(chart, {section: plant(path, v)})
            except Invalid as e:
                c.require(False, "RENDER", TEMPLATES, f"with {section}.{path}: {e}", key=("render", section, path))
                continue
            n, o, ct, args = u.dep[role]
            if how == "log":
                ok = f"--log.level={v}" in args
            else:
                ok = has(how, at(ct, where[1:]) if where[0] == "C" else at(o, where), v)
            c.require(ok, "PLUMB", n, f"{section}.{path} does not reach the {role} deployment", key=("value", section, path))
    for role, section in (("api", "gateway"), ("traefik", "traefik")):
        for path, (v, where, how) in SERVICE.items():
            if path.split(".")[1] not in (values[section].get("service") or {}):
                continue
            u = Rendered(chart, {section: plant(path, v)})
            l = at(u.dep[role][1], ("spec", "template", "metadata", "labels"))
            s = [s for s in u.kind("Service") if (s["spec"].get("selector") or {}).items() <= l.items()]
            c.require(len(s) == 1 and has(how, at(s[0], where), v), "PLUMB", TEMPLATES, f"{section}.{path} does not reach the {role} service", key=("value", section, path))
    for name, port, node in (("web", 81, 30000), ("tcp", 8786, 30001)):
        u = Rendered(chart, SETUPS["a TCP port"][0])
        s = next(s for s in u.kind("Service") if s["spec"].get("type") == values["traefik"]["service"]["type"])
        p = next((p for p in s["spec"]["ports"] if p["name"] == name), {})
        c.require(p.get("port") == port and p.get("nodePort") == node, "PLUMB", TEMPLATES, f"traefik.service.ports.{name} does not reach the traefik service", key=("port", name))
    # settings
    def conf(values, role):
        return Setup(c, chart, "", values, REL, settings)

    try:
        u = conf(FULL, "api")
        for s in u.conf["api"].sets:
            for k, v in BACKEND.items():
                c.require(same(s.get(("KubeClusterConfig", k)), v), "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"gateway.backend: KubeClusterConfig.{k} is {show_(s.get(('KubeClusterConfig', k)))} where {v!r} is configured", key=("backend", k))
        u = conf({}, "api")
        for s in u.conf["api"].sets:
            for k in BACKEND:
                if k not in ("image",):
                    v = s.get(("KubeClusterConfig", k))
                    c.require(v in (None, {}, []), "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"KubeClusterConfig.{k} is set to {show_(v)} though nothing is configured", key=("unset", k))
        u = conf(plant("gateway.backend.image", {"name": "only", "tag": None}), "api")
        c.require(all(s.get(("KubeClusterConfig", "image")) == "only" for s in u.conf["api"].sets), "PLUMB", TEMPLATES + "gateway/configmap.yaml", "an image without a tag is not used as it is", key="untagged")
        u = conf(plant("gateway.backend", {"scheduler": {"cores": {"request": 0}}, "worker": {"cores": {"request": 0}}}), "api")
        c.require(all(same(s.get(("KubeClusterConfig", k)), 0) for s in u.conf["api"].sets for k in ("scheduler_cores", "worker_cores")), "PLUMB", TEMPLATES + "gateway/configmap.yaml", "a configured 0 is taken for not configured", key="zero")
        u = conf(SETUPS["values with quotes"][0], "api")
        want = SETUPS["values with quotes"][0]["gateway"]["backend"]["environment"]
        c.require(all(same(s.get(("KubeClusterConfig", "environment")), want) for s in u.conf["api"].sets), "PLUMB", TEMPLATES + "gateway/configmap.yaml", "a value with quotes, backslashes or line ends changes on its way to the configuration", key="quotes")
        for path, (t, v) in CONTROLLER.items():
            if path in values["controller"]:
                u = conf({"controller": {path: v}}, "controller")
                c.require(all(same(s.get(("KubeController", t)), v) for s in u.conf["controller"].sets), "PLUMB", TEMPLATES + "controller/configmap.yaml", f"controller.{path} does not reach KubeController.{t}", key=("controller", path))
        u = conf({"gateway": {"loglevel": "DEBUG"}}, "api")
        c.require(all(s.get(("DaskGateway", "log_level")) == "DEBUG" for s in u.conf["api"].sets), "PLUMB", TEMPLATES + "gateway/configmap.yaml", "gateway.loglevel does not reach the API server", key="loglevel")
        A = "dask_gateway_server.auth."
        for name, cls, more in (("the defaults", A + "SimpleAuthenticator", {}), ("a password", A + "SimpleAuthenticator", {("SimpleAuthenticator", "password"): "pw-u"}), ("kerberos", A + "KerberosAuthenticator", {("KerberosAuthenticator", "keytab"): "/x.keytab"}),
                                ("JupyterHub with a token in the values", A + "JupyterHubAuthenticator", {("JupyterHubAuthenticator", "jupyterhub_api_url"): "http://hub/hub/api", ("JupyterHubAuthenticator", "jupyterhub_service_name"): "svc-u"}),
                                ("a custom authenticator", "my.mod.MyAuth", {("MyAuth", "x"): 1})):
            u = conf(SETUPS[name][0], "api")
            for s in u.conf["api"].sets:
                c.require(s.get(("DaskGateway", "authenticator_class")) == cls, "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"with {name}, the authenticator is {show_(s.get(('DaskGateway', 'authenticator_class')))}", key=("auth", name))
                c.require(cls.startswith("my.") or cls in c.prog.classes, "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"there is no {cls}", key=("authclass", name))
                for k, v in more.items():
                    c.require(same(s.get(k), v), "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"with {name}, {'.'.join(k)} is {show_(s.get(k))}", key=("auth", name, k))
                b = s.get(("DaskGateway", "backend_class"))
                r = c.prog.resolve_name(c.prog.modules[b.rpartition(".")[0]], b.rpartition(".")[2]) if isinstance(b, str) and b.rpartition(".")[0] in c.prog.modules else None
                c.require(bool(r) and r[0] == "class" and r[1].endswith(".KubeBackend"), "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"the backend {show_(b)} does not exist", key="backend class")
        for name in ("extra configuration", "extra configurations"):
            u = conf(SETUPS[name][0], "api")
            c.require(all(s.get(("KubeClusterConfig", "image")) == "last" for s in u.conf["api"].sets), "PLUMB", TEMPLATES + "gateway/configmap.yaml", f"with {name}, extraConfig is not evaluated last, in the order of its keys", key=("extra", name))
    except Invalid as e:
        c.require(False, "RENDER", TEMPLATES, str(e), key=("render", str(e)[:60]))


def same(a, b):
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and a == b


def show_(v):
    return show(v) if isinstance(v, V) else repr(v)


class Rendered(Setup):
    """a rendering whose configurations do not matter"""

    def __init__(self, chart, values, release=REL):
        Setup.__init__(self, None, chart, "", values, release, None)
