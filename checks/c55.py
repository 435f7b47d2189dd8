"""C55: on Kubernetes a cluster is found at the addresses handed out for it, and only there."""
import ast
import re
from urllib.parse import urlparse

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains
from sa.state import Obj, events, walk_events
from sa.values import NONE, V, const, show

from . import c29
from .optw import Unknown, get, put
from .pods import K8S, Pods

NS = "ns"  # as the pods of pods.py


class Made(Pods):
    """what the controller makes for a cluster"""

    def __init__(self, c, prefix=""):
        super().__init__(c)
        a = self.st.obj(self.S)
        self.st.setobj(self.S, a.replace(attrs={**dict(a.attrs), "proxy_prefix": const(prefix), "proxy_web_entrypoint": const("web-entry"), "proxy_tcp_entrypoint": const("tcp-entry"), "proxy_web_middlewares": put(self.st, [{"name": "strip"}])}))

    def make(self, name, *args):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"the controller has no {name}")
        names = f.params()[1:]
        given = {"cluster_name": args[0] if args else "c1", "namespace": NS}
        # by name where the parameters have the names of today, else in today's order
        if set(names) <= set(given):
            pos, kws = [], {n: const(given[n]) for n in names}
        else:
            pos, kws = [const(x) for x in list(given.values())[: len(names)]], {}
        outs = self.I.run_function(f, pos, selfv=self.S, kwargs=kws, st=self.st.fork())
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        self.where = f"{f.module.rel()}:{f.line} ({f.qual})"
        if len(outs) != 1 or outs[0].kind != "ret":
            self.c.fail("MADE", self.where, f"{name} gives {[show(o.val) for o in outs]}")
            return None
        try:
            return get(outs[0].st, outs[0].val)
        except Unknown as e:
            self.c.fail("MADE", self.where, f"{name} gives something unknown: {e}")


def option(argv, flag, default=None):
    out = default
    for i, x in enumerate(argv):
        if x == flag and i + 1 < len(argv):
            out = argv[i + 1]
        elif isinstance(x, str) and x.startswith(flag + "="):
            out = x[len(flag) + 1:]
    return out


def port(x):
    x = str(x).rpartition(":")[2]
    return int(x) if x.isdigit() else None


def handed(c, service):
    """the addresses and the dashboard's route the API server hands out"""
    w = c29.World(c)
    key = f"{NS}.c1"
    meta = w.dict(namespace=NS, name="c1", creationTimestamp=V("param", "creation time"))
    obj = w.dict(metadata=meta, spec=w.dict(username="u", options=w.dict(), config=w.dict()), status=w.dict(phase="Running", credentials="secret", service=service))
    w.objs[(key, "Running")] = obj
    w.flags[key] = V("param", "waiter")
    out = []
    for o in w.sync(w.st, key, "Running"):
        if o.kind != "ret":
            continue
        for r in w.call(o.st, "get_cluster", const(key)):
            if r.kind != "ret" or r.val == NONE:
                continue
            g = {a: c29.cv(c29.attr(r, r.val, a)) for a in ("scheduler_address", "dashboard_address", "api_address", "name")}
            k = c.prog.cls("dask_gateway_server.models", "Cluster")
            f = k.find_method("to_dict")
            for d in w.I.run_function(f, [], selfv=r.val, st=r.st):
                x = d.st.obj(d.val) if d.kind == "ret" else None
                route = [l[2] for l in x.layers if l[0] == "kv" and l[1] == const("dashboard_route")] if x is not None and x.kind == "dict" else []
                g["route"] = c29.cv(route[-1]) if route else None
                out.append(dict(g))
    if not out:
        raise Broken("no addresses are handed out for a running cluster")
    return out, w.where


def sni(c, name):
    """the TLS server name a client asks for"""
    k = c.prog.cls("dask_gateway.comm", "GatewayConnector")
    f = k.find_method("connect")

    def results(I, st, n, func, args, kw):
        if n == "parse_gateway_address":
            return V("tuple", const("proxy"), const(8786), const(name))

    I = Interp(c.prog, c.types, results=results, opaque=lambda f, r: f.name == "parse_gateway_address")
    st = I.new_state()
    outs = I.run_function(f, [const(f"gateway://proxy:8786/{name}")], selfv=st.alloc(Obj("inst", cls=k.qual, attrs={})), kwargs={"ssl_context": V("param", "ctx")}, st=st)
    c.analysed(f)
    got = {show(e.kwargs["server_hostname"]).strip("'\"") for o in outs for e in walk_events(events(o.st.trace)) if e.kind == "call" and "server_hostname" in (e.get("kwargs") or {})}
    if len(got) != 1:
        raise Broken(f"the client's server name is not followed: {got}")
    return got.pop()


def strings(c, mod):
    return {n.value for n in ast.walk(c.prog.modules[mod].tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}


def listens(c):
    m = Made(c)
    svc = m.make("make_service")
    if svc is None:
        return
    ws = m.where
    name = svc["metadata"].get("name")
    got, here = handed(c, name)
    pods = [p for _, p in m.pod(False)]
    workers = [p for _, p in m.pod(True)]
    mp = m.k.find_method("make_pod")
    wp = f"{mp.module.rel()}:{mp.line} ({mp.qual})"
    for pod in pods:
        ct = pod["spec"]["containers"][0]
        argv = list(ct.get("command") or ()) + list(ct.get("args") or ())
        host = option(argv, "--host", "")
        c.require(host in ("", "0.0.0.0", "::", "tls://", "tls://0.0.0.0"), "LISTEN", wp, f"the scheduler listens on {host}, where no other pod reaches it", key="host")
        on = {"scheduler_address": option(argv, "--port", "8786"), "dashboard_address": option(argv, "--dashboard-address", ":8787"), "api_address": option(argv, "--dg-api-address", ":0")}
        ports = {p.get("name"): p.get("containerPort") for p in ct.get("ports") or ()}
        for g in got:
            for a, at in on.items():
                u = urlparse(g[a] or "")
                h, _, rest = str(at).rpartition(":")
                c.require(h in ("", "0.0.0.0", "[::]"), "LISTEN", wp, f"the {a} is {at}, where no other pod reaches it", key="bind")
                c.require(u.hostname == f"{name}.{NS}", "LISTEN", here, f"the {a} {g[a]} is not that of the cluster's service {name} in {NS}", key=f"name {a}")
                c.require(u.port is not None and u.port == port(at), "LISTEN", here, f"the scheduler is handed out as {g[a]} and listens on {at}", key=f"port {a}")
                c.require(u.scheme == ("tls" if a == "scheduler_address" else "http"), "LISTEN", here, f"the {a} is {g[a]}", key=f"scheme {a}")
                ps = [p for p in svc["spec"].get("ports") or () if p.get("port") == u.port]
                c.require(len(ps) == 1, "SERVICE", ws, f"the service has {len(ps)} ports {u.port}, at which the {a} is handed out", key=f"port {a}")
                for p in ps:
                    t = p.get("targetPort", p.get("target_port", p["port"]))
                    c.require(ports.get(t, t) == port(at), "SERVICE", ws, f"port {u.port} of the service leads to {t}, port {ports.get(t, t)} of the pod, where the {a} is {at}", key=f"target {a}")
            for wk in workers:
                w = wk["spec"]["containers"][0]
                wargv = list(w.get("command") or ()) + list(w.get("args") or ())
                c.require(g["scheduler_address"] in wargv, "WORKER", wp, f"workers are told {[x for x in wargv if '://' in str(x)]}, the scheduler is at {g['scheduler_address']}", key="address")
        probe = ct.get("readinessProbe") or ct.get("startupProbe")
        if c.require(bool(probe), "READY", wp, "a scheduler is taken for ready before it answers", key="none"):
            h = probe.get("httpGet") or {}
            c.require(ports.get(h.get("port"), h.get("port")) == port(on["api_address"]), "READY", wp, f"a scheduler is asked at port {h.get('port')} whether it is ready, its API is at {on['api_address']}", key="port")
            c.require(h.get("path") in strings(c, "dask_gateway.scheduler_preload"), "READY", wp, f"a scheduler is asked at {h.get('path')}, which it does not serve, whether it is ready", key="path")
            c.require((h.get("scheme") or "HTTP") == "HTTP", "READY", wp, "a scheduler's API, which is plain HTTP, is asked by other means whether it is ready", key="scheme")
        sel = svc["spec"].get("selector") or {}
        has = lambda p: sel.items() <= p["metadata"].get("labels", {}).items()
        c.require(bool(sel) and has(pod), "SELECT", ws, f"the service selects {sel}, the scheduler has {pod['metadata'].get('labels')}", key="scheduler")
        c.require(not any(has(wk) for wk in workers), "SELECT", ws, f"the service selects {sel}, which the workers have too", key="workers")
        other = Made(c)
        for label, o in (("cluster", other.make("make_service", "c2")),):
            s2 = (o or {}).get("spec", {}).get("selector") or {}
            c.require(not s2.items() <= pod["metadata"]["labels"].items(), "SELECT", ws, f"the service of another {label} selects this scheduler", key=label)
            c.require((o or {}).get("metadata", {}).get("name") != name, "SERVICE", ws, "two clusters' services have one name", key="names")
        o = Made(c)
        x = o.st.obj(o.S)
        o.st.setobj(o.S, x.replace(attrs={**dict(x.attrs), "gateway_instance": const("another")}))
        s2 = ((o.make("make_service") or {}).get("spec") or {}).get("selector") or {}
        c.require(not s2.items() <= pod["metadata"]["labels"].items(), "SELECT", ws, "the service of another gateway's cluster selects this scheduler", key="instance")


def routed(c):
    svc = Made(c).make("make_service") or {"metadata": {}}
    name = svc["metadata"].get("name")
    got, here = handed(c, name)
    want = sni(c, f"{NS}.c1")
    for prefix in ("", "/gw"):
        m = Made(c, prefix)
        http, wh = m.make("make_ingressroute"), m.where
        tcp, wt = m.make("make_ingressroutetcp"), m.where
        for g in got:
            c.require(g["name"] == f"{NS}.c1", "ROUTE", here, f"the cluster c1 of {NS} is handed out as {g['name']}", key="name")
            for what, r, ws, entry, address in (("dashboard", http, wh, "web-entry", "dashboard_address"), ("scheduler", tcp, wt, "tcp-entry", "scheduler_address")):
                if r is None:
                    continue
                spec = r.get("spec") or {}
                c.require(spec.get("entryPoints") == [entry], "ROUTE", ws, f"the {what}'s route is for the entry points {spec.get('entryPoints')} instead of the configured {entry}", key=f"entry {what}")
                rs = spec.get("routes") or []
                c.require(len(rs) == 1, "ROUTE", ws, f"the {what} has {len(rs)} routes", key=f"routes {what}")
                for x in rs:
                    u = urlparse(g[address])
                    ss = x.get("services") or []
                    c.require(len(ss) == 1 and (ss[0].get("name"), ss[0].get("namespace"), ss[0].get("port")) == (name, NS, u.port), "ROUTE", ws, f"the {what}'s route leads to {ss}, it is handed out as {g[address]}", key=f"to {what}")
                    if what == "scheduler":
                        ms = re.findall(r"HostSNI\(\s*[`\"']([^`\"']*)[`\"']\s*\)", x.get("match") or "")
                        c.require(ms == [want], "ROUTE", ws, f"the scheduler's route matches {x.get('match')}, the client asks for {want}", key="sni")
                    else:
                        ms = re.findall(r"PathPrefix\(\s*[`\"']([^`\"']*)[`\"']\s*\)", x.get("match") or "")
                        asked = f"{prefix}{g['route']}"
                        c.require(len(ms) == 1 and asked.startswith(ms[0]) and f"{NS}.c1" in ms[0], "ROUTE", ws, f"the dashboard's route matches {x.get('match')}, the client asks for {asked}", key="path")
                        c.require(not any(asked.replace("c1/", "c10/").startswith(y) for y in ms), "ROUTE", ws, f"the dashboard's route {x.get('match')} matches another cluster's", key="other")
                        c.require(x.get("middlewares") == [{"name": "strip"}], "ROUTE", ws, f"the dashboard's route has the middlewares {x.get('middlewares')} instead of the configured ones", key="middlewares")
                        c.require(x.get("kind") == "Rule", "ROUTE", ws, "the dashboard's route is no rule", key="kind")
                if what == "scheduler":
                    c.require((spec.get("tls") or {}).get("passthrough") is True, "ROUTE", ws, "the proxy ends a scheduler's TLS instead of passing it through", key="tls")


def run(c):
    c.rule("MADE", "a cluster's service and routes are made without failing")
    c.rule("LISTEN", "a scheduler listens, for other pods, on the ports its addresses are handed out with")
    c.rule("SERVICE", "the cluster's service leads from each of those ports to where the scheduler listens")
    c.rule("SELECT", "the service selects the cluster's scheduler and nothing else")
    c.rule("WORKER", "workers are told the scheduler's address")
    c.rule("READY", "a scheduler counts as ready once its own API says so")
    c.rule("ROUTE", "the proxy's routes match what clients ask for, and lead to this cluster's service")
    listens(c)
    routed(c)
    c.floor("LISTEN", 9)
    c.floor("ROUTE", 10)
    c.assumptions += ["A service's port leads to its targetPort (here also spelled target_port), a number or the name of a container's port.", "Clusters c1 and c2 of one namespace stand for all."]
