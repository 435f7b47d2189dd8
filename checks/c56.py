"""C56: settings that are left out follow from those that are given."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import contains
from sa.state import Obj, events, walk_events
from sa.values import V, const, show

from .c52 import default_of
from .optw import Unknown, get, put

B = "dask_gateway_server.backends."
K8S = B + "kubernetes."
LOST = object()


def evaluate(c, k, f, attrs, args=(), env=None, results=None):
    I = Interp(c.prog, c.types, results=results)
    I.environ = {"HOME": "/root", **(env or {})}
    st = I.new_state()
    S = st.alloc(Obj("inst", cls=k.qual, attrs={"log": V("param", "log"), **{n: v if isinstance(v, V) else put(st, v) for n, v in attrs.items()}}))
    outs = I.run_function(f, [a(st) if callable(a) else a for a in args], selfv=S, st=st)
    c.paths += len(outs)
    c.analysed(f, *I.inlined)
    for o in outs:
        if o.kind != "ret":
            yield "an error", o
            continue
        try:
            yield get(o.st, o.val), o
        except Unknown:
            yield show(o.val), o


def derived(c, mod, cls, trait, cases, env=None):
    k = c.prog.cls(mod, cls)
    f = next((g for g in (default_of(x, trait) for x in k.mro() if not isinstance(x, str)) if g is not None), None)
    if f is None:
        c.fail("DEFAULT", k.qual, f"{trait} is not derived from anything", key=trait)
        return
    for attrs, want in cases:
        for got, _ in evaluate(c, k, f, attrs, env=env):
            c.require(got == want, "DEFAULT", f.qual, f"with {attrs or env} the {trait} left out is {got}, not {want}", key=trait)


def validator(k, trait):
    for x in k.mro():
        for f in (() if isinstance(x, str) else x.methods.values()):
            for d in f.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("validate", "_validate") and any(isinstance(a, ast.Constant) and a.value == trait for a in d.args):
                    return f


def normalised(c, mod, cls, trait, cases):
    k = c.prog.cls(mod, cls)
    f = validator(k, trait)
    if f is None:
        c.fail("GIVEN", k.qual, f"{trait} is taken as it is", key=trait)
        return
    for attrs, value, want in cases:
        def proposal(st):
            x = put(st, value)
            v = st.alloc(Obj("dict", layers=(("kv", const("value"), x),)))
            st.store = {**st.store, (v, "value"): x}
            return v
        for got, _ in evaluate(c, k, f, attrs, args=[proposal]):
            c.require(got in (want if isinstance(want, tuple) else (want,)), "GIVEN", f.qual, f"the {trait} {value!r} is taken for {got!r}, not {want!r}", key=trait)


def limits(c):
    for kind in ("worker", "scheduler"):
        derived(c, K8S + "backend", "KubeClusterConfig", f"{kind}_cores_limit", [({f"{kind}_cores": x, f"{'scheduler' if kind == 'worker' else 'worker'}_cores": 7.5}, x) for x in (0.5, 2.0)])
        derived(c, K8S + "backend", "KubeClusterConfig", f"{kind}_memory_limit", [({f"{kind}_memory": x, f"{'scheduler' if kind == 'worker' else 'worker'}_memory": 77}, x) for x in (1000, 2 << 30)])
    threads = [(0.1, 1), (0.0, 1), (1.0, 1), (1.9, 1), (2.0, 2), (16, 16)]
    derived(c, B + "base", "ClusterConfig", "worker_threads", [({"worker_cores": x}, n) for x, n in threads])
    normalised(c, B + "base", "ClusterConfig", "worker_threads", [({"worker_cores": x}, None, n) for x, n in threads] + [({"worker_cores": 4}, 1, 1), ({"worker_cores": 1}, 8, 8)])


def times(c):
    derived(c, B + "db_base", "DBBackendBase", "cluster_heartbeat_timeout", [({"cluster_heartbeat_period": x}, 2 * x) for x in (15, 1)])
    k = c.prog.cls(B + "db_base", "DBBackendBase")
    f = default_of(k, "check_timeouts_period")
    if f is None:
        raise Broken("the period at which timeouts are checked has no default")
    for a, b, d in ((30, 60, 60), (600, 20, 90), (600, 90, 20), (4, 4, 4)):
        for got, _ in evaluate(c, k, f, {"cluster_heartbeat_timeout": a, "cluster_start_timeout": b, "worker_start_timeout": d}):
            c.require(isinstance(got, (int, float)) and 0 < got <= max(min(a, b, d) * 2, 20), "DEFAULT", f.qual, f"with timeouts of {a}, {b} and {d} seconds they are checked every {got}", key="check")


def addresses(c):
    k = c.prog.cls(B + "db_base", "DBBackendBase")
    f = default_of(k, "api_url")
    if f is None:
        raise Broken("the API's address has no default")
    asked = []

    def results(I, st, name, func, args, kw):
        if name == "normalize_address":
            asked.append((args[0], (args[1] if len(args) > 1 else kw.get("resolve_host"))))
            return const("host:8000")
    for crt in ("", "/tls.crt"):
        for prefix in ("", "/gw"):
            del asked[:]
            I = Interp(c.prog, c.types, results=results, opaque=lambda g, r: g.name == "normalize_address")
            st = I.new_state()
            PX = st.alloc(Obj("inst", cls="dask_gateway_server.proxy.core.Proxy", attrs={"tls_cert": const(crt), "tls_key": const(crt), "prefix": const(prefix), "address": const(":8000")}))
            S = st.alloc(Obj("inst", cls=k.qual, attrs={"proxy": PX}))
            for o in I.run_function(f, [], selfv=S, st=st):
                c.paths += 1
                c.analysed(f)
                want = f"http{'s' if crt else ''}://host:8000{prefix}/api"
                got = o.val.a[0] if o.kind == "ret" and o.val.k == "const" else show(o.val)
                c.require(got == want, "DEFAULT", f.qual, f"the API is taken to be at {got}, it is at {want}", key="api_url")
                c.require(asked and all(a == const(":8000") and r == const(True) for a, r in asked), "DEFAULT", f.qual, "schedulers on other hosts are given an address without a host", key="api_url host")
    prefixes = [({}, "", ""), ({}, "/", ""), ({}, "gw", "/gw"), ({}, "/gw/", "/gw"), ({}, "a/b/", "/a/b")]
    normalised(c, K8S + "controller", "KubeController", "proxy_prefix", prefixes)
    normalised(c, "dask_gateway_server.proxy.core", "Proxy", "prefix", [(a, v, w if v.startswith("/") or not v else (w, "an error")) for a, v, w in prefixes])


def instances(c):
    for cls, mod in (("KubeBackend", "backend"), ("KubeController", "controller")):
        for env, want in (({"DASK_GATEWAY_INSTANCE": "inst"}, "inst"), ({}, "an error"), ({"DASK_GATEWAY_INSTANCE": ""}, "an error")):
            derived(c, K8S + mod, cls, "gateway_instance", [({}, want)], env)
        derived(c, K8S + mod, cls, "label_selector", [({"gateway_instance": x}, f"gateway.dask.org/instance={x}") for x in ("i1", "default.gw")])


def run(c):
    c.rule("DEFAULT", "a setting that is left out has the documented value, derived from the others")
    c.rule("GIVEN", "a setting that is given is used, in its normal form")
    limits(c)
    times(c)
    addresses(c)
    instances(c)
    c.floor("DEFAULT", 20)
    c.assumptions += ["The values listed stand for all."]
