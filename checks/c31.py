"""C31: client, scheduler plugin, server and proxy agree on the wire contract.

Each end is followed with known data; what it sends is given to the end that receives it
(method, path, query, headers and JSON body as sent), and the outcome is compared with
what was asked."""
import ast
import glob
import json

from sa.interp import Interp
from sa.program import Broken
from sa.query import ext_name, subterms
from sa.state import Obj, events
from sa.values import NONE, V, const, enum, show
from .sched import At
from .proxywire import proxy
from .optw import Unknown, get, put
from .wire import PUBLIC, Server, plain, value_deep

MOD = "dask_gateway.client"
ADDRESS = "http://gw:8000"
CLUSTER = dict(name="c9", username="alice", token="tok", options={"a": 1, "b": "x"}, config={"cluster_max_workers": 20}, status="RUNNING", scheduler_address="tls://10.0.0.1:8786", dashboard_address="http://10.0.0.1:8787",
               api_address="http://10.0.0.1:8788", tls_cert=b"crt", tls_key=b"key", start_time=1000000, stop_time=None)
STATUSES = ("PENDING", "RUNNING", "STOPPING", "STOPPED", "FAILED")


class Client:
    """the client; `answer(method, url, headers, body)` -> (status, reply)"""

    def __init__(self, c, answer):
        self.c, self.answer = c, answer
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=lambda f, recv: f.name in ("_config_cluster_options", "pre_request", "post_response"))
        I.run_tasks = True
        st = self.st = I.run_classes(c.prog.modules["dask_gateway.options"])[0]
        st.ghost = {"tasks": {}}
        k = self.k = c.prog.cls(MOD, "Gateway")
        self.G = st.alloc(Obj("inst", cls=k.qual, attrs={"address": const(ADDRESS), "_public_address": const("http://pub"), "proxy_address": const("gateway://gw:8786"), "_session": V("param", "session"), "_request_kwargs": put(st, {}),
                                                         "auth": V("param", "auth"), "asynchronous": const(True), "_asynchronous": const(True), "_loop": V("param", "loop"), "loop": V("param", "loop")}))
        st.facts = st.facts.assume(V("cmp", "is", V("param", "session"), NONE), False)

    def results(self, I, st, name, func, args, kw):
        callee = I.callee
        base = callee.a[0] if callee is not None and callee.k in ("attr", "bm") else None
        if name == "request" and func is None:
            m, u = (list(args) + [None, None])[:2]
            m, u, body = kw.get("method", m), kw.get("url", u), kw.get("json")
            m, u = get(st, m), get(st, u)
            b = None if body is None or body is NONE else plain(value_deep(st, body))
            status, reply = self.answer(m, u, {}, b)
            n = len(st.ghost.get("sent", ()))
            r = V("param", f"reply {n}")
            st.ghost = {**st.ghost, "sent": (*st.ghost.get("sent", ()), (m, u, b, status)), "replies": {**st.ghost.get("replies", {}), r: reply}}
            st.store = {**st.store, (r, "status"): const(status), (r, "ok"): const(status < 400)}
            return r
        if base is not None and base in st.ghost.get("replies", {}):
            if name == "json":
                x = st.ghost["replies"][base]
                return V("never") if x is None else put(st, x)
            if name == "text":
                return const("")
            if name == "raise_for_status":
                return V("never")
        if name == "_config_cluster_options":
            return put(st, {})
        if name == "get" and callee is not None and "config" in show(callee):
            return NONE
        return None

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            return [("aiohttp.ClientResponseError" if ev.get("name") == "raise_for_status" else "json.JSONDecodeError", True)]

    def do(self, name, *args, **kw):
        f = self.k.find_method(name)
        if f is None:
            raise Broken(f"the client has no {name}")
        st = self.st.fork()
        outs = self.I.run_value(V("bound", self.G, f.qual), [put(st, a) for a in args], st, {k: put(st, v) for k, v in kw.items()}, awaited=True)
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return f, outs


def link(c, server, rid, q, what, log, **kw):
    """answers what the client sends with what the server does"""
    def answer(m, u, headers, body):
        if not u.startswith(ADDRESS + "/"):
            c.fail(rid, q, f"{what}: is sent to {u}", key="address")
            return 404, {"error": ""}
        got = server.handle(m, u[len(ADDRESS):], headers, body, **kw)
        if not c.require(got, "SERVED", q, f"{what}: {m} {u} is not served", key="served"):
            return 404, {"error": "no"}
        s = {str((a, b, d)) for a, b, d, r in got}
        if not c.require(len(s) == 1, "SERVED", q, f"{what}: {m} {u} is answered in {len(s)} ways: {sorted(s)[:2]}", key="answer"):
            return 500, {"error": "no"}
        log.extend(got[0][2])
        c.require(not (isinstance(got[0][1], str) and got[0][1].startswith("?")), "SERVED", q, f"{what}: the reply is not known: {got[0][1]}", key="reply")
        return got[0][0], got[0][1]
    return answer


def attrs(o):
    x = o.st.obj(o.val)
    return {k: v for k, v in x.attrs.items()} if x is not None and x.kind == "inst" else {}


def ask(c, server, name, args, kw, what, calls, rid="ASKED", log=None, **world):
    """one client operation over the wire; the backend is asked `calls` and nothing else"""
    log = [] if log is None else log
    cl = Client(c, None)
    f = cl.k.find_method(name)
    cl.answer = link(c, server, rid, f.qual if f else name, what, log, **world)
    f, outs = cl.do(name, *args, **kw)
    if not c.require(len(outs) == 1, rid, f.qual, f"{what}: ends in {len(outs)} ways", key="ways"):
        return None
    seen = [(n, dict(d)) for n, d in log if n != "get_cluster"]
    c.require(seen == calls, rid, f.qual, f"{what}: the backend is asked {seen}, not {calls}", key="asked")
    got = [dict(d).get("cluster_name") for n, d in log if n == "get_cluster"]
    c.require(all(x == '"c9"' for x in got), rid, f.qual, f"{what}: is about the cluster {got}", key="cluster")
    return f, outs[0]



def warned(o):
    return [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") == "warn"]


def failed(o):
    """the name of the exception a path ends with"""
    if o.kind == "ret":
        return None
    x = o.st.obj(o.val)
    n = o.val.a[0] if o.val.k == "exc" else x.cls if x is not None else o.val.a[0].a[0] if o.val.k == "call" else show(o.val)
    return n.rsplit(".", 1)[-1]


def report(c, f, o, d, what, x=None):
    """the report the client makes of a cluster"""
    v = o.val if x is None else x
    a = o.st.obj(v)
    if not c.require(o.kind == "ret" and a is not None and a.kind == "inst", "REPLY", f.qual, f"{what}: ends with {show(v)}", key="report"):
        return
    run = d["status"] == "RUNNING"
    want = {"name": d["name"], "options": d["options"], "scheduler_address": f"gateway://gw:8786/{d['name']}" if run else None, "dashboard_link": f"http://pub/clusters/{d['name']}/status" if run and d["dashboard_address"] else None,
            "tls_cert": "crt" if run else None, "tls_key": "key" if run else None}
    for k, w in want.items():
        try:
            got = get(o.st, a.attrs[k])
        except (KeyError, Unknown):
            got = f"?{show(a.attrs[k]) if k in a.attrs else None}"
        c.require(got == w, "REPLY", f.qual, f"{what}: the client tells that its {k} is {got}, it is {w}", key=k)
    s = a.attrs.get("status")
    c.require(s is not None and s.k == "enum" and s.a[1] == d["status"], "REPLY", f.qual, f"{what}: the client tells that its status is {show(s) if s is not None else None}, it is {d['status']}", key="status")
    for k in ("start_time", "stop_time"):
        t = a.attrs.get(k)
        ms = d[k]
        text = show(t) if t is not None else None
        good = t is NONE if ms is None else text is not None and (f"({ms / 1000})" in text or f"{ms / 1000}" in text)
        c.require(good, "REPLY", f.qual, f"{what}: the client tells that its {k} is {text}, it is {ms} ms", key=k)


def client(c, s):
    me = '"c9"'
    who = '"alice"'
    # reports
    for st in STATUSES:
        d = {**CLUSTER, "status": st, "stop_time": 2000000 if st in ("STOPPED", "FAILED") else None}
        r = ask(c, s, "get_cluster", ["c9"], {}, f"looking up a cluster that is {st}", [], cluster=d)
        if r:
            report(c, *r, d, f"a cluster that is {st}")
    d = {**CLUSTER, "dashboard_address": ""}
    r = ask(c, s, "get_cluster", ["c9"], {}, "looking up a cluster without a dashboard", [], cluster=d)
    if r:
        report(c, *r, d, "a cluster without a dashboard")
    log = []
    if c.prog.cls(MOD, "Gateway").find_method("_wait_for_start") is not None:
        ask(c, s, "_wait_for_start", ["c9"], {}, "waiting for a cluster", [], cluster=CLUSTER, log=log)
        c.require(log and all(dict(d).get("wait") == "true" for n, d in log), "ASKED", MOD + ".Gateway._wait_for_start", f"waiting for a cluster: the backend is asked {log}", key="wait")
    k = c.prog.cls(MOD, "ClusterStatus")
    two = [CLUSTER, {**CLUSTER, "name": "c8", "status": "STOPPED", "stop_time": 3000000}]
    for arg, want in [(None, None)] + [(x, [x]) for x in STATUSES] + [(x.lower(), [x]) for x in STATUSES] + [(list(STATUSES), list(STATUSES)), (["running", "FAILED"], ["RUNNING", "FAILED"])]:
        log = [("list_clusters", {"username": who, "statuses": json.dumps(want)})]
        r = ask(c, s, "list_clusters", [], {"status": arg}, f"listing clusters by {arg}", log, answers=two)
        if r:
            f, o = r
            l = o.st.obj(o.val)
            if c.require(o.kind == "ret" and l is not None and l.kind == "list" and len(l.segs) == 2, "REPLY", f.qual, f"listing clusters by {arg}: two clusters are told as {show(o.val)}", key="list"):
                for seg, d in zip(l.segs, two):
                    report(c, f, o, d, "a listed cluster", seg[1])
    for st in STATUSES:
        v = enum(k.qual, st, k.enum_members()[st])
        ask(c, s, "list_clusters", [], {"status": v}, f"listing clusters that are {st}", [("list_clusters", {"username": who, "statuses": json.dumps([st])})], answers=[])
    # life
    for opts in ({}, {"a": 1, "b": [1, {"c": None}]}):
        r = ask(c, s, "submit", [], opts, f"submitting with {opts}", [("start_cluster", {"user": "<User alice>", "cluster_options": json.dumps(opts)})])
        if r:
            c.require(r[1].kind == "ret" and r[1].val is const("c7"), "REPLY", r[0].qual, f"submitting: the new cluster c7 is told as {show(r[1].val)}", key="name")
    r = ask(c, s, "submit", [], {"a": 1}, "a submission that is refused", [("start_cluster", {"user": "<User alice>", "cluster_options": '{"a": 1}'})], raises="start_cluster")
    if r:
        c.require(failed(r[1]) == "ValueError", "REPLY", r[0].qual, f"a submission that is refused: ends with {show(r[1].val)}", key="refused")
    for d in (CLUSTER, {**CLUSTER, "status": "PENDING"}):
        r = ask(c, s, "stop_cluster", ["c9"], {}, "stopping a cluster", [("stop_cluster", {"cluster_name": me})], cluster=d)
        if r:
            c.require(r[1].kind == "ret", "REPLY", r[0].qual, f"stopping a cluster: ends with {show(r[1].val)}", key="stop")
    for name, args in (("get_cluster", ["c9"]), ("scale_cluster", ["c9", 2]), ("adapt_cluster", ["c9"])):
        r = ask(c, s, name, args, {}, f"{name} of an unknown cluster", [])
        if r:
            c.require(failed(r[1]) == "ValueError", "REPLY", r[0].qual, f"{name} of an unknown cluster: ends with {show(r[1].val)}", key="unknown")
    for name, args in (("get_cluster", ["c9"]), ("scale_cluster", ["c9", 2]), ("adapt_cluster", ["c9"]), ("stop_cluster", ["c9"])):
        r = ask(c, s, name, args, {}, f"{name} of somebody else's cluster", [], cluster={**CLUSTER, "username": "bob"})
        if r:
            c.require(r[1].kind != "ret", "REPLY", r[0].qual, f"{name} of somebody else's cluster: succeeds", key="foreign")
    # workers
    for n in (0, 3, 20, 21):
        m = {"op": "scale", "count": min(n, 20)}
        r = ask(c, s, "scale_cluster", ["c9", n], {}, f"scaling to {n}", [("forward_message_to_scheduler", {"cluster": "<Cluster c9>", "msg": json.dumps(m, sort_keys=True)})], cluster=CLUSTER)
        if r:
            c.require(r[1].kind == "ret" and bool(warned(r[1])) == (n > 20), "REPLY", r[0].qual, f"scaling to {n} with a limit of 20: {'warns' if warned(r[1]) else 'does not warn'}, ends with {show(r[1].val)}", key="warn")
    for lo, hi, on in ((None, None, True), (1, 5, True), (2, None, True), (None, 7, True), (None, None, False), (3, 30, True)):
        kw = {} if (lo, hi, on) == (None, None, True) else {"minimum": lo, "maximum": hi, "active": on}
        for limit in (None, 20):
            m = {"op": "adapt", "minimum": lo, "maximum": hi, "active": on}
            if limit:
                m.update(minimum=lo or 0, maximum=min(hi or limit, limit))
            r = ask(c, s, "adapt_cluster", ["c9"], kw, f"adapting between {lo} and {hi} ({'on' if on else 'off'})", [("forward_message_to_scheduler", {"cluster": "<Cluster c9>", "msg": json.dumps(m, sort_keys=True)})],
                    cluster={**CLUSTER, "config": {"cluster_max_workers": limit}})
            if r:
                c.require(r[1].kind == "ret" and bool(warned(r[1])) == (limit is not None and (hi or 0) > limit), "REPLY", r[0].qual, f"adapting between {lo} and {hi} with a limit of {limit}: {'warns' if warned(r[1]) else 'does not warn'}, ends with {show(r[1].val)}", key="adapt warn")
    for name, args, m in (("scale_cluster", ["c9", 2], {"op": "scale", "count": 2}), ("adapt_cluster", ["c9"], {"op": "adapt", "minimum": 0, "maximum": 20, "active": True})):
        r = ask(c, s, name, args, {}, f"{name} of a cluster that is not running", [("forward_message_to_scheduler", {"cluster": "<Cluster c9>", "msg": json.dumps(m, sort_keys=True)})], cluster=CLUSTER, raises="forward_message_to_scheduler")
        if r:
            c.require(failed(r[1]) == "GatewayClusterError", "REPLY", r[0].qual, f"{name} of a cluster that is not running: ends with {show(r[1].val)}", key="not running")



# -- scheduler plugin <-> gateway ---------------------------------------------------------

PRE = "dask_gateway.scheduler_preload"
API = "http://gw:8000/api"


def calls(o, name, since=()):
    return [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") == name]


def known(st, v):
    try:
        return plain(value_deep(st, v))
    except Unknown as e:
        return f"?{e}"


def outgoing(c, q, what, o):
    """the request an outgoing HTTP call makes: (method, url, headers, body)"""
    reqs = calls(o, "HTTPRequest")
    sent = [e for e in calls(o, "fetch")]
    if not c.require(len(reqs) == 1 and len(sent) == 1 and (reqs[0].get("result") in sent[0].args), "SERVED", q, f"{what}: sends {len(sent)} requests", key="sent"):
        return None
    e = reqs[0]
    from .sched import At
    h = At(e.heap)
    kw = dict(e.get("kwargs") or {})
    kw.update(zip(("url", "method", "headers", "body"), e.args))
    body = kw.get("body")
    b = None
    if body is not None and body is not NONE:
        ok = body.k == "call" and (ext_name(body) or "") == "json.dumps" and body.a[1]
        if not c.require(ok, "SERVED", q, f"{what}: its body {show(body)} is not JSON", key="json"):
            return None
        b = known(h, body.a[1][0])
    return known(h, kw.get("method", const("GET"))), known(h, kw.get("url")), known(h, kw["headers"]) if "headers" in kw else {}, b


def gateway_client(c, I, st):
    k = c.prog.cls(PRE, "GatewayClient")
    outs = I.run_value(V("cls", k.qual), [const("c9"), const("tok"), const(API)], st, {}, awaited=False)
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Broken("the plugin's gateway client cannot be made")
    return k, outs[0].val, outs[0].st


def plugin(c, s):
    from .sched import Plugin
    # the plugin's messages reach the gateway
    I = Interp(c.prog, c.types, results=lambda *a: None)
    k, G, st = gateway_client(c, I, I.new_state())
    p = Plugin(c, "abc")
    stp = p.st
    for a in "ab":
        stp = p.op(stp, "add", a)[0].st
    svc = stp.obj(p.S)
    stp.setobj(p.S, svc.replace(attrs={**svc.attrs, "count": const(3), "_dashboard_address": const("http://10.0.0.1:8787"), "api_address": const("http://10.0.0.1:8788")}))
    stp.store = {**stp.store, (V("param", "scheduler"), "address"): const("tls://10.0.0.1:8786")}
    hb = p.k.find_method("heartbeat")
    message = None
    for o in p.I.run_function(hb, [], selfv=p.S, st=stp.fork()):
        for e in calls(o, "heartbeat"):
            from .sched import At
            message = known(At(e.heap), e.args[0])
    c.analysed(hb)
    if not c.require(isinstance(message, dict), "HEARTBEAT", hb.qual, f"the plugin's heartbeat is {message}", key="message"):
        return
    for name, args, want in (("heartbeat", [put(st, message)], ("on_cluster_heartbeat", {"cluster_name": '"c9"', "msg": json.dumps(message, sort_keys=True)})), ("shutdown", [], ("stop_cluster", {"cluster_name": '"c9"'}))):
        f = k.find_method(name)
        what = f"the plugin's {name}"
        for o in I.run_value(V("bound", G, f.qual), args, st.fork(), {}, awaited=True):
            c.paths += 1
            c.analysed(f)
            r = outgoing(c, f.qual, what, o)
            if r is None:
                continue
            m, u, h, b = r
            if not c.require(isinstance(u, str) and u.startswith("http://gw:8000/") and isinstance(h, dict), "SERVED", f.qual, f"{what}: goes to {u}", key="url"):
                continue
            if b is not None:
                ct = {x.lower(): y for x, y in h.items()}.get("content-type", "")
                c.require(ct.startswith("application/json"), "SERVED", f.qual, f"{what}: its content type is {ct!r}", key="content type")
            got = s.handle(m, u[len("http://gw:8000"):], h, b, cluster=CLUSTER)
            if not c.require(got, "SERVED", f.qual, f"{what}: {m} {u} is not served", key="served"):
                continue
            for status, reply, log, route in got:
                seen = [(n, dict(d)) for n, d in log if n != "get_cluster"]
                c.require(200 <= status < 300 and seen == [want], "ASKED", f.qual, f"{what}: is answered {status} and the backend is asked {seen}", key="asked")
            # with another token it is refused
            for status, reply, log, route in s.handle(m, u[len("http://gw:8000"):], {"Authorization": "token other"}, b, cluster=CLUSTER):
                pass
    receive(c, message)
    commands(c, s)


def receive(c, message):
    """the backends understand the plugin's heartbeat"""
    B = "dask_gateway_server.backends."
    js = c.prog.cls(B + "db_base", "JobStatus")

    def job(n):
        return enum(js.qual, n, js.enum_members()[n])
    k = c.prog.cls(B + "local", "LocalBackend")
    f = k.find_method("on_cluster_heartbeat")
    I = Interp(c.prog, c.types, opaque=lambda g, recv: g.name in ("update_cluster", "update_workers", "create_worker", "put", "get_cluster"), results=lambda I, st, name, func, args, kw: st.ghost["cluster"] if name == "get_cluster" else None)
    st = I.new_state()
    cfg = put(st, {})
    ws = {}
    for a in "wa", "wb":
        ws[a] = st.alloc(Obj("inst", cls=B + "db_base.Worker", attrs={"name": const(a), "status": job("SUBMITTED"), "target": job("RUNNING"), "close_expected": const(False)}))
    cl = st.alloc(Obj("inst", cls=B + "db_base.Cluster", attrs={"name": const("c9"), "status": job("SUBMITTED"), "target": job("RUNNING"), "config": cfg, "count": const(2), "workers": put(st, ws)}))
    st.ghost = {"cluster": cl}
    S = st.alloc(Obj("inst", cls=k.qual, attrs={"db": V("param", "db"), "log": V("param", "log"), "queue": V("param", "queue")}))
    I.term_types[V("param", "db")] = B + "db_base.DataManager"
    outs = I.run_function(f, [const("c9"), put(st, message)], selfv=S, st=st)
    c.analysed(f, *I.inlined)
    for o in outs:
        c.paths += 1
        if not c.require(o.kind == "ret", "HEARTBEAT", f.qual, f"the plugin's heartbeat fails with {show(o.val)}", key="fails"):
            continue
        up = {}
        for e in calls(o, "update_cluster"):
            up.update({x: known_at(e, y) for x, y in (e.get("kwargs") or {}).items()})
        for x in ("scheduler_address", "dashboard_address", "api_address", "count"):
            c.require(up.get(x) == message.get(x) and x in message, "HEARTBEAT", f.qual, f"of the plugin's heartbeat the {x} is taken to be {up.get(x)}, it is {message.get(x)}", key=x)
    k = c.prog.cls(B + "kubernetes.backend", "KubeBackend")
    f = k.find_method("on_cluster_heartbeat")
    I = Interp(c.prog, c.types)
    st = I.new_state()
    cl = st.alloc(Obj("inst", cls="dask_gateway_server.models.Cluster", attrs={"name": const("ns.c9"), "config": put(st, {})}))
    S = st.alloc(Obj("inst", cls=k.qual, attrs={"clusters": put(st, {"ns.c9": cl}), "log": V("param", "log"), "custom_client": V("param", "client"), "crd_version": const("v1")}))
    n = 0
    for o in I.run_function(f, [const("ns.c9"), put(st, message)], selfv=S, st=st):
        c.paths += 1
        if o.kind == "ret":
            for e in calls(o, "patch_namespaced_custom_object"):
                n += 1
                b = known_at(e, e.args[-1] if e.args else (e.get("kwargs") or {}).get("body"))
                c.require(any(isinstance(x, dict) and x.get("path") == "/spec/replicas" and x.get("value") == message.get("count") for x in b) if isinstance(b, list) else False, "HEARTBEAT", f.qual, f"of the plugin's heartbeat {b} is taken, its count is {message.get('count')}", key="replicas")
    c.analysed(f, *I.inlined)
    c.require(n, "HEARTBEAT", f.qual, "the plugin's heartbeat does not reach the cluster's object", key="kube")


def known_at(e, v):
    from .sched import At
    return known(At(e.heap), v)


def commands(c, s):
    """the gateway's messages reach the plugin"""
    B = "dask_gateway_server.backends.base"
    k = c.prog.cls(B, "Backend")
    f = k.find_method("forward_message_to_scheduler")
    for msg in ({"op": "scale", "count": 4}, {"op": "adapt", "minimum": 1, "maximum": 5, "active": True}, {"op": "adapt", "minimum": None, "maximum": None, "active": False}):
        I = Interp(c.prog, c.types)
        st = I.new_state()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={"session": V("param", "session"), "log": V("param", "log"), "scheduler_api_retries": const(2)}))
        cl = s.cluster(st, CLUSTER)
        outs = [o for o in I.run_function(f, [cl, put(st, msg)], selfv=S, st=st) if o.kind == "ret"]
        c.analysed(f, *I.inlined)
        for o in outs[:1]:
            e = (calls(o, "post") + calls(o, "request"))[0] if calls(o, "post") + calls(o, "request") else None
            if not c.require(e is not None, "SERVED", f.qual, "a message to the scheduler is not sent", key="post"):
                continue
            kw = {x: known_at(e, y) for x, y in (e.get("kwargs") or {}).items()}
            u = known_at(e, e.args[-1]) if e.args else kw.get("url")
            c.require(isinstance(u, str) and u.startswith(CLUSTER["api_address"] + "/"), "SERVED", f.qual, f"a message to the scheduler is sent to {u}", key="comm url")
            handle_comm(c, u[len(CLUSTER["api_address"]):] if isinstance(u, str) else "", kw.get("headers") or {}, kw.get("json"), msg)


def handle_comm(c, path, headers, body, msg):
    from .sched import Plugin
    p = Plugin(c, "")
    apps = [e for e in events(p.st.trace) if e.kind == "call" and e.get("name") == "Application"]
    if not c.require(len(apps) == 1, "SERVED", p.k.qual, "the plugin serves no application", key="application"):
        return
    e = apps[0]
    from .sched import At
    h = At(e.heap)
    table = e.args[0] if e.args else (e.get("kwargs") or {}).get("handlers")
    o = h.obj(table)
    rows = [x[1] for x in o.segs] if o is not None and o.kind == "list" else list(table.a) if table is not None and table.k == "tuple" else []
    cls = next((r.a[1] for r in rows if r.k == "tuple" and r.a[0] is const(path)), None)
    if not c.require(cls is not None and cls.k == "cls", "SERVED", p.k.qual, f"the plugin does not serve {path}", key="comm path"):
        return
    settings = {x: y for x, y in (e.get("kwargs") or {}).items() if x != "handlers"}
    hk = c.prog.classes[cls.a[0]]
    I = Interp(c.prog, c.types, results=lambda I, st, name, func, args, kw: put(st, body) if name == "loads" else None, opaque=lambda g, recv: g.cls is not None and g.cls.name == "GatewaySchedulerService")
    st = p.st.fork()
    R = V("param", "plugin request")
    hs = {"Content-Type": "application/json", "content-type": "application/json"}
    for x, y in headers.items():
        hs[x.title()] = hs[x.lower()] = y
    st.store = {**st.store, (R, "headers"): put(st, hs), (R, "body"): const("...")}
    d = put(st, {})
    tok = settings.get("auth_token")
    st.setobj(d, st.obj(d).replace(layers=tuple(("kv", const(x), y) for x, y in settings.items() if x != "auth_token") + ((("kv", const("auth_token"), const("tok")),) if tok is not None else ())))
    H = st.alloc(Obj("inst", cls=hk.qual, attrs={"request": R, "settings": d}))
    prep, user, post = hk.find_method("prepare"), hk.find_method("get_current_user"), hk.find_method("post")
    if not c.require(post is not None, "SERVED", hk.qual, f"the plugin does not serve POST {path}", key="comm method"):
        return
    for o in (I.run_function(prep, [], selfv=H, st=st) if prep is not None else []):
        st = o.st
    for o in (I.run_function(user, [], selfv=H, st=st.fork()) if user is not None else []):
        c.require(o.kind == "ret" and o.val is not NONE, "SERVED", user.qual, f"the gateway's message {msg} is not authenticated", key="comm token")
    # the decorator @authenticated is the framework's
    g = c.prog.funcs[post.qual]
    n = 0
    for o in I.run_function(g, [], selfv=H, st=st.fork()):
        c.paths += 1
        got = [(e.get("name"), {**dict(zip([a.arg for a in p.k.find_method(e.get("name")).node.args.args[1:]], [known_at(e, x) for x in e.args])), **{x: known_at(e, y) for x, y in (e.get("kwargs") or {}).items()}}) for e in events(o.st.trace) if e.kind == "call" and e.get("name") in ("scale", "adapt")]
        want = (msg["op"], {x: y for x, y in msg.items() if x != "op"})
        got = [(a, {**({"minimum": None, "maximum": None, "active": True} if a == "adapt" else {}), **b}) for a, b in got]
        n += 1
        c.require(o.kind == "ret" and got == [want], "ASKED", post.qual, f"the gateway's message {msg}: the scheduler does {got}", key="comm")
    c.require(n, "ASKED", post.qual, f"the gateway's message {msg} is not handled", key="handled")
    c.analysed(post, *I.inlined)



# -- environment, flags and the job launcher ----------------------------------------------

def environ(c):
    """what a backend puts into the environment is what the plugin reads"""
    from .c48 import BASE, VARIANTS, World
    f = c.prog.cls(PRE, "GatewayClient").module
    f = next(g for g in c.prog.funcs.values() if g.module.name == PRE and g.cls is None and g.name == "make_gateway_client")
    for name in ("Local", "PBS", "Slurm", "Yarn"):
        from .c48 import CONF
        w = World(c, name, {**BASE, **CONF[name][0], **VARIANTS[0]})
        for kind in ("scheduler", "worker"):
            g = w.k.find_method(f"get_{kind}_env")
            for o in w.I.run_function(g, [w.cluster], selfv=w.S, st=w.st.fork()):
                env = known(o.st, o.val)
                if c.require(o.kind == "ret" and isinstance(env, dict), "ENV", g.qual, f"the {name} {kind}'s environment is {env}", key="env"):
                    read_env(c, f, env, f"the {name} {kind}", {"cluster_name": "c1", "token": "tok", "api_url": "http://api/api"}, {})
    # Kubernetes: the token is in a file of the mounted secret
    from .pods import Pods
    p = Pods(c)
    k = p.k
    sec = k.find_method("make_secret")
    data = None
    for o in p.I.run_function(sec, [const("c1")], selfv=p.S, st=p.st.fork()):
        d = o.st.obj(o.val)
        x = next((l[2] for l in d.layers if l[0] == "kv" and l[1] is const("data")), None) if d is not None else None
        data = {l[1].a[0] for l in o.st.obj(x).layers if l[1].k == "const"} if x is not None and o.st.obj(x) is not None else None
    if not c.require(data, "ENV", sec.qual, "the secret of a cluster has no data", key="secret"):
        return
    for worker in (False, True):
        for st, pod in p.pod(worker):
            x = pod["spec"]["containers"][0]
            env = {e["name"]: e.get("value") for e in x["env"]}
            mounts = {m["name"]: m["mountPath"].rstrip("/") for m in x.get("volumeMounts", [])}
            files = {}
            for v in pod["spec"].get("volumes", []):
                if "secret" in v and v["name"] in mounts:
                    files.update({f"{mounts[v['name']]}/{n}": n for n in data})
            what = "the Kubernetes " + ("worker" if worker else "scheduler")
            read_env(c, f, env, what, {"cluster_name": "ns.c1", "api_url": env.get("DASK_GATEWAY_API_URL"), "token": "secret token"}, files)
            for n, v in env.items():
                if isinstance(v, str) and any(v.startswith(m + "/") for m in mounts.values()):
                    c.require(v in files, "ENV", k.qual, f"{what}: {n} names the file {v}, which its secret does not hold: {sorted(data)}", key="file")


def read_env(c, f, env, what, want, files):
    def results(I, st, name, func, args, kw):
        if name == "open" and func is None:
            p = get(st, args[0])
            if not c.require(p in files, "ENV", f.qual, f"{what}: reads the file {p}, which is not there: {sorted(files)}", key="reads"):
                return V("never")
            r = V("param", f"file {files[p]}")
            return r
        if name == "read" and I.callee is not None and I.callee.k in ("attr", "bm"):
            return const("secret token")
        return None
    I = Interp(c.prog, c.types, results=results, raises=lambda I, st, ev: [("OSError", True)] if ev.get("result") is V("never") else None)
    I.environ = env
    st = I.new_state()
    n = 0
    for o in I.run_function(f, [], st=st):
        c.paths += 1
        n += 1
        if not c.require(o.kind == "ret", "ENV", f.qual, f"{what}: its plugin ends with {show(o.val)} on its environment", key="fails"):
            continue
        a = o.st.obj(o.val)
        for x, y in want.items():
            v = a.attrs.get(x) if a is not None and a.kind == "inst" else None
            c.require(v is const(y), "ENV", f.qual, f"{what}: its plugin takes its {x} to be {show(v) if v is not None else None}, it is {y}", key=x)
    c.analysed(f, *I.inlined)
    c.require(n, "ENV", f.qual, f"{what}: its plugin never reads its environment", key="reads env")


def options_of(tree, fn=None):
    """the option names of the click commands in a module (of one function)"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and (ast.unparse(n.func).endswith("click.option") or ast.unparse(n.func) == "option"):
            for a in n.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    out |= {x for x in a.value.split("/") if x.startswith("-")}
    return out


def flags(c):
    """the options schedulers are started with are defined"""
    m = c.prog.modules[PRE]
    f = next((g for g in c.prog.funcs.values() if g.module.name == PRE and g.cls is None and g.name == "dask_setup"), None)
    if not c.require(f is not None, "FLAGS", PRE, "the plugin has no dask_setup", key="setup"):
        return
    mine = options_of(m.tree)
    names = [a.arg for a in f.node.args.args[1:]]
    c.require(sorted(x.lstrip("-").replace("-", "_") for x in mine) == sorted(names), "FLAGS", f.qual, f"dask_setup takes {names}, its options are {sorted(mine)}", key="params")
    c.analysed(f)
    theirs = {}
    for kind in ("scheduler", "worker"):
        for d in glob.glob(f"/opt/venv/lib/python3*/site-packages/distributed/cli/dask_{kind}.py"):
            theirs[kind] = options_of(ast.parse(open(d).read()))
    from .c48 import BASE, CONF, VARIANTS, World
    got = []
    for name in ("Local", "PBS", "Slurm", "Yarn"):
        w = World(c, name, {**BASE, **CONF[name][0], **VARIANTS[0]})
        for kind, args in (("scheduler", [w.cluster]), ("worker", [w.cluster, const("w1")])):
            g = w.k.find_method(f"get_{kind}_command")
            for o in w.I.run_function(g, args, selfv=w.S, st=w.st.fork()):
                got.append((g.qual, name, kind, known(o.st, o.val)))
            c.analysed(g)
    from .pods import Pods
    p = Pods(c)
    for worker in (False, True):
        for st, pod in p.pod(worker):
            x = pod["spec"]["containers"][0]
            got.append((p.k.qual, "Kubernetes", "worker" if worker else "scheduler", (x.get("command") or []) + (x.get("args") or [])))
    for q, name, kind, argv in got:
        if not c.require(isinstance(argv, list), "FLAGS", q, f"the {name} {kind}'s command is {argv}", key="argv"):
            continue
        for a in argv:
            if isinstance(a, str) and a.startswith("--"):
                a = a.partition("=")[0]
                if a.startswith("--dg-"):
                    c.require(kind == "scheduler" and a in mine, "FLAGS", q, f"the {name} {kind} is started with {a}, the plugin's options are {sorted(mine)}", key=a)
                elif kind in theirs:
                    c.require(a in theirs[kind], "FLAGS", q, f"the {name} {kind} is started with {a}, which Dask's {kind} does not know", key=a)
        if kind == "scheduler":
            at = argv.index("--preload") + 1 if "--preload" in argv else 0
            c.require(at and argv[at] in c.prog.modules and argv[at] == PRE, "FLAGS", q, f"the {name} scheduler preloads {argv[at] if at else None}", key="preload")


def launcher(c):
    """what the job queue backends ask of the launcher is what it does, and its answer is understood"""
    L = "dask_gateway_server.backends.jobqueue.launcher"
    k = c.prog.cls("dask_gateway_server.backends.jobqueue.base", "JobQueueBackend")
    f = k.find_method("do_as_user")
    main = next(g for g in c.prog.funcs.values() if g.module.name == L and g.cls is None and g.name == "main")
    start = {"cmd": ["qsub", "x"], "env": {"A": "1"}, "stdin": "script", "staging_dir": "/home/alice/c1", "files": {"dask.crt": "crt", "dask.pem": "key"}}
    cases = [("start", start, None), ("start", {"cmd": ["qsub", "x"], "env": {"A": "1"}, "stdin": None, "staging_dir": None, "files": None}, None), ("stop", {"cmd": ["qdel", "7"], "env": {}, "staging_dir": "/home/alice/c1"}, None),
             ("stop", {"cmd": ["qdel", "7"], "env": {}, "staging_dir": None}, None), ("start", start, "makedirs"), ("stop", {"cmd": ["qdel", "7"], "env": {}, "staging_dir": "/home/alice/c1"}, "rmtree")]
    for action, req, fails in cases:
        what = f"{action} with {'a' if req['staging_dir'] else 'no'} staging directory" + (f" when {fails} fails" if fails else "")
        sent = []

        def there(I, st, name, func, args, kw):
            """the launcher"""
            if name in ("load", "loads"):
                return put(st, sent[0])
            if name in ("Popen", "run") and func is None:
                p = V("param", "proc")
                st.store = {**st.store, (p, "returncode"): const(3), (p, "stdout"): const(b"out"), (p, "stderr"): const(b"err")}
                return p
            if name == "communicate":
                return V("tuple", const(b"out"), const(b"err"))
            if name in ("wait", "poll") and func is None:
                return const(3)
            if name == "exists":
                return const(True)
            if name == fails:
                return V("never")
            return None

        def here(I, st, name, func, args, kw):
            """the gateway"""
            if name == "create_subprocess_exec":
                p = V("param", "proc")
                st.store = {**st.store, (p, "returncode"): const(0)}
                return p
            if name == "communicate":
                x = args[0] if args else kw.get("input")
                js = [t for t in subterms(x) if t.k == "call" and ext_name(t) == "json.dumps"]
                if not js:
                    raise Broken("what the launcher is sent is not known")
                sent[:] = [plain(value_deep(st, js[0].a[1][0]))]
                return V("tuple", const(b"..."), const(b""))
            if name == "loads":
                J = Interp(c.prog, c.types, results=there, raises=lambda I, st, ev: [("OSError", True)] if ev.get("result") is V("never") else None)
                outs = J.run_function(main, [], st=J.new_state())
                c.analysed(main, *J.inlined)
                c.paths += len(outs)
                if not c.require(len(outs) == 1 and outs[0].kind == "ret", "LAUNCHER", main.qual, f"{what}: the launcher ends with {[show(o.val) for o in outs]}", key="launcher"):
                    return V("never")
                o = outs[0]
                ran = [e for e in calls(o, "Popen") + calls(o, "run") if e.a.get("func") is None]
                if fails != "makedirs":
                    e = ran[0] if len(ran) == 1 else None
                    if c.require(e is not None, "LAUNCHER", main.qual, f"{what}: {len(ran)} commands run", key="ran"):
                        fed = [z.args[0] if z.args and z.name != "run" else (z.get("kwargs") or {}).get("input") for z in calls(o, "communicate") + [z for z in ran if z.name == "run"]]
                        kw = e.get("kwargs") or {}
                        text = [z.a[0].decode() if z.k == "const" and isinstance(z.a[0], bytes) else known_at(e, z) for z in fed if z is not None and z is not e.args[0]]
                        got = {"cmd": known_at(e, e.args[0] if e.args else kw["args"]), "env": known_at(e, kw.get("env", NONE)), "stdin": text[0] if text else None}
                        want = {"cmd": req["cmd"], "env": req["env"], "stdin": req.get("stdin")}
                        c.require(got == want, "LAUNCHER", main.qual, f"{what}: {got} runs, asked for is {want}", key="command")
                made = calls(o, "makedirs")
                c.require(bool(made) == bool(action == "start" and req["staging_dir"]) and all(known_at(e, e.args[0]) == req["staging_dir"] for e in made), "LAUNCHER", main.qual, f"{what}: makes {len(made)} directories", key="staging")
                gone = calls(o, "rmtree")
                c.require(bool(gone) == bool(action == "stop" and req["staging_dir"]) and all(known_at(e, e.args[0]) == req["staging_dir"] for e in gone), "LAUNCHER", main.qual, f"{what}: removes {len(gone)} directories", key="removed")
                said = [(e, e.args[0]) for e in calls(o, "dump")]
                for e in calls(o, "write") + calls(o, "print"):
                    js = [t for t in subterms(e.args[0]) if t.k == "call" and ext_name(t) == "json.dumps"]
                    said += [(e, js[0].a[1][0])] if js else []
                if not c.require(len(said) == 1, "LAUNCHER", main.qual, f"{what}: answers {len(said)} times", key="answers"):
                    return V("never")
                try:
                    d = value_loose(At(said[0][0].heap), said[0][1])
                except Unknown as x:
                    c.fail("LAUNCHER", main.qual, f"{what}: its answer is not known: {x}", key="answer")
                    return V("never")
                return put(st, d)
            return None
        I = Interp(c.prog, c.types, results=here, raises=lambda I, st, ev: [("Exception", True)] if ev.get("result") is V("never") else None)
        st = I.new_state()
        S = st.alloc(Obj("inst", cls=k.qual, attrs={"dask_gateway_jobqueue_launcher": const("launcher")}))
        outs = I.run_function(f, [const("alice"), const(action)], selfv=S, kwargs={x: put(st, y) for x, y in req.items()}, st=st)
        c.analysed(f, *I.inlined)
        for o in outs:
            c.paths += 1
            if fails:
                c.require(o.kind != "ret", "LAUNCHER", f.qual, f"{what}: the failure is taken for {show(o.val)}", key="failure")
                c.require(not (o.kind != "ret" and o.val.k == "exc" and o.val.a[0].rsplit(".", 1)[-1] in ("KeyError", "TypeError")), "LAUNCHER", f.qual, f"{what}: the answer is not understood", key="understood")
            else:
                got = known(o.st, o.val) if o.kind == "ret" else show(o.val)
                c.require(got == [3, "out", "err"], "LAUNCHER", f.qual, f"{what}: the answer is taken for {got}", key="answer")
        c.require(outs, "LAUNCHER", f.qual, f"{what}: no path", key="paths")


def value_loose(st, v):
    """known fields, with unknown texts as such"""
    o = st.obj(v)
    if o is not None and o.kind == "dict":
        out = {}
        for l in o.layers:
            if l[0] == "kv":
                try:
                    out[get(st, l[1])] = value_deep(st, l[2])
                except Unknown:
                    out[get(st, l[1])] = "?"
            elif l[0] == "src":
                out.update(value_loose(st, l[1]))
            else:
                raise Unknown(str(l))
        return out
    return value_deep(st, v)


def described(c, s):
    """the options the server describes are the options the client offers; versions are told"""
    from .optw import make
    P = "dask_gateway_server.options"

    def spec(st):
        I = Interp(c.prog, c.types)
        fields = []
        for cls, args, kw in (("Integer", ["a"], {"default": 2, "min": 1, "max": 8, "label": "A"}), ("Float", ["b"], {"default": 1.5, "target": "bb"}), ("String", ["c"], {"default": "x"}), ("Bool", ["d"], {"default": True}), ("Select", ["e"], {"options": ["u", "v"], "default": "v"}), ("Mapping", ["f"], {"default": {"k": "v"}})):
            got, bad = make(I, st, c.prog.cls(P, cls).qual, args, kw)
            if len(got) != 1 or bad:
                raise Broken(f"an option {cls} cannot be made")
            st2, v = got[0]
            st.heap, st.store, st.facts = st2.heap, st2.store, st2.facts
            fields.append(v)
        outs = I.run_value(V("cls", c.prog.cls(P, "Options").qual), fields, st, {}, awaited=False)
        st.heap, st.store, st.facts = outs[0].st.heap, outs[0].st.store, outs[0].st.facts
        return outs[0].val
    r = ask(c, s, "cluster_options", [], {}, "asking for the options", [], answers=spec)
    if not r:
        return
    f, o = r
    a = o.st.obj(o.val)
    if not c.require(o.kind == "ret" and a is not None and a.kind == "inst", "REPLY", f.qual, f"asking for the options: ends with {show(o.val)}", key="options"):
        return
    fs = a.attrs.get("_fields")
    d = o.st.obj(fs) if fs is not None else None
    got = {}
    for l in (d.layers if d is not None and d.kind == "dict" else ()):
        x = o.st.obj(l[2])
        got[get(o.st, l[1])] = known(o.st, x.attrs["value"]) if x is not None and "value" in x.attrs else "?"
    want = {"a": 2, "b": 1.5, "c": "x", "d": True, "e": "v", "f": {"k": "v"}}
    c.require(got == want, "REPLY", f.qual, f"asking for the options: the client offers {got}, the server describes {want}", key="options value")


def run(c):
    c.rule("SERVED", "every request is served by the end that receives it")
    c.rule("ASKED", "what the backend is asked is what the client was asked")
    c.rule("REPLY", "the client tells what the server said")
    server = Server(c)
    c.rule("HEARTBEAT", "the backends take from the plugin's heartbeat what it tells")
    client(c, server)
    plugin(c, server)
    c.rule("ENV", "what a backend puts into a process's environment is what the process reads")
    c.rule("FLAGS", "the options a process is started with are defined")
    c.rule("LAUNCHER", "what the job queue backends ask of the launcher is what it does, and its answer is understood")
    described(c, server)
    environ(c)
    flags(c)
    launcher(c)
    proxy(c)
    for r, n in (("SERVED", 60), ("ASKED", 60), ("REPLY", 150), ("HEARTBEAT", 5), ("ENV", 40), ("FLAGS", 40), ("LAUNCHER", 20), ("PROXY", 800)):
        c.floor(r, n)
