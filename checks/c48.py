"""C48: schedulers and workers run as their cluster is configured.

Every backend's start of a scheduler and of a worker is followed with a known cluster,
up to the process, job, application, pod or object it makes, and that is compared with
the cluster's configuration."""
import math
import os
import re

from sa.interp import Interp
from sa.program import Broken
from sa.query import where
from sa.state import Obj, events
from sa.values import NONE, V, const, is_const, show
from .optw import Unknown, get, put
from .pods import Pods

B = "dask_gateway_server.backends."
BASE = dict(environment={"MY": "var", "EMPTY": "", "DASK_GATEWAY_CLUSTER_NAME": "spoofed", "DASK_GATEWAY_API_TOKEN": "spoofed"}, adaptive_period=2.5, idle_timeout=70.0, cluster_max_memory=None, cluster_max_cores=None, cluster_max_workers=None,
            worker_memory=3 * 2**30 + 1, worker_cores=5, worker_threads=7, scheduler_memory=2**20 * 700, scheduler_cores=3)
VARIANTS = ({"worker_cmd": ["my-worker"], "scheduler_cmd": ["my-scheduler"]},
            {"worker_cmd": ["conda", "run", "w"], "scheduler_cmd": ["conda", "run", "s"], "worker_memory": 2**30, "scheduler_memory": 2**40 + 5, "worker_threads": 1, "worker_cores": 2, "scheduler_cores": 1, "idle_timeout": 0.0, "adaptive_period": 30.0, "environment": {}})
JOB = dict(worker_setup="source w.sh", scheduler_setup="source s.sh", staging_directory="/home/{username}/.dask")
CONF = {
    "PBS": [{**JOB, "queue": "q1", "account": "a1", "project": "p1", "use_stagein": s, "worker_resource_list": "select=1:ncpus={cores}:mem={memory}", "scheduler_resource_list": "select=1:ncpus={cores}:mem={memory}:sched"} for s in (True, False)] + [{**JOB, "queue": "", "account": "", "project": "", "use_stagein": True, "worker_resource_list": "select=1:ncpus={cores}:mem={memory}", "scheduler_resource_list": "select=1:ncpus={cores}:mem={memory}"}],
    "Slurm": [{**JOB, "partition": "q1", "account": "a1", "qos": "p1"}, {**JOB, "partition": "", "account": "", "qos": ""}],
    "Yarn": [{"worker_setup": "source w.sh", "scheduler_setup": "source s.sh", "queue": "q1", "localize_files": {"x.txt": "/tmp/x.txt"}}],
    "Local": [{}],
    "InProcess": [{}],
}
CLASSES = {"PBS": ("jobqueue.pbs", "PBSBackend", "PBSClusterConfig"), "Slurm": ("jobqueue.slurm", "SlurmBackend", "SlurmClusterConfig"), "Yarn": ("yarn", "YarnBackend", "YarnClusterConfig"),
           "Local": ("local", "LocalBackend", None), "InProcess": ("inprocess", "InProcessBackend", None)}
ADDRESS = "tls://10.0.0.1:8786"


class World:
    def __init__(self, c, name, conf):
        self.c, self.name, self.conf = c, name, conf
        mod, cls, cfg = CLASSES[name]
        self.k = c.prog.cls(B + mod, cls)
        ck = c.prog.cls(B + mod, cfg) if cfg else c.prog.cls(B + "base", "ClusterConfig")
        I = self.I = Interp(c.prog, c.types, results=self.results, opaque=self.opaque)
        I.recursion = 4
        st = self.st = I.new_state()
        self.cfg = st.alloc(Obj("inst", cls=ck.qual, attrs={k: put(st, v) for k, v in conf.items()}))
        self.cluster = st.alloc(Obj("inst", cls=B + "db_base.Cluster", attrs={
            "name": const("c1"), "username": const("alice"), "token": const("tok"), "tls_cert": const(b"crt"), "tls_key": const(b"key"), "config": self.cfg,
            "state": put(st, {"workdir": "/wd", "app_id": "app1"}), "scheduler_address": const(ADDRESS)}))
        self.worker = st.alloc(Obj("inst", cls=B + "db_base.Worker", attrs={"name": const("w1"), "cluster": self.cluster, "state": put(st, {})}))
        self.S = st.alloc(Obj("inst", cls=self.k.qual, attrs={
            "api_url": const("http://api/api"), "cluster_heartbeat_period": const(17), "gateway_hostname": const("gwhost"), "submit_command": const("submit"),
            "inherited_environment": put(st, []), "schedulers": put(st, {}), "workers": put(st, {}), "skein_client": V("param", "skein"), "clusters_directory": const("/c")}))

    def opaque(self, f, recv):
        return f.name in ("do_as_user", "setup_working_directory", "make_preexec_fn", "get_security", "get_gateway_client", "_get_security", "_get_app_client", "async_apply", "parse_job_id", "set_file_permissions")

    def results(self, I, st, name, func, args, kw):
        if name == "do_as_user":
            return V("tuple", const(0), const("job1"), const(""))
        if name == "setup_working_directory":
            return const("/wd")
        if name in ("ceil", "floor") and len(args) == 1 and known_const(args[0]) is not None:
            return const(getattr(math, name)(args[0].a[0]))
        if name == "join" and len(args) > 1 and all(known_const(a) is not None for a in args) and (func is None or "path" in show(func)):
            return const(os.path.join(*(a.a[0] for a in args)))
        if name == "parse_job_id":
            return const("job1")
        if name == "getpwnam":
            p = V("param", "pwnam")
            st.store = {**st.store, (p, "pw_dir"): const("/home/alice")}
            return p
        return None

    def start(self, kind):
        """[(path)] of the start of a scheduler or a worker"""
        f = self.k.find_method("do_start_cluster" if kind == "scheduler" else "do_start_worker")
        if f is None:
            raise Broken(f"{self.k.qual} starts no {kind}")
        outs = self.I.run_function(f, [self.cluster if kind == "scheduler" else self.worker], selfv=self.S, st=self.st.fork())
        self.c.paths += len(outs)
        self.c.analysed(f, *self.I.inlined)
        return f, outs


def calls(o, name):
    return [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") == name]


def known(st, v):
    """a Python value as far as it is known"""
    if v is None:
        return None
    if is_const(v) and v.k == "const":
        return v.a[0]
    o = st.obj(v)
    if o is not None and o.kind == "dict":
        d = {}
        for l in o.layers:
            if l[0] == "kv":
                d[known(st, l[1])] = known(st, l[2])
            elif l[0] == "src":
                x = known(st, l[1])
                d.update(x if isinstance(x, dict) else {"?": x})
            elif l[0] == "del":
                d.pop(known(st, l[1]), None)
            else:
                d["?"] = l
        return d
    if o is not None and o.kind == "list":
        return [known(st, s[1]) if s[0] == "one" else s for s in o.segs]
    if v.k == "str":
        return "".join(p.a[0] if p.k == "const" else "{" + show(p) + "}" for p in v.a)
    return v


class Heap:
    """the state at an event"""

    def __init__(self, e):
        self.heap = e.heap

    def obj(self, v):
        return self.heap.get(v.a[0]) if v.k == "ref" else None


def words(script):
    return script.split(" ")


def opts(argv, flag):
    return [argv[i + 1] for i, a in enumerate(argv[:-1]) if a == flag] + [a.partition("=")[2] for a in argv if isinstance(a, str) and a.startswith(flag + "=")]


def command(c, q, what, argv, kind, conf, limit, api=True, name="w1", address=ADDRESS, heartbeat=17, threads=None):
    """the command line is the configured command with the configured settings"""
    if not c.require(isinstance(argv, list) and all(isinstance(x, str) for x in argv), "COMMAND", q, f"{what}: its command is {argv}", key="known"):
        return
    cmd = conf[f"{kind}_cmd"]
    c.require(argv[:len(cmd)] == cmd, "COMMAND", q, f"{what}: runs {argv[:3]}, not {cmd}", key="cmd")
    rest = argv[len(cmd):]

    def one(flag, want, rid="COMMAND"):
        got = opts(rest, flag)
        ok = got[-1:] == [want] if isinstance(want, str) else bool(got) and number(got[-1]) == want
        c.require(ok and len(set(got)) == 1, rid, q, f"{what}: {flag} is {got}, not {want}", key=flag)
    if kind == "scheduler":
        one("--dg-idle-timeout", float(conf["idle_timeout"]), "SETTINGS")
        one("--dg-adaptive-period", float(conf["adaptive_period"]), "SETTINGS")
        one("--dg-heartbeat-period", float(heartbeat), "SETTINGS")
        one("--preload", "dask_gateway.scheduler_preload")
        one("--protocol", "tls")
    else:
        c.require(rest[:1] == [address], "COMMAND", q, f"{what}: connects to {rest[:1]}, not {address}", key="address")
        one("--name", name)
        one("--nthreads", threads if threads is not None else float(conf["worker_threads"]), "SETTINGS")
        one("--memory-limit", limit if isinstance(limit, str) else float(limit), "SETTINGS")


def known_const(v):
    return v.a[0] if v.k == "const" else None


def number(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return x


def environment(c, q, what, env, conf, full="c1", token="tok"):
    if not c.require(isinstance(env, dict), "ENV", q, f"{what}: its environment is {env}", key="known"):
        return
    want = {**conf["environment"], "DASK_GATEWAY_API_URL": "http://api/api", "DASK_GATEWAY_CLUSTER_NAME": full, "DASK_GATEWAY_API_TOKEN": token}
    for k, v in want.items():
        c.require(env.get(k) == v, "ENV", q, f"{what}: {k} is {env.get(k)}, not {v}", key=k if k.startswith("DASK") else "configured")


def granted(c, q, what, text, unit, want):
    """a quantity of memory as the resource manager reads it: at least what is configured, by less than one of the unit it is told in"""
    m = re.fullmatch(r"(\d+)\s*([kKmMgG]?)i?[bB]?", text or "")
    n = int(m.group(1)) * 1024 ** " kmg".index(m.group(2).lower() or " ") if m else None
    unit = max(unit, 1024 ** " kmg".index(m.group(2).lower() or " ")) if m else 1
    c.require(n is not None and want <= n < want + unit, "RESOURCES", q, f"{what}: is granted {text} of memory, configured are {want} bytes", key="memory")


def local(c, conf, kind):
    w = World(c, "Local", conf)
    f, outs = w.start(kind)
    n = 0
    for o in outs:
        for e in calls(o, "create_subprocess_exec"):
            n += 1
            what = f"the local backend's {kind}"
            argv = [x for a in e.args for x in (known(Heap(e), a.a[0]) if a.k == "star" else [known(Heap(e), a)])]
            command(c, where(e), what, argv, kind, conf, conf["worker_memory"])
            env = known(Heap(e), (e.get("kwargs") or {}).get("env"))
            environment(c, where(e), what, env, conf)
            T = "DASK_DISTRIBUTED__COMM__TLS__"
            got = [env.get(T + k) for k in ("CA_FILE", f"{kind.upper()}__CERT", f"{kind.upper()}__KEY")] if isinstance(env, dict) else [None]
            c.require(all(isinstance(x, str) and x.startswith("/wd/") for x in got) and got[0] == got[1] != got[2], "ENV", where(e), f"{what}: its TLS files are {got}", key="tls")
    c.require(n, "COMMAND", f.qual, f"the local backend starts no {kind}", key="started")


def jobs(c, name, conf, kind):
    w = World(c, name, conf)
    f, outs = w.start(kind)
    n = 0
    names = [x.arg for x in w.k.find_method("do_as_user").node.args.args[1:]]
    for o in outs:
        for e in calls(o, "do_as_user"):
            n += 1
            what = f"the {name} {kind} (queue {conf.get('queue', conf.get('partition'))!r})"
            kw = dict(e.get("kwargs") or {})
            kw.update(zip(names, e.args))
            a = {k: known(Heap(e), v) for k, v in kw.items()}
            argv, env, stdin = a.get("cmd"), a.get("env"), a.get("stdin")
            q = where(e)
            c.require(a.get("user") == "alice" and a.get("action") == "start", "COMMAND", q, f"{what}: is submitted as {a.get('user')} to {a.get('action')}", key="user")
            if not c.require(isinstance(argv, list) and all(isinstance(x, str) for x in argv), "COMMAND", q, f"{what}: its submission is {argv}", key="submission"):
                continue
            c.require(argv[0] == "submit", "COMMAND", q, f"{what}: is submitted with {argv[0]}", key="submit")
            script = stdin if name == "Slurm" else argv[-1]
            lines = (script or "").split("\n")
            setup = conf[f"{kind}_setup"]
            c.require(setup in lines[:-1], "COMMAND", q, f"{what}: its set-up {setup!r} does not run before its command: {lines[:-1]}", key="setup")
            if name == "Slurm":
                c.require(lines[0].startswith("#!"), "COMMAND", q, f"{what}: its script starts with {lines[0]!r}", key="shebang")
            else:
                c.require(argv[-4:-1] == ["--", "/bin/sh", "-c"], "COMMAND", q, f"{what}: its script is run by {argv[-4:-1]}", key="shell")
            command(c, q, what, words(lines[-1]), kind, conf, conf["worker_memory"])
            environment(c, q, what, env, conf)
            exported = opts(argv, "--export" if name == "Slurm" else "-v")
            c.require(exported and isinstance(env, dict) and set(exported[-1].split(",")) >= set(env), "ENV", q, f"{what}: exports {exported} of {sorted(env or {})}", key="exported")
            for flag, key in (("--partition", "partition"), ("--account", "account"), ("--qos", "qos")) if name == "Slurm" else (("-q", "queue"), ("-A", "account"), ("-P", "project")):
                got = opts(argv, flag)
                c.require(got == ([conf[key]] if conf[key] else []), "RESOURCES", q, f"{what}: its {key} is {got}, not {conf[key]!r}", key=key)
            cores, mem = conf[f"{kind}_cores"], conf[f"{kind}_memory"]
            if name == "Slurm":
                c.require(opts(argv, "--cpus-per-task") == [str(cores)], "RESOURCES", q, f"{what}: is granted {opts(argv, '--cpus-per-task')} cores, configured are {cores}", key="cores")
                got = opts(argv, "--mem")
                granted(c, q, what, got[-1] if got else None, 1024, mem)
            else:
                got = opts(argv, "-l")
                tmpl = conf[f"{kind}_resource_list"]
                m = re.fullmatch(re.escape(tmpl).replace(r"\{cores\}", "([0-9.]+)").replace(r"\{memory\}", "([0-9]+[a-zA-Z]+)"), got[-1] if got else "")
                if c.require(m is not None, "RESOURCES", q, f"{what}: requests {got} by the template {tmpl}", key="resources"):
                    c.require(float(m.group(1)) == cores, "RESOURCES", q, f"{what}: is granted {m.group(1)} cores, configured are {cores}", key="cores")
                    granted(c, q, what, m.group(2), 1024, mem)
            staging = "/home/alice/.dask/c1"
            if name == "Slurm":
                c.require(opts(argv, "--chdir") == [staging], "COMMAND", q, f"{what}: runs in {opts(argv, '--chdir')}, not in {staging}", key="chdir")
            elif conf["use_stagein"]:
                c.require(any(x.startswith("-Wstagein=") and f"gwhost:{staging}/" in x for x in argv), "COMMAND", q, f"{what}: its files are not staged in", key="stagein")
            tls(c, q, what, env, kind, ("dask.crt", "dask.pem") if conf.get("use_stagein") else (staging + "/dask.crt", staging + "/dask.pem"))
            if kind == "scheduler":
                c.require(a.get("staging_dir") == staging and isinstance(a.get("files"), dict) and set(a["files"]) == {"dask.crt", "dask.pem"}, "COMMAND", q, f"{what}: its credentials are staged in {a.get('staging_dir')}", key="staged")
    c.require(n, "COMMAND", f.qual, f"the {name} backend submits no {kind}", key="started")


def tls(c, q, what, env, kind, paths):
    crt, key = paths
    for k, v in (("CA_FILE", crt), (f"{kind.upper()}__CERT", crt), (f"{kind.upper()}__KEY", key)):
        c.require(isinstance(env, dict) and env.get(f"DASK_DISTRIBUTED__COMM__TLS__{k}") == v, "ENV", q, f"{what}: its TLS {k} is {env.get('DASK_DISTRIBUTED__COMM__TLS__' + k) if isinstance(env, dict) else None}, not {v}", key="tls " + k)


def yarn(c, conf):
    w = World(c, "Yarn", conf)
    f, outs = w.start("scheduler")
    n = 0
    for o in outs:
        if o.kind != "ret":
            continue
        made = {x: calls(o, x) for x in ("Master", "Service", "Resources", "ApplicationSpec")}
        if not c.require(all(len(made[x]) == k for x, k in (("Master", 1), ("Service", 1), ("Resources", 2), ("ApplicationSpec", 1))), "COMMAND", f.qual, "the YARN application has not one master and one service", key="parts"):
            continue
        n += 1
        resources = {id(e.get("result")): e for e in made["Resources"]}
        a = fields(made["ApplicationSpec"][0])
        q = where(made["ApplicationSpec"][0])
        c.require(a.get("queue") == conf["queue"] and a.get("user") == "alice", "RESOURCES", q, f"the YARN application runs in queue {a.get('queue')} for {a.get('user')}", key="queue")
        c.require((made["ApplicationSpec"][0].get("kwargs") or {}).get("master") is made["Master"][0].get("result"), "COMMAND", q, "the YARN application's master is another one", key="master")
        sub = [e for e in events(o.st.trace) if e.kind == "call" and any(x is made["ApplicationSpec"][0].get("result") for x in e.args)]
        c.require(sub, "COMMAND", q, "the YARN application is not submitted", key="submitted")
        for kind, e in (("scheduler", made["Master"][0]), ("worker", made["Service"][0])):
            what, q = f"the YARN {kind}", where(e)
            m = fields(e)
            r = resources.get(id((e.get("kwargs") or {}).get("resources")))
            rf = fields(r) if r is not None else {}
            c.require(rf.get("vcores") == conf[f"{kind}_cores"], "RESOURCES", q, f"{what}: is granted {rf.get('vcores')} cores, configured are {conf[kind + '_cores']}", key="cores")
            granted(c, q, what, rf.get("memory"), 1, conf[f"{kind}_memory"])
            script = m.get("script")
            lines = script.split("\n") if isinstance(script, str) else []
            if c.require(len(lines) > 1, "COMMAND", q, f"{what}: its script is {script}", key="script"):
                c.require(conf[f"{kind}_setup"] in lines[:-1], "COMMAND", q, f"{what}: its set-up does not run before its command", key="setup")
                command(c, q, what, words(lines[-1]), kind, conf, "${SKEIN_RESOURCE_MEMORY}MiB", name="$DASK_GATEWAY_WORKER_NAME", address="$DASK_GATEWAY_SCHEDULER_ADDRESS", threads="$SKEIN_RESOURCE_VCORES")
            environment(c, q, what, m.get("env"), conf)
            tls(c, q, what, m.get("env"), kind, ("dask.crt", "dask.pem"))
            files = m.get("files")
            c.require(isinstance(files, dict) and set(files) >= {"x.txt", "dask.crt", "dask.pem"}, "COMMAND", q, f"{what}: is given the files {sorted(files) if isinstance(files, dict) else files}", key="files")
            if kind == "worker":
                c.require(m.get("instances") == 0 and m.get("max_restarts") == 0, "COMMAND", q, f"{what}s: {m.get('instances')} are started and each restarted {m.get('max_restarts')} times", key="instances")
    c.require(n, "COMMAND", f.qual, "the YARN backend submits no application", key="started")
    f, outs = w.start("worker")
    n = 0
    for o in outs:
        for e in events(o.st.trace):
            kw = e.get("kwargs") or {}
            if e.kind == "call" and e.get("name") in ("async_apply", "add_container") and "env" in kw:
                n += 1
                env = known(Heap(e), kw["env"])
                c.require(env == {"DASK_GATEWAY_WORKER_NAME": "w1", "DASK_GATEWAY_SCHEDULER_ADDRESS": ADDRESS}, "ENV", where(e), f"a YARN worker's own environment is {env}", key="own")
    c.require(n, "COMMAND", f.qual, "the YARN backend starts no worker", key="started")


def fields(e):
    return {k: known(Heap(e), v) for k, v in (e.get("kwargs") or {}).items()}


def inprocess(c, conf):
    w = World(c, "InProcess", conf)
    for kind, cls in (("scheduler", "Scheduler"), ("worker", "Worker")):
        f, outs = w.start(kind)
        n = 0
        for o in outs:
            for e in calls(o, cls):
                n += 1
                m, q = fields(e), where(e)
                if kind == "worker":
                    c.require(m.get("nthreads") == conf["worker_threads"], "SETTINGS", q, f"an in-process worker has {m.get('nthreads')} threads, configured are {conf['worker_threads']}", key="nthreads")
                    c.require(m.get("name") == "w1" and e.args and known(Heap(e), e.args[0]) == ADDRESS, "COMMAND", q, f"an in-process worker is named {m.get('name')}", key="worker")
                else:
                    s = settings(Heap(e), (e.get("kwargs") or {}).get("services"))
                    c.require(s.get("idle_timeout") == conf["idle_timeout"] and s.get("adaptive_period") == conf["adaptive_period"] and s.get("heartbeat_period") == 17, "SETTINGS", q, f"an in-process scheduler runs with {s}", key="scheduler")
                    c.require(m.get("protocol") == "tls", "COMMAND", q, f"an in-process scheduler speaks {m.get('protocol')}", key="protocol")
        c.require(n, "COMMAND", f.qual, f"the in-process backend starts no {kind}", key="started")


def settings(h, v):
    """the settings of the scheduler service, wherever they are in the value"""
    if v is None:
        return {}
    if v.k == "tuple":
        out = {}
        for x in v.a:
            out.update(settings(h, x))
        return out
    o = h.obj(v)
    if o is not None and o.kind == "dict":
        d = known(h, v)
        if "idle_timeout" in d:
            return d
        out = {}
        for l in o.layers:
            if l[0] == "kv":
                out.update(settings(h, l[2]))
        return out
    return {}


def kubernetes(c, conf):
    extra = {"image": "img:7", "image_pull_policy": "Always", "image_pull_secrets": [{"name": "pull"}], "worker_memory_limit": 2**32, "worker_cores_limit": 6.5, "scheduler_memory_limit": 2**31, "scheduler_cores_limit": 4.25, "worker_cores": conf["worker_cores"] + 0.5, "scheduler_cores": conf["scheduler_cores"] + 0.25}
    conf = {**{k: v for k, v in conf.items() if not k.startswith("cluster_max")}, **extra}
    p = Pods(c, conf)
    f = p.k.find_method("make_pod")
    q = f.qual
    for kind in ("scheduler", "worker"):
        what = f"the Kubernetes {kind}"
        try:
            pods = list(p.pod(kind == "worker"))
        except Unknown as e:
            c.fail("SETTINGS", q, f"{what}: part of its pod is not told by its configuration: {e}", key="unknown")
            continue
        for st, pod in pods:
            spec = pod.get("spec", {})
            cs = spec.get("containers", [])
            if not c.require(len(cs) == 1, "COMMAND", q, f"{what}: has {len(cs)} containers", key="containers"):
                continue
            x = cs[0]
            argv = (x.get("command") or []) + (x.get("args") or [])
            command(c, q, what, argv, kind, conf, conf["worker_memory_limit"], name="$(DASK_GATEWAY_WORKER_NAME)", address="tls://dask-c1.ns:8786", heartbeat=0)
            env = {e["name"]: e.get("value", e.get("valueFrom")) for e in x.get("env", [])}
            c.require(len(env) == len(x.get("env", [])), "ENV", q, f"{what}: a variable is given twice", key="twice")
            environment(c, q, what, {**env, "DASK_GATEWAY_API_URL": "http://api/api" if env.get("DASK_GATEWAY_API_URL") == "http://api" else None}, conf, "ns.c1", "/etc/dask-credentials/api-token")
            mount = "/etc/dask-credentials/"
            tls(c, q, what, env, kind, (mount + "dask.crt", mount + "dask.pem"))
            if kind == "worker":
                c.require(env.get("DASK_GATEWAY_WORKER_NAME") == {"fieldRef": {"fieldPath": "metadata.name"}}, "ENV", q, f"{what}: is not named after its pod", key="name")
            r = x.get("resources", {})
            for part, suffix in (("requests", ""), ("limits", "_limit")):
                got = r.get(part, {})
                c.require(number(got.get("cpu")) == conf[f"{kind}_cores{suffix}"], "RESOURCES", q, f"{what}: its cpu {part} are {got.get('cpu')}, configured are {conf[f'{kind}_cores{suffix}']}", key=f"cpu {part}")
                c.require(number(got.get("memory")) == conf[f"{kind}_memory{suffix}"], "RESOURCES", q, f"{what}: its memory {part} are {got.get('memory')}, configured are {conf[f'{kind}_memory{suffix}']}", key=f"memory {part}")
            c.require(x.get("image") == "img:7" and x.get("imagePullPolicy") == "Always" and spec.get("imagePullSecrets") == [{"name": "pull"}], "COMMAND", q, f"{what}: runs the image {x.get('image')}", key="image")
            mounts = {m.get("name"): m.get("mountPath") for m in x.get("volumeMounts", [])}
            secrets = [v.get("name") for v in spec.get("volumes", []) if v.get("secret", {}).get("secretName") == "dask-credentials-c1"]
            c.require(any((mounts.get(s) or "").rstrip("/") == mount.rstrip("/") for s in secrets), "COMMAND", q, f"{what}: its cluster's credentials are not mounted", key="credentials")


def run(c):
    c.rule("COMMAND", "a scheduler or worker runs its cluster's configured command after its configured set-up, under its own name, and workers connect to their cluster's scheduler")
    c.rule("SETTINGS", "the configured threads, memory limit, idle timeout, adaptive period and the gateway's heartbeat period are what it runs with")
    c.rule("ENV", "it sees every configured environment variable, and the gateway's own take precedence")
    c.rule("RESOURCES", "the resource manager is asked for the configured cores, memory, queue, account, project and the like")
    for v in VARIANTS:
        for kind in ("scheduler", "worker"):
            local(c, {**BASE, **v}, kind)
            for name in ("PBS", "Slurm"):
                for conf in CONF[name]:
                    jobs(c, name, {**BASE, **conf, **v}, kind)
        for conf in CONF["Yarn"]:
            yarn(c, {**BASE, **conf, **v})
        inprocess(c, {**BASE, **v})
        kubernetes(c, {**BASE, **v})
    for r, n in (("COMMAND", 100), ("SETTINGS", 50), ("ENV", 100), ("RESOURCES", 60)):
        c.floor(r, n)
