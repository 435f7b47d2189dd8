"""C39: the job launcher runs what it was asked to, answers once, and keeps to its staging directory.

The launcher is interpreted for every kind of request with every one of its
effects failing in turn; then the gateway's side is, for every answer that the
launcher can give."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, where
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import Unknown, get, put

MOD = "dask_gateway_server.backends.jobqueue.launcher"
DIR = "/home/alice/.dask-gateway/cluster"
FILES = {"dask.pem": "the key", "dask.crt": "the certificate"}
CMD = ["qsub", "-N", "it's; rm -rf /"]
ENV = {"PATH": "/bin"}
RUN = ("Popen", "run", "check_output", "check_call", "call", "getoutput", "getstatusoutput", "create_subprocess_exec", "create_subprocess_shell")
SHELLS = ("system", "popen", "getoutput", "getstatusoutput", "create_subprocess_shell")
REMOVE = ("rmtree", "remove", "unlink", "rmdir", "removedirs", "rename", "replace")
FAIL = (None, "makedirs", "mkdir", "open", "write", "write_text", "rmtree", "Popen")


def launch(c, request, fail, exists=None):
    """outcomes of the launcher for a request; `fail`: the effect that fails"""
    def results(I, st, name, func, args, kw):
        if name in ("load", "loads") and I.callee is not None and show(I.callee).startswith("json."):
            return put(st, request) if not isinstance(request, str) else V("never")
        if name in ("exists", "isdir", "lexists") and exists is not None and args:
            return const(exists)
        if name == "rmtree" and exists is False:
            return V("never")

    def raises(I, st, ev):
        if ev.get("result") is V("never"):
            return [("FileNotFoundError" if ev.get("name") == "rmtree" else "ValueError", True)]
        if ev.get("name") == fail and fail is not None and not _out(ev):
            return ["OSError"]
    I = Interp(c.prog, c.types, results=results, raises=raises)
    f = c.prog.funcs.get(MOD + ".main")
    if f is None:
        raise Broken("the launcher has no main")
    outs = I.run_function(f, [], st=I.new_state())
    c.paths += len(outs)
    c.analysed(*I.inlined)
    return outs


def _out(e):
    """whether a call writes to standard output"""
    return any(show(a) in ("sys.stdout", "sys.stdout.buffer") for a in e.args) or show(e.get("recv") or NONE).startswith("sys.stdout") or e.get("name") == "print" and "file" not in (e.get("kwargs") or {})


def split(o):
    ev = events(o.st.trace)
    failed = {id(e.call) for e in ev if e.kind == "callraised"}
    calls = [e for e in ev if e.kind == "call"]
    return ([e for e in calls if _out(e) and e.get("name") not in ("flush", "close", "isatty", "fileno")],
            [e for e in calls if e.get("name") in RUN and "subprocess" in show(e.get("callee"))], calls, failed)


def reply(o, e):
    """the fields of the reply as {name: value}, or None"""
    for a in e.args:
        for v in _subs(a):
            d = e.heap.get(v.a[0]) if v.k == "ref" else None
            if d is not None and d.kind == "dict":
                return {l[1].a[0]: l[2] for l in d.layers if l[0] == "kv" and l[1].k == "const"}
    return None


def _subs(v):
    from sa.query import subterms
    return list(subterms(v))


def ref_value(e, v):
    from .sched import At
    from .optw import get as g
    return g(At(e.heap), v)


def ended(c, o, what):
    """one reply, or the launcher itself fails"""
    out, runs, calls, failed = split(o)
    if o.kind == "raise":
        c.require(not out, "ONCE", MOD, f"{what}: the launcher fails after it replied", key="after")
    else:
        c.require(len(out) == 1, "ONCE", MOD, f"{what}: {len(out)} replies are given", key="one")
    return out, runs, calls, failed


def ran(c, o, e, cmd, env, stdin, out, what):
    kw = e.get("kwargs") or {}
    try:
        got = ref_value(e, e.args[0] if e.args else kw.get("args"))
    except (Unknown, AttributeError):
        got = None
    c.require(got == cmd, "GIVEN", where(e), f"{what}: the command run is {got}, not {cmd}", key="cmd")
    c.require(kw.get("shell", const(False)) is const(False) and kw.get("executable") is None and kw.get("preexec_fn") is None, "GIVEN", where(e), f"{what}: the command is run by a shell", key="shell")
    try:
        genv = ref_value(e, kw["env"])
    except (Unknown, KeyError, AttributeError):
        genv = None
    c.require(genv == env, "GIVEN", where(e), f"{what}: the environment of the command is {genv}, not {env}", key="env")
    given = [a for x in split(o)[2] if x.get("name") == "communicate" for a in list(x.args) + list((x.get("kwargs") or {}).values())] + ([kw["input"]] if "input" in kw else [])
    given = [a for a in given if a is not NONE]
    c.require((len(given) == 1 and given[0].k == "const" and given[0].a[0] in (stdin, stdin.encode())) if stdin is not None else not given, "GIVEN", where(e), f"{what}: the standard input of the command is {[show(a) for a in given]}, not {stdin!r}", key="stdin")
    for r in out:
        f = reply(o, r)
        if f is None:
            c.fail("CARRY", where(r), f"{what}: the reply is not an object", key="shape")
            continue
        c.paths += 1
        if f.get("ok") is const(True):
            c.require("returncode" in f and show(f["returncode"]).endswith("returncode") and contains(f["returncode"], lambda v: v is e.result, r.heap), "CARRY", where(r), f"{what}: the reply does not carry the exit status", key="status")
            for name in ("stdout", "stderr"):
                c.require(name in f and contains(f[name], lambda v: v is e.result, r.heap), "CARRY", where(r), f"{what}: the reply does not carry the command's {name}", key=name)
            if "stdout" in f and "stderr" in f:
                c.require(f["stdout"] is not f["stderr"], "CARRY", where(r), f"{what}: the outputs are confused", key="same")


def refused(c, o, out, what):
    for r in out:
        f = reply(o, r) or {}
        c.require(f.get("ok") is const(False) and "error" in f, "REFUSE", where(r), f"{what}: the reply is {({k: show(v) for k, v in f.items()})}", key="ok")


def written(c, o, calls, what, staging):
    """what is written and removed"""
    for e in calls:
        n = e.get("name")
        if n in ("open", "mkdir", "makedirs", "write_text", "write_bytes", "touch", "chmod", "chown", "symlink", "copy", "copyfile") or n in REMOVE:
            path = e.get("recv") if e.get("recv") is not None and n in ("write_text", "write_bytes", "touch", "mkdir", "unlink", "rmdir") and not show(e.get("callee")).startswith("os.") else (e.args[0] if e.args else None)
            t = show(path) if path is not None else ""
            consts = [x.a[0] for x in _subs(path) if x.k == "const" and isinstance(x.a[0], str)] if path is not None else []
            inside = staging and not strange(path) and any(x == DIR or x.startswith(DIR + "/") for x in consts) and all(x in (DIR, *FILES) or x.startswith(DIR) or x in ("/",) for x in consts)
            c.require(inside, "INSIDE", where(e), f"{what}: {n} touches {t}", key=n)


JOINS = ("join", "joinpath", "Path", "PurePath", "fspath", "str", "normpath", "abspath", "open")


def strange(path):
    """whether a path is computed by anything but putting names below a directory"""
    for x in _subs(path):
        if x.k == "call" and show(x.a[0]).rsplit(".", 1)[-1] not in JOINS:
            return True
        if x.k == "const" and isinstance(x.a[0], str) and ".." in x.a[0].split("/"):
            return True
    return False


def starts(c):
    for stdin in (" script \n", None):
        base = dict(action="start", cmd=CMD, env=ENV, stdin=stdin)
        for staging in (True, False):
            req = {**base, **(dict(staging_dir=DIR, files=FILES) if staging else dict(staging_dir=None, files=None) if stdin else {})}
            for fail in FAIL:
                for o in launch(c, req, fail):
                    what = f"a start request {'with' if staging else 'without'} a staging directory" + (f", {fail} fails" if fail else "")
                    out, runs, calls, failed = ended(c, o, what)
                    written(c, o, calls, what, staging)
                    bad = [e for e in calls if id(e) in failed and e.get("name") != "Popen"]
                    if bad:
                        c.require(not runs, "FIRST", where(runs[0]) if runs else MOD, f"{what}: the command is run although its files could not be put in place", key="failed")
                        refused(c, o, out, what)
                        continue
                    c.require(len(runs) == 1, "RUN", MOD, f"{what}: {len(runs)} commands are run", key="start")
                    for e in runs:
                        if id(e) not in failed:
                            ran(c, o, e, CMD, ENV, stdin, out, what)
                    if not staging:
                        continue
                    at = {id(e): i for i, e in enumerate(calls)}
                    made = [e for e in calls if e.get("name") in ("makedirs", "mkdir")]
                    ok = len(made) == 1 and (mode(made[0]) or 0o777) & 0o077 == 0
                    c.require(ok, "PRIVATE", where(made[0]) if made else MOD, f"{what}: the staging directory is readable by others", key="mode")
                    new = len(made) == 1 and ((made[0].get("kwargs") or {}).get("exist_ok", const(False)) is const(False))
                    c.require(new, "PRIVATE", where(made[0]) if made else MOD, f"{what}: an existing staging directory is used", key="new")
                    wr = [e for e in calls if e.get("name") in ("write", "write_text") and not _out(e)]
                    for name, text in FILES.items():
                        mine = [e for e in wr if contains(e.get("recv"), lambda v: v is const(name), e.heap) or any(contains(e.get("recv"), lambda v: v.k == "const" and isinstance(v.a[0], str) and v.a[0].endswith("/" + name), e.heap) for _ in (0,))]
                        c.require(len(mine) == 1 and mine[0].args and mine[0].args[0] is const(text), "FIRST", where(mine[0]) if mine else MOD, f"{what}: {name} is not written as given", key="content")
                        for e in mine:
                            c.require(made and at[id(made[0])] < at[id(e)] and (not runs or at[id(e)] < at[id(runs[0])]), "FIRST", where(e), f"{what}: {name} is not in place before the command is run", key="order")


def mode(e):
    m = (e.get("kwargs") or {}).get("mode", e.args[1] if len(e.args) > 1 else None)
    return m.a[0] if m is not None and m.k == "const" else None


def stops(c):
    for staging in (True, False):
        for exists in (True, False) if staging else (None,):
            req = dict(action="stop", cmd=CMD, env=ENV, staging_dir=DIR if staging else None)
            for fail in (None, "rmtree", "Popen"):
                for o in launch(c, req, fail, exists):
                    what = f"a stop request {'with' if staging else 'without'} a staging directory" + ("" if exists is not False else " that does not exist") + (f", {fail} fails" if fail else "")
                    out, runs, calls, failed = ended(c, o, what)
                    written(c, o, calls, what, staging)
                    c.require(len(runs) == 1, "RUN", MOD, f"{what}: {len(runs)} commands are run", key="stop")
                    gone = [e for e in calls if e.get("name") == "rmtree"]
                    if staging and exists:
                        c.require(gone, "REMOVED", MOD, f"{what}: the staging directory is left behind", key="left")
                    if any(id(e) in failed for e in gone) and exists:
                        refused(c, o, out, what)
                    for e in runs:
                        if id(e) not in failed:
                            ran(c, o, e, CMD, ENV, None, out, what)
                            if exists is False or fail is None:
                                for r in out:
                                    c.require((reply(o, r) or {}).get("ok") is const(True), "CARRY", where(r), f"{what}: the reply denies that the command was run", key="denied")


def malformed(c):
    for req, what in (("", "a request that is not JSON"), (dict(action="restart", cmd=CMD, env=ENV), "an unknown action"), (dict(cmd=CMD, env=ENV), "a request without an action"), (dict(action=None), "an empty request")):
        for o in launch(c, req, None):
            out, runs, calls, failed = ended(c, o, what)
            c.require(not runs, "REFUSE", MOD, f"{what}: a command is run", key="run")
            refused(c, o, out, what)


class Gateway:
    """the gateway's side: what the launcher answers is given"""

    def __init__(self, c, k, status, answer):
        self.c, self.k = c, k
        self.status, self.answer = status, answer
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=lambda f, r: f.name in ("parse_job_id", "get_submit_cmd_env_stdin", "get_stop_cmd_env", "get_staging_directory", "parse_job_states"))
        self.S = V("param", "self")
        I.term_types[self.S] = k.qual
        self.proc = V("param", "proc")
        self.st = I.new_state()
        self.st.store = {**self.st.store, (self.proc, "returncode"): const(status)}

    def results(self, I, st, name, func, args, kw):
        if name.startswith("create_subprocess"):
            return self.proc
        if name == "communicate":
            return V("tuple", V("param", "out"), V("param", "err"))
        if name == "loads":
            return put(st, self.answer) if self.answer is not None else V("never")
        if name == "get_stop_cmd_env":
            return V("tuple", V("param", "stop cmd"), V("param", "stop env"))
        if name == "get_submit_cmd_env_stdin":
            return V("tuple", V("param", "cmd"), V("param", "env"), V("param", "stdin"))

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            return [("ValueError", True)]


def gateway(c):
    base = c.prog.cls("dask_gateway_server.backends.jobqueue.base", "JobQueueBackend")
    ok = dict(ok=True, returncode=0, stdout="job 1", stderr="")
    answers = [(0, ok, True), (1, ok, False), (-9, ok, False), (0, dict(ok=False, error="no"), False), (0, {**ok, "returncode": 1}, False), (0, {**ok, "returncode": 255, "stderr": "boom"}, False), (0, None, False)]
    C = V("param", "cluster")
    for k in [x for x in base.subclasses()] or [base]:
        f, g = k.find_method("start_job"), k.find_method("stop_job")
        ds, dt, dw, dx = (k.find_method(n) for n in ("do_start_cluster", "do_stop_cluster", "do_start_worker", "do_stop_worker"))
        if any(x is None for x in (f, g, ds, dt, dw, dx)):
            raise Broken("the job queue backend has no start_job, stop_job or one of its clusters' operations")
        for status, answer, good in answers:
            what = f"the launcher exits with {status} and answers {answer}"
            for meth, mk in ((f, lambda s: dict(username=V("param", "user"), cmd=V("param", "cmd"), env=V("param", "env"), stdin=V("param", "stdin"), staging_dir=V("param", "dir"), files=V("param", "files"))),
                             (g, lambda s: dict(username=V("param", "user"), job_id=V("param", "job"), staging_dir=V("param", "dir")))):
                w = Gateway(c, k, status, answer)
                outs = w.I.run_function(meth, [], selfv=w.S, kwargs=mk(w.st), st=w.st.fork())
                c.paths += len(outs)
                c.analysed(*w.I.inlined)
                if good:
                    c.require(outs and all(o.kind == "ret" for o in outs), "BELIEVE", meth.qual, f"{what}: {meth.name} fails", key="good")
                else:
                    c.require(outs and not any(o.kind == "ret" for o in outs), "BELIEVE", meth.qual, f"{what}: {meth.name} does not fail", key="bad")
                for o in outs:
                    execs = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name", "").startswith("create_subprocess")]
                    c.require(len(execs) == 1 and execs[0].get("name") == "create_subprocess_exec", "USER", meth.qual, f"{meth.name} does not run the launcher exactly once, without a shell", key="once")
                    for e in execs:
                        args = list(e.args)
                        c.require(len(args) == 4 and args[0] is const("sudo") and args[1] is const("-nHu") and args[2] is V("param", "user") and "launcher" in show(args[3]), "USER", where(e),
                                  f"the launcher is run as {[show(a) for a in args]}", key="user")
                    dumps = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") in ("communicate", "write") and e.args and e.args[0].k == "call"]
                    for e in dumps:
                        got = reply(o, e) or {}
                        if meth is f:
                            want = dict(action=const("start"), cmd=V("param", "cmd"), env=V("param", "env"), stdin=V("param", "stdin"), staging_dir=V("param", "dir"), files=V("param", "files"))
                        else:
                            want = dict(action=const("stop"), cmd=V("param", "stop cmd"), env=V("param", "stop env"), staging_dir=V("param", "dir"))
                        c.require(got == want, "ASK", where(e), f"{meth.name} asks the launcher for {({n: show(v) for n, v in got.items()})}", key=meth.name)
                    c.require(dumps, "ASK", meth.qual, f"{meth.name} sends the launcher nothing", key="nothing")
        # who it runs as, and that the job's number is what is stored
        for meth, arg, user in ((ds, C, "cluster"), (dw, V("param", "worker"), "worker.cluster")):
            w = Gateway(c, k, 0, ok)
            outs = w.I.run_function(meth, [arg], selfv=w.S, st=w.st.fork())
            c.require(outs, "USER", meth.qual, "no outcome", key="none")
            for o in outs:
                c.paths += 1
                for e in events(o.st.trace):
                    if e.kind == "call" and e.get("name", "").startswith("create_subprocess"):
                        c.require(len(e.args) > 2 and show(e.args[2]) == user + ".username", "USER", where(e), f"the launcher is run as {show(e.args[2]) if len(e.args) > 2 else None}", key="owner")
                ys = [e for e in events(o.st.trace) if e.kind == "yield"]
                good = [e for e in ys if e.get("value") is not None and e.get("value").k == "ref" and any(l[0] == "kv" and l[1] is const("job_id") and "parse_job_id" in show(l[2]) for l in e.heap[e.get("value").a[0]].layers)]
                c.require(len(good) == 1 or o.kind != "ret", "BELIEVE", meth.qual, f"{meth.name} does not yield the number of the job once", key="job")
            c.analysed(*w.I.inlined)
        for meth, arg, user in ((dt, C, "cluster"), (dx, V("param", "worker"), "worker.cluster")):
            for job in (None, "12"):
                w = Gateway(c, k, 0, ok)
                s = w.st.fork()
                s.store = {**s.store, (arg, "state"): put(s, dict(job_id=job, staging_dir=DIR) if job else {})}
                outs = w.I.run_function(meth, [arg], selfv=w.S, st=s)
                for o in outs:
                    c.paths += 1
                    n = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name", "").startswith("create_subprocess")]
                    c.require(len(n) == (1 if job else 0), "CANCEL", meth.qual, f"{meth.name} of {'a submitted job' if job else 'nothing that was submitted'} runs the launcher {len(n)} times", key="times")
                    for e in n:
                        c.require(len(e.args) > 2 and show(e.args[2]) == user + ".username", "USER", where(e), f"the launcher is run as {show(e.args[2]) if len(e.args) > 2 else None}", key="owner stop")
                    if job:
                        ids = [e for e in events(o.st.trace) if e.kind == "call" and e.get("name") == "get_stop_cmd_env"]
                        c.require(ids and all(job in [get_const(a) for a in list(e.args) + list((e.get("kwargs") or {}).values())] for e in ids), "CANCEL", meth.qual, f"{meth.name} cancels another job", key="which")
                        if meth is dt:
                            for e in events(o.st.trace):
                                if e.kind == "call" and e.get("name") in ("communicate", "write") and e.args:
                                    c.require(contains(e.args[0], lambda v: v is const(DIR), e.heap), "CANCEL", where(e), "the staging directory is not removed with the cluster", key="dir")
                c.analysed(*w.I.inlined)


def get_const(v):
    return v.a[0] if v.k == "const" else None


def jobs(c):
    """the number of a job is what the submit command printed, and the cancel command gets it as its only argument"""
    base = c.prog.cls("dask_gateway_server.backends.jobqueue.base", "JobQueueBackend")
    for k in base.subclasses():
        f, g = k.find_method("parse_job_id"), k.find_method("get_stop_cmd_env")
        for text, want in (("17\n", "17"), ("4", "4"), ("1234.pbs-server\n", "1234.pbs-server")):
            I = Interp(c.prog, c.types)
            st = I.new_state()
            S = st.alloc(Obj("inst", cls=k.qual, attrs={}))
            for o in I.run_function(f, [const(text)], selfv=S, st=st):
                c.paths += 1
                c.require(o.kind == "ret" and o.val is const(want), "CANCEL", f.qual, f"the number of the job submitted with output {text!r} is {show(o.val)}", key=f"{k.name} id")
            outs = I.run_function(g, [const(want)], selfv=S, st=st.fork())
            for o in outs:
                c.paths += 1
                cmd = o.val.a[0] if o.kind == "ret" and o.val.k == "tuple" else None
                d = o.st.obj(cmd) if cmd is not None else None
                args = [x[1] for x in d.segs] if d is not None and hasattr(d, "segs") else list(cmd.a) if cmd is not None and cmd.k == "tuple" else []
                c.require(len(args) == 2 and "cancel_command" in show(args[0]) and args[1] is const(want), "CANCEL", g.qual, f"the command that cancels job {want} is {[show(a) for a in args]}", key=f"{k.name} cancel")
            c.require(outs, "CANCEL", g.qual, "no cancel command", key=f"{k.name} none")
        c.analysed(f, g)


def run(c):
    c.rule("ONCE", "every request ends in exactly one reply, or the launcher itself fails without one")
    c.rule("RUN", "a start request whose files are in place, and every stop request, runs its command once")
    c.rule("GIVEN", "the command is run as given, with the given environment and input, without a shell")
    c.rule("CARRY", "the reply carries the exit status and the output of the command")
    c.rule("REFUSE", "a request that is not understood or whose files cannot be put in place or removed is answered with a reason; no command is run for one that is not understood")
    c.rule("FIRST", "the command of a start request is run after its files were written, not when that failed")
    c.rule("PRIVATE", "the staging directory is new and accessible to its owner only")
    c.rule("INSIDE", "nothing outside the staging directory is created, written or removed")
    c.rule("REMOVED", "a stop request removes the staging directory")
    c.rule("BELIEVE", "the gateway takes a failing launcher, a failure reply and a failing command for a failure, and stores the number of a job that was started")
    c.rule("USER", "the launcher is run once, as the cluster's user, without a shell")
    c.rule("ASK", "the launcher is asked for exactly the operation that is meant")
    c.rule("CANCEL", "stopping cancels exactly the job that was submitted, and nothing when none was")
    starts(c)
    stops(c)
    malformed(c)
    jobs(c)
    gateway(c)
    for r, n in (("ONCE", 40), ("RUN", 20), ("GIVEN", 40), ("CARRY", 30), ("REFUSE", 10), ("FIRST", 10), ("PRIVATE", 8), ("INSIDE", 30), ("REMOVED", 2), ("BELIEVE", 28), ("USER", 40), ("ASK", 20), ("CANCEL", 8)):
        c.floor(r, n)
