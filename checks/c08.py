"""C08: credential files are private to the user, and clusters run as that user."""
from sa.interp import Interp
from sa.program import Broken
from sa.query import contains, ext_name, kwarg, subterms, where
from sa.state import events, walk_events
from sa.values import NONE, V, const, show

B = "dask_gateway_server.backends"
SELF, CLUSTER = V("param", "self"), V("param", "cluster")
CHOWN = ("os.chown", "os.lchown", "shutil.chown", "os.fchown")
CHMOD = ("os.chmod", "os.fchmod", "os.lchmod")
SPAWN = ("asyncio.create_subprocess_exec", "asyncio.create_subprocess_shell", "subprocess.Popen", "subprocess.run",
         "subprocess.check_call", "subprocess.check_output")
EXEMPT = ("UnsafeLocalBackend", "InProcessBackend")     # documented to run everything as the gateway's own user


def name(e):
    return ext_name(e.callee) or "" if e.kind == "call" else ""


def private(mode):
    return mode is not None and mode.k == "const" and isinstance(mode.a[0], int) and mode.a[0] & 0o077 == 0


def run(c):
    c.rule("MODE", "a file that receives the TLS key is created unreadable for others (or inside a new private directory), and stays so")
    c.rule("OWN", "ownership is given to the cluster's user, of everything created for the credentials and of nothing else")
    c.rule("UID", "every process of a local cluster drops to the cluster user's gid and uid before it runs")
    c.rule("SUDO", "every job-queue action of a cluster goes through sudo as the cluster's user")
    c.rule("STAGE", "the job-queue launcher stages credentials in a new directory private to the user")
    local(c)
    jobqueue(c)
    launcher(c)


def concrete(c, q):
    base = c.prog.cls(*q)
    return [k for k in [base] + [x for x in base.subclasses() if x is not base] if k.name not in EXEMPT]


def creations(evs):
    """path -> (event, private, exclusive) for each file system object the events create"""
    out = {}
    for e in evs:
        if e.kind != "call":
            continue
        n = name(e)
        if n in ("os.makedirs", "os.mkdir") and e.args:
            ex = kwarg(e, "exist_ok", 2)
            out[e.args[0]] = (e, private(kwarg(e, "mode", 1)), n == "os.mkdir" or ex is None or ex is const(False), "dir")
        elif n == "os.open" and e.args:
            fl = kwarg(e, "flags", 1)
            excl = fl is not None and contains(fl, lambda x: x.k == "ext" and x.a[0].endswith("O_EXCL"))
            creat = fl is not None and contains(fl, lambda x: x.k == "ext" and x.a[0].endswith("O_CREAT"))
            if creat:
                out[e.args[0]] = (e, private(kwarg(e, "mode", 2)), excl, "file")
        elif n == "tempfile.mkdtemp":
            out[e.result] = (e, True, True, "dir")
        elif e.callee.k == "builtin" and e.callee.a[0] == "open" and e.args:
            m = kwarg(e, "mode", 1)
            if m is not None and m.k == "const" and any(ch in m.a[0] for ch in "wxa"):
                out[e.args[0]] = (e, False, "x" in m.a[0], "file")
    return out


def parents(path):
    """the path and the directories it is joined from"""
    while path is not None:
        yield path
        if path.k == "call" and (ext_name(path) or "").endswith("path.join") and len(path.a[1]) > 1:
            path = path.a[1][0] if len(path.a[1]) == 2 else V("call", path.a[0], path.a[1][:-1], (), path.a[3])
        elif path.k == "call" and (ext_name(path) or "").endswith("dirname"):
            path = path.a[1][0]
        else:
            return


def key_writes(evs, heap_secret):
    """(event, path) for each write of secret data"""
    for e in evs:
        if e.kind == "call" and e.get("name") in ("write", "writelines", "write_bytes", "write_text") or name(e) == "os.write":
            vals = e.args[1:] if name(e) == "os.write" else e.args
            if any(contains(x, heap_secret, e.heap) for x in vals):
                src = e.args[0] if name(e) == "os.write" else e.recv
                paths = []
                for x in subterms(src):
                    if x.k == "call" and ext_name(x) == "os.open":
                        paths.append(x.a[1][0])
                    elif x.k == "call" and x.a[0].k == "builtin" and x.a[0].a[0] == "open":
                        paths.append(x.a[1][0])
                yield e, paths[0] if paths else None


def judge_writes(c, rid, evs, secret, w):
    made = creations(evs)
    n = 0
    for e, path in key_writes(evs, secret):
        n += 1
        if path is None:
            c.fail(rid, where(e), "the TLS key is written to an unidentified file", key="write")
            continue
        ok = False
        m = made.get(path)
        if m is not None and m[1] and m[2]:
            ok = True
        for d in list(parents(path))[1:]:
            x = made.get(d)
            if x is not None and x[3] == "dir" and x[1] and x[2]:
                ok = True
        c.require(ok, rid, where(e), "the TLS key is written to a file that other users may read or have prepared", key="private")
        for o in evs:
            if o.kind == "call" and name(o) in CHMOD and o.args:
                if any(p is o.args[0] for p in parents(path)):
                    c.require(private(kwarg(o, "mode", 1)), rid, where(o), "the permissions of the credentials are widened", key="chmod")
    return n


def pwd_of(v, user):
    return contains(v, lambda x: x.k == "call" and ext_name(x) == "pwd.getpwnam" and x.a[1] and user(x.a[1][0]))


def username(v, roots=(CLUSTER,)):
    return v.k == "attr" and v.a[1] == "username" and (v.a[0] in roots or v.a[0].k == "attr" and v.a[0].a[1] == "cluster")


def pw(v, field):
    return pwd_of(v, username) and v.k in ("attr", "item") and v.a[1] in (field, const({"pw_uid": 2, "pw_gid": 3}[field]), {"pw_uid": 2, "pw_gid": 3}[field])


def opened(v):
    """the path behind a file object or descriptor"""
    for x in subterms(v):
        if x.k == "call" and (ext_name(x) == "os.open" or x.a[0].k == "builtin" and x.a[0].a[0] == "open") and x.a[1]:
            return x.a[1][0]
    return v


def local(c):
    n = writes = 0
    for k in concrete(c, (B + ".local", "LocalBackend")):
        f = k.find_method("setup_working_directory")
        I = Interp(c.prog, c.types)
        I.term_types[SELF] = k.qual
        for o in I.run_function(f, [CLUSTER], selfv=SELF):
            c.paths += 1
            evs = list(walk_events(events(o.st.trace)))
            w = f"{f.module.rel()}:{f.line} ({k.name}.setup_working_directory)"
            secret = lambda x: x.k == "attr" and x.a[1] == "tls_key"
            writes += judge_writes(c, "MODE", evs, secret, w)
            made = creations(evs)
            owned = set()
            for e in evs:
                if e.kind == "call" and name(e) in CHOWN and e.args:
                    n += 1
                    p = opened(e.args[0])
                    own = p in made and (made[p][2] or contains(p, lambda x: x.k == "attr" and x.a[1] == "name" and x.a[0] is CLUSTER
                                                                or x.k == "call" and ext_name(x) == "tempfile.mkdtemp"))
                    c.require(own, "OWN", where(e), f"ownership of {show(p)} is changed, which was not created here", key="other")
                    u, g = kwarg(e, "uid", 1), kwarg(e, "gid", 2)
                    ok = u is not None and (pw(u, "pw_uid") or username(u)) and (g is None or pw(g, "pw_gid") or g.k == "const" and g.a[0] in (-1, None))
                    c.require(ok, "OWN", where(e), "ownership is not given to the cluster's user", key="user")
                    owned.add(p)
            if o.kind == "ret":
                for p, (e, _, _, _) in made.items():
                    c.require(p in owned, "OWN", where(e), f"{show(p)} is not handed to the cluster's user", key="kept")
        for g in I.inlined:
            c.analysed(g)
        spawn(c, k)
    if writes < 1:
        raise Broken("no TLS key is written by the local backend")
    c.floor("OWN", 4)
    c.floor("UID", 3)


def spawn(c, k):
    """do_start_cluster / do_start_worker: each spawned process has a preexec function that drops privileges"""
    W = V("param", "worker")
    found = 0
    for mname, arg in (("do_start_cluster", CLUSTER), ("do_start_worker", W)):
        f = k.find_method(mname)
        I = Interp(c.prog, c.types, opaque=lambda fn, r: fn.name == "setup_working_directory")
        I.term_types[SELF] = k.qual
        done = set()
        for o in I.run_function(f, [arg], selfv=SELF):
            c.paths += 1
            for e in walk_events(events(o.st.trace)):
                if e.kind != "call" or name(e) not in SPAWN:
                    continue
                found += 1
                pre = kwarg(e, "preexec_fn")
                uid_kw = kwarg(e, "user")
                if uid_kw is not None and uid_kw is not NONE:
                    c.require(pwd_of(uid_kw, username) or username(uid_kw), "UID", where(e), "the process runs as another user", key="user")
                    continue
                if pre is None or pre is NONE:
                    c.fail("UID", where(e), "the process runs as the gateway's user", key="none")
                    continue
                if where(e) in done:
                    continue
                done.add(where(e))
                drop(c, I, pre, o.st, e)
        for g in I.inlined:
            c.analysed(g)
    if not found:
        raise Broken("LocalBackend starts no process")


def drop(c, I, pre, st, e):
    J = Interp(c.prog, c.types, raises=lambda I, s, ev: ["OSError"] if name(ev).startswith("os.set") else None)
    J.term_types.update(I.term_types)
    for o in J.run_value(pre, [], st):
        c.paths += 1
        evs = [x for x in events(o.st.trace, st.trace)]
        raised = {id(x.call) for x in evs if x.kind == "callraised"}
        if o.kind == "raise":
            c.require(True, "UID", where(e), "")     # the child does not start
            continue
        order = []
        for x in evs:
            if x.kind == "call" and id(x) not in raised:
                n = name(x)
                if n in ("os.setuid", "os.setreuid", "os.setresuid"):
                    order.append("uid" if all(pwd_of(a, username) and contains(a, lambda y: y.k == "attr" and y.a[1] == "pw_uid") for a in x.args) else "bad")
                if n in ("os.setgid", "os.setregid", "os.setresgid"):
                    order.append("gid" if all(pwd_of(a, username) and contains(a, lambda y: y.k == "attr" and y.a[1] == "pw_gid") for a in x.args) else "bad")
        ok = "uid" in order and "gid" in order and "bad" not in order and order.index("gid") < order.index("uid")
        c.require(ok, "UID", where(e), f"the child may run without dropping to the cluster's user (sequence: {order})", key="drop")


def jobqueue(c):
    base = c.prog.cls(B + ".jobqueue.base", "JobQueueBackend")
    W = V("param", "worker")
    n = 0
    for k in [base] + [x for x in base.subclasses() if x is not base]:
        for mname, arg in (("do_start_cluster", CLUSTER), ("do_start_worker", W), ("do_stop_cluster", CLUSTER), ("do_stop_worker", W)):
            f = k.find_method(mname)
            opq = lambda fn, r: fn.name in ("get_submit_cmd_env_stdin", "get_stop_cmd_env", "parse_job_id")
            I = Interp(c.prog, c.types, opaque=opq)
            I.term_types[SELF] = k.qual
            for o in I.run_function(f, [arg], selfv=SELF):
                c.paths += 1
                evs = list(walk_events(events(o.st.trace)))
                for e in evs:
                    if e.kind == "call" and name(e) in SPAWN:
                        n += 1
                        a = e.args
                        ok = bool(a) and a[0] is const("sudo")
                        u = None
                        for i, x in enumerate(a[1:], 1):
                            if x.k == "const" and isinstance(x.a[0], str) and x.a[0].startswith("-") and not x.a[0].startswith("--") and x.a[0].endswith("u") and i + 1 < len(a):
                                u = a[i + 1]
                            elif x.k == "const" and x.a[0] == "--user" and i + 1 < len(a):
                                u = a[i + 1]
                        ok = ok and u is not None and username(u, (CLUSTER,)) and u.a[0] in (CLUSTER, V("attr", W, "cluster", 0))
                        c.require(ok, "SUDO", where(e), f"{mname} runs {[show(x) for x in a]}, not as the cluster's user", key=mname)
                made = creations(evs)
                for p, (e, _, _, _) in made.items():
                    c.fail("SUDO", where(e), "the gateway itself creates files for the cluster", key="files")
                for e in evs:
                    if e.kind == "call" and name(e) in CHOWN:
                        c.fail("OWN", where(e), "the gateway changes ownership", key="jq")
            for g in I.inlined:
                c.analysed(g)
    if n < 8:
        raise Broken("job queue commands not recognised")


def launcher(c):
    mod = B + ".jobqueue.launcher"
    f = c.prog.funcs.get(mod + ".start")
    if f is None:
        raise Broken("launcher.start not found")
    n = 0
    FILES = V("param", "files")
    I = Interp(c.prog, c.types, raises=lambda I, s, e: ["OSError"] if name(e).startswith(("os.", "shutil.")) else None)
    for o in I.run_function(f, [V("param", x) for x in f.params()]):
        c.paths += 1
        evs = list(walk_events(events(o.st.trace)))
        secret = lambda x: contains(x, lambda y: y is FILES)
        raised = {id(x.call) for x in evs if x.kind == "callraised"}
        n += judge_writes(c, "STAGE", [e for e in evs if id(e) not in raised], secret, "")
    for g in I.inlined:
        c.analysed(g)
    if not n:
        raise Broken("launcher writes no staged file")
