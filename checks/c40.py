"""C40: status checks answer for every object, in order.

Each backend's status checks are interpreted for three clusters, or for three
workers of two clusters, of which each was never started, is alive, has ended
or cannot be queried, in every combination, with the reports that the resource
manager would give."""
import itertools
from sa.interp import Interp
from sa.program import Broken
from sa.state import Obj, events
from sa.values import NONE, V, const, show
from .optw import Unknown, get, put

DB = "dask_gateway_server.backends.db_base"
SELF = V("param", "self")
NAMES = ("n1", "n2", "n3")
CLOSED = V("ext", "distributed.core.Status.closed")
HOMES = (0, 1, 0)   # the clusters of the workers
SLURM = {"alive": ("R", "PD", "CF", "CG"), "dead": ("F", "CD", "CA", "TO", "NF", "OOM", None)}
PBS = {"alive": ("R", "Q", "H"), "dead": ("F", "X", None)}
YARN = {"alive": ("RUNNING", "ACCEPTED", "SUBMITTED", "NEW"), "dead": ("FAILED", "KILLED", "FINISHED")}


class World:
    def __init__(self, c, k, kind, cases, pick=0):
        self.c, self.k, self.kind, self.cases, self.pick = c, k, kind, cases, pick
        self.fam = family(k)
        I = self.I = Interp(c.prog, c.types, results=self.results, raises=self.raises, opaque=self.opaque)
        I.term_types[SELF] = k.qual
        st = self.st = I.new_state()
        self.xs = [V("param", n) for n in NAMES]
        self.homes = [V("param", "home0"), V("param", "home1")]
        for op in ("==", "is"):
            st.facts = st.facts.assume(V("cmp", op, *sorted(self.homes)), False)
        for i in range(3):
            st.facts = st.facts.assume(V("cmp", "is", V("param", f"object{i}"), NONE), False)
        store = dict(st.store)
        for x in self.homes:
            I.term_types[x] = DB + ".Cluster"
            store[(x, "name")] = const(show(x))
            store[(x, "state")] = put(st, dict(app_id="app " + show(x)))
        for i, (x, case) in enumerate(zip(self.xs, cases)):
            I.term_types[x] = f"{DB}.{kind}"
            store[(x, "name")] = const(NAMES[i])
            store[(x, "state")] = put(st, {} if case == "unstarted" else {self.idkey(): self.ident(i)})
            if kind == "Worker":
                store[(x, "cluster")] = self.homes[HOMES[i]]
        if self.fam == "inprocess":
            for attr in ("schedulers", "workers"):
                store[(SELF, attr)] = st.alloc(Obj("dict", layers=tuple(("kv", const(NAMES[i]), V("param", f"object{i}")) for i, s in enumerate(cases) if s in ("alive", "dead"))))
            for i, s in enumerate(cases):
                alive = V("ext", "distributed.core.Status." + ("running", "init", "created")[pick % 3])
                store[(V("param", f"object{i}"), "status")] = CLOSED if s == "dead" else alive
                st.facts = st.facts.assume(V("cmp", "==", *sorted((alive, CLOSED))), False).assume(V("cmp", "is", *sorted((alive, CLOSED))), False)
        if self.fam == "yarn":
            for i in range(3):
                if cases[i] in YARN:
                    store[(V("param", f"report{i}"), "state")] = const(YARN[cases[i]][pick % len(YARN[cases[i]])])
                store[(V("param", f"container{i}"), "id")] = const(self.ident(i))
        st.store = store

    def idkey(self):
        return {"local": "pid", "inprocess": "started", "queue": "job_id", "yarn": "app_id" if self.kind == "Cluster" else "container_id"}[self.fam]

    def ident(self, i):
        if self.fam == "local":
            return (11, 7, 42)[i]
        return ("17", "4", "23")[i]

    def which(self, v):
        return next((i for i in range(3) if v is const(self.ident(i))), None)

    def opaque(self, f, recv):
        return f.name in ("_get_app_client", "async_apply", "get_status_cmd_env")

    def results(self, I, st, name, func, args, kw):
        if name == "_get_app_client":
            h = args[0]
            i = next((j for j, x in enumerate(self.homes) if x is h), None)
            if i is None:
                return V("never")
            return V("never") if self.cases_of(i) == "gone" else V("param", f"app{i}")
        if name == "async_apply":
            f = show(args[0])
            if f.endswith("application_report"):
                i = self.which(args[1] if len(args) > 1 else NONE)
                return V("never") if i is None or self.cases[i] == "error" else V("param", f"report{i}")
            if f.endswith("get_containers"):
                i = int(f[3])
                if self.cases_of(i) == "error":
                    return V("never")
                return st.alloc(Obj("list", segs=tuple(("one", V("param", f"container{j}")) for j in reversed(range(3)) if HOMES[j] == i and self.cases[j] == "alive")))
        if self.fam == "queue":
            if name.startswith("create_subprocess"):
                st.store = {**st.store, (V("param", "proc"), "returncode"): const(1 if "error" in self.cases else 0)}
                st.ghost = {**st.ghost, "asked": st.ghost.get("asked", 0) + 1}
                return V("param", "proc")
            if name == "communicate":
                return V("tuple", const(self.text().encode()), const(b"nothing"))
        if name == "kill":
            i = self.which(args[0])
            if i is None:
                return V("never")
            return NONE if self.cases[i] == "alive" else V("never")
        return None

    def cases_of(self, home):
        """what befalls the workers of a cluster as a whole"""
        s = [self.cases[j] for j in range(3) if HOMES[j] == home]
        return "gone" if "gone" in s else "error" if "error" in s else "fine"

    def text(self):
        """what the batch system's status command prints"""
        rows = []
        tab = SLURM if self.k.name == "SlurmBackend" else PBS
        for i in (2, 0, 1):
            if self.cases[i] in tab:
                s = tab[self.cases[i]][self.pick % len(tab[self.cases[i]])]
                if s is not None:
                    rows.append(f"{self.ident(i)} {s}" if tab is SLURM else f"{self.ident(i)}  dask-gateway  alice  00:00:00 {s} workq")
        return "\n".join(([] if tab is SLURM else ["Job id  Name  User  Time Use S Queue", "------  ----  ----  -------- - -----"]) + rows + [""]) if rows or tab is PBS else ""

    def raises(self, I, st, ev):
        if ev.get("result") is V("never"):
            if ev.get("name") == "kill":
                return [("OSError", True, {"errno": V("ext", "errno.ESRCH")})]
            return [("ValueError", True)]

    def run(self):
        m = "do_check_clusters" if self.kind == "Cluster" else "do_check_workers"
        f = self.k.find_method(m)
        st = self.st.fork()
        lst = st.alloc(Obj("list", segs=tuple(("one", x) for x in self.xs)))
        outs = self.I.run_function(f, [lst], selfv=SELF, st=st)
        self.c.analysed(f, *self.I.inlined)
        return f, outs


def family(k):
    names = {x.name for x in k.mro()}
    for n, f in (("YarnBackend", "yarn"), ("JobQueueBackend", "queue"), ("InProcessBackend", "inprocess"), ("LocalBackend", "local")):
        if n in names:
            return f
    return None


def check(c, k, kind, cases, pick):
    w = World(c, k, kind, cases, pick)
    f, outs = w.run()
    what = f"asked about a {' , a '.join(cases)} {kind.lower()}" + (f" (report {pick})" if pick else "")
    fam = w.fam
    whole = fam == "queue" and "error" in cases and any(x != "unstarted" for x in cases)
    c.require(outs, "EACH", f.qual, f"{what}: no outcome", key=f"{k.name} none")
    for o in outs:
        c.paths += 1
        if o.kind != "ret":
            c.require(whole, "EACH", f.qual, f"{what}: the check fails as a whole", key=f"{k.name} {kind} raises")
            continue
        c.require(not whole, "EACH", f.qual, f"{what}: answers are given although the status command failed", key=f"{k.name} answers")
        if whole:
            continue
        try:
            got = get(o.st, o.val)
        except Unknown:
            got = [show(s[1]) if s[0] == "one" else "?" for s in w.I.segs_of(o.val, o.st)]
        c.require(isinstance(got, (list, tuple)) and len(got) == 3, "EACH", f.qual, f"{what}: the answers are {got}", key=f"{k.name} {kind} length")
        if not isinstance(got, (list, tuple)) or len(got) != 3:
            continue
        for i, (case, g) in enumerate(zip(cases, got)):
            if case == "alive" and (kind == "Cluster" or fam != "yarn" or w.cases_of(HOMES[i]) == "fine"):
                c.require(g is True, "ALIVE", f.qual, f"{what}: the answers are {got}", key=f"{k.name} {kind} alive")
            elif case in ("dead", "unstarted"):
                c.require(g is False, "DEAD", f.qual, f"{what}: the answers are {got}", key=f"{k.name} {kind} dead")
            elif case == "error" and kind == "Cluster":
                c.require(g is True, "ALIVE", f.qual, f"{what}: the answers are {got}", key=f"{k.name} {kind} error")
            else:
                c.require(g in (True, False), "EACH", f.qual, f"{what}: the answers are {got}", key=f"{k.name} {kind} other")


def run(c):
    c.rule("EACH", "one answer for each object, whatever becomes of the queries about the others; none when the batch system's status command failed")
    c.rule("ALIVE", "an object that the resource manager reports as alive, or says nothing about because it could not be asked, is answered alive, at its place")
    c.rule("DEAD", "an object that has ended, is not listed, or was never started is answered dead, at its place")
    base = c.prog.cls(DB, "DBBackendBase")
    n = 0
    for k in sorted(base.subclasses(), key=lambda x: x.qual):
        if k.name == "JobQueueBackend":
            continue
        fam = family(k)
        if fam is None or any(k.find_method(m) is None or k.find_method(m).cls is base for m in ("do_check_clusters", "do_check_workers")):
            raise Broken(f"no way to decide the status checks of {k.qual}")
        for kind in ("Cluster", "Worker"):
            states = ["unstarted", "alive", "dead"] + {"yarn": ["error"] if kind == "Cluster" else ["error", "gone"], "queue": ["error"]}.get(fam, [])
            for cases in itertools.product(states, repeat=3):
                for pick in range(7 if fam in ("yarn", "queue", "inprocess") and (c.tier != "quick" or len(set(cases)) > 1) else 1):
                    n += 1
                    check(c, k, kind, cases, pick)
    c.notes.append(f"{n} combinations of three objects")
    c.floor("EACH", 1500)
    c.floor("ALIVE", 1000)
    c.floor("DEAD", 1000)
