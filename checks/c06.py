"""C06: secrets reach no log record, error, argument list or foreign response (interprocedural taint)."""
import ast

from sa.interp import Interp
from sa.program import Broken
from sa.query import dict_keys, ext_name, is_log, kwarg, subterms, where
from sa.state import Obj
from sa.values import NONE, V, const, show
from .httpsurface import REQ, Surface, denied, is_get_cluster, path_name

SRV = "dask_gateway_server"
SECRET = {"token", "api_token", "auth_token", "tls_key", "password", "jupyterhub_api_token", "auth_key", "auth_header",
          "encrypt_keys"}
PRESENTED = {"options", "cookie", "cookies"}
KEEP = ("len", "bool", "type", "isinstance", "id", "hash", "callable", "hasattr")
KEYS = ("sorted", "list", "set", "tuple", "iter", "frozenset", "enumerate", "reversed", "max", "min")
SPAWN = ("asyncio.create_subprocess_exec", "asyncio.create_subprocess_shell", "subprocess.Popen", "subprocess.run",
         "subprocess.check_call", "subprocess.check_output", "subprocess.call", "os.execv", "os.execve", "os.execvp",
         "os.execvpe", "os.spawnv", "os.system")


class Taint:
    def __init__(self, c):
        self.c = c
        self.prog = c.prog
        self.params = {}    # func qual -> set of tainted parameter names
        self.rets = {}      # func qual -> set of positions (None: whole)
        self._versions = {}
        self.local = frozenset()
        self.dicts = set()  # functions that return a dict

    def is_path(self, owner, name):
        """a configuration trait of that name holds a file name, not the secret"""
        k = self.c.prog.classes.get(owner) if owner else None
        return name == "tls_key" and k is not None and any(
            isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)
            for b in k.mro() for n in b.node.body)

    def name(self, n, extra=()):
        return n in SECRET or n in extra

    def t(self, v, heap, f, extra=(), seen=None):
        """may the value v reveal a secret?"""
        seen = set() if seen is None else seen
        if not isinstance(v, V):
            if isinstance(v, (tuple, list)):
                return any(self.t(x, heap, f, extra, seen) for x in v)
            return False
        if v in seen:
            return False
        seen.add(v)
        k = v.k
        if v in self.local:
            return True
        if k in ("const", "enum", "ext", "builtin", "func", "cls", "cmp", "not", "len", "nonempty", "exc"):
            return False
        if k == "param":
            return self.is_param(v, f, extra)
        if k == "attr":
            if self.name(v.a[1], extra):
                owner = self.owner(v.a[0], f)
                return not self.is_path(owner, v.a[1])
            return False
        if k == "ref":
            ob = heap.get(v.a[0]) if heap else None
            return ob is not None and self.obj(ob, heap, f, extra, seen)
        if k == "item":
            b = v.a[0]
            if v.a[1].k == "const" and isinstance(v.a[1].a[0], str) and (
                    v.a[1].a[0].lower().replace("-", "_") in SECRET | {"authorization", "dask.pem", *extra}):
                return True
            p = self.summary(b)
            if p is not None and v.a[1].k == "const" and isinstance(v.a[1].a[0], int):
                return None in p or v.a[1].a[0] in p
            if b.k == "ref":
                return self.t(b, heap, f, extra, seen)
            return self.t(b, heap, f, extra, seen)
        if k == "call":
            callee = v.a[0]
            n = ext_name(callee) or ""
            if callee.k == "builtin":
                if callee.a[0] in KEEP:
                    return False
                if callee.a[0] in KEYS and v.a[1] and self.isdict(v.a[1][0], heap):
                    return any(self.t(x, heap, f, extra, seen) for x in self.keysof(v.a[1][0], heap))
            last = n.split(".")[-1] if n else (callee.a[1] if callee.k in ("attr", "bm") and len(callee.a) > 1 and isinstance(callee.a[1], str) else "")
            if callee.k == "ext" and last in ("getenv",) and v.a[1] and v.a[1][0].k == "const" and "TOKEN" in str(v.a[1][0].a[0]):
                return True
            if last in ("encrypt", "sha256", "hexdigest", "blake2b", "new_keypair"):
                return False
            if last == "join" and len(v.a[1]) == 1 and self.isdict(v.a[1][0], heap):
                return any(self.t(x, heap, f, extra, seen) for x in self.keysof(v.a[1][0], heap))
            p = self.summary(v)
            if p is not None:
                return bool(p)
            if callee.k == "attr":     # method of a value
                return self.t(callee.a[0], heap, f, extra, seen) or any(self.t(x, heap, f, extra, seen) for x in v.a[1]) \
                    if callee.a[1] not in ("get",) else self.t(callee.a[0], heap, f, extra, seen) or self.getkey(v, extra)
            if callee.k == "bm":
                return self.t(callee.a[0], heap, f, extra, seen) or any(self.t(x, heap, f, extra, seen) for x in v.a[1])
            if callee.k == "ext" and n.split(".")[0] not in ("base64", "json", "binascii", "urllib", "shlex", "codecs", "copy",
                                                             "itertools", "collections", "yarl", "aiohttp", "string", "pprint", "yaml"):
                return False
            if callee.k in ("ext", "cls", "builtin"):
                return any(self.t(x, heap, f, extra, seen) for x in v.a[1]) or any(
                    self.t(x, heap, f, extra, seen) for _, x in v.a[2])
            return False
        if k == "elem" and v.a and isinstance(v.a[0], V) and self.isdict(v.a[0], heap):
            return any(self.t(x, heap, f, extra, seen) for x in self.keysof(v.a[0], heap))
        return any(self.t(x, heap, f, extra, seen) for x in v.a if isinstance(x, (V, tuple)))

    def getkey(self, v, extra):
        a = v.a[1]
        return bool(a) and a[0].k == "const" and isinstance(a[0].a[0], str) and a[0].a[0].lower() in SECRET | {"authorization"} | set(extra)

    def isdict(self, v, heap):
        ob = heap.get(v.a[0]) if v.k == "ref" and heap else None
        return ob is not None and ob.kind == "dict" or v.k == "call" and self.summary(v) and self.retdict(v)

    def retdict(self, v):
        q = v.a[0].a[0] if v.a[0].k == "func" else v.a[0].a[1]
        return any(x in self.dicts for x in self.versions(q))

    def versions(self, q):
        """the function and its overrides"""
        if q not in self._versions:
            f = self.prog.funcs.get(q)
            out = {q}
            if f is not None and f.cls is not None:
                for k in f.cls.subclasses():
                    m = k.methods.get(f.name)
                    if m is not None:
                        out.add(m.qual)
            self._versions[q] = out
        return self._versions[q]

    def keysof(self, v, heap):
        ob = heap.get(v.a[0]) if v.k == "ref" and heap else None
        return dict_keys(ob)

    def obj(self, ob, heap, f, extra, seen):
        if ob.kind in ("inst", "closure", "coro", "partial"):
            return False
        from sa.query import _objparts
        if ob.kind == "list":
            for sg in ob.segs:
                if sg[0] == "sym" and self.isdict(sg[1], heap):
                    continue    # the elements are the names, not the values
                if any(self.t(x, heap, f, extra, seen) for x in sg[1:] if isinstance(x, (V, tuple))):
                    return True
            return False
        return any(self.t(x, heap, f, extra, seen) for x in _objparts(ob))

    def is_param(self, v, f, extra):
        if f is None:
            return False
        n = v.a[0]
        if n in self.params.get(f.qual, ()):
            return True
        return self.name(n, extra)

    def owner(self, base, f):
        if base.k == "param" and base.a[0] == "self" and f is not None and f.cls is not None:
            return f.cls.qual
        return None

    def summary(self, v):
        if v.k == "call" and v.a[0].k in ("func", "bound"):
            q = v.a[0].a[0] if v.a[0].k == "func" else v.a[0].a[1]
            return set().union(*[self.rets.get(x, set()) for x in self.versions(q)])
        return None


def run(c):
    c.rule("LOG", "no argument of a logging call may carry a secret, a presented credential or user options")
    c.rule("ERR", "no raised error may carry a secret")
    c.rule("ARGV", "no spawned process or generated command line may carry a secret in its arguments")
    c.rule("RESP", "a response carries a TLS key or certificate only for the requester's own running cluster, and never a token")
    T, sinks = fixpoint(c)
    funcs = [f for f in c.prog.funcs.values()]
    for (rid, w, key), bad in sorted(sinks.items()):
        c.require(not bad, rid, w, bad or "", key=key)
    for f in funcs:
        c.analysed(f)
    c.floor("LOG", 100)
    c.floor("ERR", 60)
    c.floor("ARGV", 8)
    responses(c, T)
    c.floor("RESP", 10)


def fixpoint(c, hook=None):
    T = Taint(c)
    c.assumptions.append("secrets are recognised at their sources: attributes, parameters and keys with the secret names, new TLS keys, and values flowing into them")
    funcs = [f for f in c.prog.funcs.values()]
    sinks = {}
    for it in range(40):
        before = (sum(map(len, T.params.values())), sum(map(len, T.rets.values())))
        sinks = {}
        for f in funcs:
            analyse(c, T, f, sinks, hook)
        if (sum(map(len, T.params.values())), sum(map(len, T.rets.values()))) == before:
            break
    else:
        raise Broken("taint summaries do not converge")
    return T, sinks


def analyse(c, T, f, sinks, hook=None):
    names = f.params() + [a.arg for a in f.node.args.kwonlyargs]
    extra_sources = set()

    def on_event(st, e):
        fn = e.func or f
        if e.kind not in ("call", "raise", "yield"):
            return
        T.local = frozenset(v for fr in st.frames.values() for n, v in fr.items()
                            if n in SECRET and n != "tls_key" and isinstance(v, V) and v.k in ("call", "attr", "item"))
        if hook is not None:
            hook(T, fn, e, note)
        if e.kind == "call":
            vals = list(e.args) + list(e.kwargs.values())
            if is_log(e) and (e.recv is not None or e.callee.k == "ext"):
                bad = [x for x in vals if T.t(x, e.heap, fn, PRESENTED)]
                note("LOG", e, f"{show(bad[0])} is logged" if bad else None)
                return
            n = ext_name(e.callee) or ""
            if n in SPAWN:
                bad = [x for x in e.args if T.t(x, e.heap, fn)]
                note("ARGV", e, f"{show(bad[0])} is passed on a command line" if bad else None)
            tf = e.get("target")
            if tf is not None:
                ps = tf.params() + [a.arg for a in tf.node.args.kwonlyargs]
                if e.recv is not None and ps and ps[0] in ("self", "cls"):
                    ps = ps[1:]
                for p, x in list(zip(ps, e.args)) + list(e.kwargs.items()):
                    if isinstance(x, V) and p not in T.params.get(tf.qual, ()) and T.t(x, e.heap, fn):
                        T.params.setdefault(tf.qual, set()).add(p)
                for p in ("cmd", "command", "args", "argv"):
                    x = e.kwargs.get(p) or dict(zip(ps, e.args)).get(p)
                    if isinstance(x, V):
                        b = T.t(x, e.heap, fn)
                        note("ARGV", e, f"{show(x)} is passed on a command line" if b else None)
        elif e.kind == "raise":
            x = e.exc
            parts = [x]
            if x is not None and x.k == "ref":
                ob = e.heap.get(x.a[0])
                if ob is not None:
                    from sa.query import _objparts
                    parts = [y for y in _objparts(ob) if isinstance(y, V)]
            elif x is not None and x.k == "call":
                parts = list(x.a[1]) + [y for _, y in x.a[2]]
            else:
                return
            bad = [y for y in parts if T.t(y, e.heap, fn)]
            note("ERR", e, f"{show(bad[0])} appears in an error" if bad else None)

    def note(rid, e, bad):
        k = (rid, where(e), (e.func or f).qual)
        sinks[k] = sinks.get(k) or bad

    def raises(I, st, e):
        return None if is_log(e) else ["Exception", "asyncio.CancelledError"]

    I = Interp(c.prog, c.types, opaque=lambda fn, r: True, raises=raises, on_event=on_event)
    args = [V("param", x) for x in names]
    if f.cls is not None and names and names[0] == "self":
        S = V("param", "self")
        I.term_types[S] = f.cls.qual
        outs = I.run_function(f, args[1:], selfv=S)
    else:
        outs = I.run_function(f, args)
    T.local = frozenset()
    c.paths += len(outs)
    for o in outs:
        if o.kind != "ret" or o.val is None:
            continue
        v, h = o.val, o.st.heap
        new = set()
        if v.k == "tuple":
            for i, x in enumerate(v.a):
                if T.t(x, h, f):
                    new.add(i)
            if f.name.startswith("get_") and "cmd" in f.name and f.name.index("cmd") < 12 or "command" in f.name:
                cmdnote(T, f, v.a[0], h, sinks)
        else:
            p = T.summary(v)
            if p is not None:      # what another function returned, part by part
                new |= p
            elif T.t(v, h, f):
                new.add(None)
            if v.k == "ref" and h.get(v.a[0]) is not None and h.get(v.a[0]).kind == "dict" or \
                    v.k == "call" and v.a[0].k in ("func", "bound") and T.retdict(v):
                T.dicts.add(f.qual)
            if f.name.startswith("get_") and ("command" in f.name or f.name.endswith("_cmd")):
                cmdnote(T, f, v, h, sinks)
        if f.name in ("new_keypair",):
            new = {1}
        if new - T.rets.get(f.qual, set()):
            T.rets.setdefault(f.qual, set()).update(new)


def cmdnote(T, f, v, h, sinks):
    k = ("ARGV", f"{f.module.rel()}:{f.line} ({f.qual.split('.', 1)[-1]})", f.qual)
    bad = T.t(v, h, f)
    sinks[k] = sinks.get(k) or (f"the generated command {show(v)} carries a secret" if bad else None)


def serialise(c):
    k = c.prog.cls(SRV + ".models", "Cluster")
    n = 0
    for kk in [k] + [x for x in k.subclasses() if x is not k]:
        f = kk.methods.get("to_dict")
        if f is None:
            continue
        me = V("param", "self")
        I = Interp(c.prog, c.types)
        I.term_types[me] = kk.qual
        for o in I.run_function(f, [V("param", x) for x in f.params()[1:]], selfv=me):
            n += 1
            bad = None
            for x in subterms(o.val, o.st.heap) if o.val is not None else ():
                if x.k == "attr" and x.a[0] is me and x.a[1] in SECRET | {"tls_credentials"}:
                    if x.a[1] != "tls_key":
                        bad = f"{show(x)} is part of every cluster description"
                    elif not running_fact(o.st.facts, me):
                        bad = f"{show(x)} is disclosed although the cluster may not be running"
            c.require(bad is None, "RESP", f"{f.module.rel()}:{f.line} ({kk.name}.to_dict)", bad or "", key=f"{kk.name}.to_dict")
    if not n:
        raise Broken("Cluster.to_dict not found")


def responses(c, T):
    serialise(c)
    S = Surface(c.prog, c.types)
    for r, paths in S.paths.items():
        for p in paths:
            c.paths += 1
            v = p.out.val
            if p.out.kind != "ret" or v is None:
                continue
            heap = p.out.st.heap
            user = None
            for e in p.events:
                if e.kind == "setitem" and e.obj is REQ and e.key is const("user"):
                    user = e.value
            bad = None
            for x in subterms(v, heap):
                if x.k == "call" and x.a[0].k in ("attr", "bound") and (
                        x.a[0].a[1] if x.a[0].k == "attr" else x.a[0].a[1].split(".")[-1]) == "to_dict":
                    cl = x.a[0].a[0]
                    if not (kwarg(x, "full", 0) is const(False)) and not owned(p.facts, cl, user):
                        bad = f"{show(x)} is sent to a user who may not own the cluster"
                if x.k == "attr" and x.a[1] in ("token", "api_token", "password"):
                    bad = f"{show(x)} is sent in a response"
                if x.k == "attr" and x.a[1] in ("tls_key", "tls_cert", "tls_credentials"):
                    cl = x.a[0]
                    own = owned(p.facts, cl, user)
                    running = running_fact(p.facts, cl)
                    if not own:
                        bad = f"{show(x)} is sent to a user who may not own the cluster"
                    elif not running:
                        bad = f"{show(x)} is sent although the cluster may not be running"
            c.require(bad is None, "RESP", r.where, bad or "", key=f"{r}")


def owned(facts, cl, user):
    """facts say that the cluster belongs to the user, or it comes from a listing of the user's clusters"""
    if user is None:
        return False
    for (a, b), r in facts.rel.items():
        if r == frozenset("="):
            for x, y in ((a, b), (b, a)):
                if x.k == "attr" and x.a[0] is cl and x.a[1] == "username" and y.k == "attr" and y.a[0] is user and y.a[1] == "name":
                    return True
    for x in subterms(cl):
        if x.k == "call" and ("list_clusters" in show(x.a[0])):
            u = kwarg(x, "username", 0)
            if u is not None and u.k == "attr" and u.a[0] is user and u.a[1] == "name":
                return True
    return False


def running_fact(facts, cl):
    for t, d in facts.dom.items():
        if t.k == "attr" and t.a[0] is cl and t.a[1] == "status" and d and all(str(show(x) if isinstance(x, V) else x).endswith("RUNNING") or x == 3 for x in d):
            return True
    for (a, b), r in facts.rel.items():
        for x, y in ((a, b), (b, a)):
            if x.k == "attr" and x.a[0] is cl and x.a[1] == "status" and y.k == "enum" and show(y).endswith("RUNNING") and r == frozenset("="):
                return True
    return False
