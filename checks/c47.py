"""C47: extra pod and container settings are merged without losing either side.

The merge is followed over every pair of small JSON shapes, and pods are made with and
without extra settings and compared."""
import itertools

from sa.interp import Interp
from sa.program import Broken
from sa.state import Obj
from sa.values import const, show
from .optw import Unknown, get, put, same
from .pods import ANNOTATIONS, K8S, LABELS, Pods, merged

LEAVES = [None, False, 0, "", "s", 2.5, True]
NONE_ = object()


def shapes(depth):
    """JSON values, the absence of one included"""
    yield NONE_
    yield from LEAVES if depth == 2 else LEAVES[:5]
    yield []
    yield ["x", {"n": 1}]
    yield {}
    if depth:
        yield {"p": 1}
        yield {"p": {"q": 1}, "l": ["y"]}
        yield {"p": None, "l": []}
        yield {"l": [{"n": 2}], "z": {"w": {"v": 3}}}




def mark(v, m):
    """leaves that carry their side"""
    if isinstance(v, dict):
        return {k: mark(x, m) for k, x in v.items()}
    if isinstance(v, list):
        return [mark(x, m) for x in v]
    return v + m if isinstance(v, str) and v else v * 10 + len(m) if type(v) is int and v else v


def merges(c):
    f = c.prog.modules[K8S + "utils"]
    fs = [x for x in c.prog.funcs.values() if x.module.name == K8S + "utils" and x.name == "merge_json_objects"]
    if not fs:
        raise Broken("there is no merge of JSON objects")
    f = fs[0]
    I = Interp(c.prog, c.types)
    I.recursion = 6
    pairs = [({} if x is NONE_ else {"k": x}, {} if y is NONE_ else {"k": y}) for x in shapes(2) for y in shapes(2)]
    deep = [({"a": {"b": {} if x is NONE_ else {"k": x}, "keep": 1}}, {"a": {"b": {} if y is NONE_ else {"k": y}, "new": 2}}) for x in shapes(0) for y in shapes(0)]
    wide = [({"k": 1, "l": ["x"], "m": {"p": 1}, "n": 4}, {"l": ["y"], "m": {"q": 2}, "k": None, "o": 5})]
    for a, b in pairs + deep + wide:
        a, b = mark(a, "!"), mark(b, "??")
        st = I.new_state()
        A, B = put(st, a), put(st, b)
        outs = I.run_function(f, [A, B], st=st)
        what = f"merging {b} into {a}"
        c.require(outs, "MERGE", f.qual, f"{what}: no outcome", key="none")
        for o in outs:
            c.paths += 1
            if not c.require(o.kind == "ret", "MERGE", f.qual, f"{what}: fails", key="fails"):
                continue
            try:
                v, a2, b2 = get(o.st, o.val), get(o.st, A), get(o.st, B)
            except Unknown as e:
                raise Broken(f"{what}: the outcome is not known ({e})")
            c.require(same(v, merged(a, b)), "MERGE", f.qual, f"{what}: yields {v}, not {merged(a, b)}", key="merge")
            c.require(same(a2, a) and same(b2, b), "INTACT", f.qual, f"{what}: alters its inputs to {a2} and {b2}", key="inputs")
    c.analysed(f, *I.inlined)


EXTRA_POD = {"nodeSelector": {"gpu": "yes"}, "volumes": [{"name": "scratch", "emptyDir": {}}], "restartPolicy": "Always", "serviceAccountName": "dask", "containers": [{"name": "side"}], "automountServiceAccountToken": True, "priority": 0, "imagePullSecrets": [{"name": "t"}], "hostNetwork": False}
EXTRA_CONTAINER = {"env": [{"name": "X", "value": "1"}], "resources": {"limits": {"gpu": "1"}, "requests": {"cpu": "9"}}, "volumeMounts": [{"name": "scratch", "mountPath": "/s"}], "workingDir": "/w", "image": "other", "stdin": False, "imagePullPolicy": "Never", "readinessProbe": {"periodSeconds": 9, "httpGet": {"scheme": "HTTPS"}}, "ports": []}
SETTINGS = {"image_pull_secrets": [{"name": "pull"}], "image_pull_policy": "Always"}
EXTRA_LABELS = {"team": "a", "app": "mine"}
EXTRA_ANNOTATIONS = {"note": "mine", "more": "x"}


def pods(c):
    for worker in (True, False):
        own, other = ("worker", "scheduler") if worker else ("scheduler", "worker")
        plain = Pods(c, SETTINGS).pod(worker)
        if len(plain) != 1:
            raise Broken("a pod is not known")
        base = plain[0][1]
        for n, v in (("labels", LABELS), ("annotations", ANNOTATIONS)):
            c.require(all(base["metadata"].get(n, {}).get(k) == x for k, x in v.items()), "POD", K8S + "controller.KubeController.make_pod", f"a {own}'s pod lacks the common {n}: {base['metadata'].get(n)}", key=f"common {n}")
        for use in itertools.product((False, True), repeat=4):
            conf = dict(SETTINGS)
            for on, n, v in zip(use, ("pod_config", "container_config", "pod_annotations", "pod_labels"), (EXTRA_POD, EXTRA_CONTAINER, EXTRA_ANNOTATIONS, EXTRA_LABELS)):
                if on:
                    conf[f"{own}_extra_{n}"] = v
                    conf[f"{other}_extra_{n}"] = {"wrong": "one"}
            p = Pods(c, conf)
            before = p.shared(p.st)
            what = f"a {own}'s pod with extra {', '.join(n for on, n in zip(use, ('pod settings', 'container settings', 'annotations', 'labels')) if on) or 'nothing'}"
            q = p.k.find_method("make_pod").qual
            want = merged(base, {})
            spec = {**base["spec"], "containers": [merged(base["spec"]["containers"][0], EXTRA_CONTAINER if use[1] else {})]}
            want["spec"] = merged(spec, EXTRA_POD if use[0] else {})
            want["metadata"] = merged(base["metadata"], {"annotations": EXTRA_ANNOTATIONS if use[2] else {}, "labels": EXTRA_LABELS if use[3] else {}})
            for st, got in p.pod(worker):
                for part in sorted(set(want) | set(got)):
                    for k in sorted(set(want[part]) | set(got.get(part, {}))) if isinstance(want.get(part), dict) else [None]:
                        x, y = (got.get(part), want[part]) if k is None else (got.get(part, {}).get(k), want[part].get(k))
                        c.require(equivalent(x, y), "POD", q, f"{what}: its {part}{'.' + k if k else ''} is {x}, not {y}", key=f"{part} {k}")
                c.require(same(p.shared(st), before), "INTACT", q, f"{what}: alters what other pods are made of", key="shared")
                # a second pod of another kind, from the same configuration
                for st2, again in p.pod(worker, st):
                    c.require(equivalent(again, got), "INTACT", q, f"{what}: made again it differs: {again}", key="again")


def equivalent(x, y):
    """equal, the order of environment variables and of volumes aside"""
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(equivalent(x[k], y[k]) for k in x)
    if isinstance(x, list) and isinstance(y, list) and all(isinstance(i, dict) and "name" in i for i in x + y):
        return sorted(map(repr, x)) == sorted(map(repr, y)) or len(x) == len(y) and all(any(equivalent(i, j) for j in y) for i in x)
    return same(x, y)


def run(c):
    c.rule("MERGE", "mappings are merged at every depth, lists appended, and anything else replaced by what is provided")
    c.rule("POD", "a pod with extra settings is the pod without them merged with them, in its spec, its container, its labels and its annotations")
    c.rule("INTACT", "neither side of a merge, nor what later pods are made of, is altered")
    merges(c)
    pods(c)
    for r, n in (("MERGE", 300), ("POD", 200), ("INTACT", 300)):
        c.floor(r, n)
