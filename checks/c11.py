"""C11: status and goal of clusters and workers only move forward, through pairs with a public status."""
from sa.query import where
from .dblife import NAMES, RANK, Life

STOPPING = ("CLOSING", "STOPPED", "FAILED")


def site(e):
    """the function outside the data manager that made the update"""
    st = [s for s in (e.stack or ()) if isinstance(s, str) and ".DataManager." not in s]
    return st[-1].split(".", 1)[-1] if st else where(e)


def run(c):
    c.rule("LEGAL", "no step lowers a status, changes a finished object, or turns a goal of stopping into a goal of running")
    c.rule("INIT", "a new cluster or worker is recorded as created, with a goal of running")
    c.rule("MAP", "every reachable combination of a cluster's status and goal has a defined public status")
    L = Life(c)
    rounds = L.fixpoint()
    c.notes.append(f"fixpoint after {rounds} rounds; roots: " + ", ".join(m.name for m in L.roots))
    c.analysed(*L.roots)
    c.paths += len(L.final)
    for k in ("Cluster", "Worker"):
        for p, e in L.created[k].items():
            c.require(p == ("CREATED", "RUNNING"), "INIT", where(e), f"a new {k.lower()} starts as {p}", key=f"{k} {p}")
    for (k, key, p, q), (X, e0, e1, m) in L.final.items():
        why = None
        if RANK[q[0]] < RANK[p[0]]:
            why = f"status goes back from {p[0]} to {q[0]}"
        elif RANK[p[0]] >= RANK["STOPPED"] and p != q:
            why = f"a finished {k.lower()} changes from {p} to {q}"
        elif p[1] in STOPPING and q[1] not in STOPPING:
            why = f"goal goes back from {p[1]} to {q[1]}"
        c.require(why is None, "LEGAL", where(e1), f"{k} in {site(e1)} (reached from {m.name}): {why}",
                  key=f"{k} {site(e1)} {(why or '').split(' from ')[0]}")
    c.floor("LEGAL", 40)
    tab = L.status_map()
    for p in sorted(L.reach["Cluster"]):
        c.require(p in tab, "MAP", "db_base.Cluster.model_status", f"a cluster with status {p[0]} and goal {p[1]} has no public status", key=str(p))
    c.floor("MAP", 8)
    c.assumptions += ["Tasks interleave only at await points (asyncio).",
                      "The work queue hands an object to one reconciler at a time (C24).",
                      "A backend's do_* coroutines do not write status or goal (checked: no writer found outside the roots)."]
