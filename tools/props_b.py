from props_a import p, S, C, G, H, P
D = S+"backends/db_base.py"
p("C11", "Clusters and workers only move forward through a legal lifecycle",
  "In the database-backed backends a cluster's or worker's recorded status never moves backwards, and once it is stopped or failed neither its status nor its goal changes again; a goal of stopping is never turned back into a goal of running. At every instant the recorded status and goal of a cluster form a combination that has a defined public status, so a query about it never fails, whatever requests, heartbeats and background checks interleave.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests, heartbeats, status checks, timeouts and reconciliation at await points",
  "The lifecycle tests run one request at a time, are largely outside the stable set, and never stop a cluster during a pending status check.",
  [D], [("status and goal writes", D), ("public status table", D)],
  ["status of a cluster over time", "GET cluster during any transition"])
p("C12", "No lifecycle change is forgotten by the reconcilers",
  "In the database-backed backends, whenever the goal of a cluster or worker changes, or new start information arrives for it, the object is queued for reconciliation afterwards; an object whose handling failed is queued again after a growing delay, and the handling of an object is always marked as finished. No exception raised by a backend, a status query or the database ends a reconciler or a background check loop; they end only at shutdown.",
  ["schedules", "fault_sequences"], "every goal change, every exception at every step",
  "Tests inject few failures, and a forgotten queue entry shows only as a cluster that hangs.",
  [D, S+"workqueue.py"], [("goal updates and queue insertions", D), ("background loops", D)],
  ["progress of a cluster to its goal"])
p("C13", "The in-memory view and the database agree",
  "Every change to a persisted attribute of a cluster or worker is written to the database in the same step that changes it in memory, with the same value; a row that is inserted is inserted with the same values as its memory object. Creating or expiring a cluster updates all lookup tables together, and only finished clusters older than the retention age are expired.",
  ["histories", "crash_points"], "every update site, every set of attributes updated",
  "The database tests are not in the stable set and sample a few attributes.",
  [D], [("data manager", D)],
  ["database rows against the live objects"])
p("C14", "A gateway restart resumes every cluster that was still active",
  "After a restart on an existing database, every cluster and worker row is loaded with all its persisted attributes, and every one that had not finished is queued for reconciliation, after backend-specific initialisation has completed. A cluster that was running keeps running: it gets a fresh heartbeat deadline and its routes are published again; one that had not yet been submitted is started.",
  ["crash_points", "histories"], "every crash point of the previous gateway, every database content",
  "One restart test exists, outside the stable set, with a running cluster only.",
  [D], [("loading", D), ("set-up order", D)],
  ["clusters after a restart"])
p("C15", "Stopping a cluster stops all of it, removes its routes, and completes",
  "In the database-backed backends, when a cluster is stopped or has failed, every worker that has not finished is told to stop, the cluster's scheduler is stopped only after the workers are, and the cluster is recorded as finished with a stop time only after the backend was asked to stop it, if it had ever been submitted, and after its routes were removed. An error raised while stopping does not prevent completion, anyone waiting for the cluster to start or stop is woken, and repeated stop requests have no further effect.",
  ["schedules", "histories", "fault_sequences"], "every state in which a stop can arrive, every failure during the stop",
  "Tests stop clusters in few states and without failures of the backend.",
  [D], [("closing and stopping transitions", D)],
  ["backend stop calls", "route events", "final status"])
p("C16", "A failed or timed-out start is recorded, cleaned up, and never left dangling",
  "In the database-backed backends, a start attempt of a cluster or worker is bounded by the configured start timeout; if it fails or times out the object is recorded as submitted with a goal of failure and queued, so that whatever was already created gets stopped. Every intermediate state the backend reports during a start is persisted before the next step of the start runs, so that the later stop acts on the latest state.",
  ["fault_sequences", "crash_points"], "every failure point during a start",
  "Failures at each intermediate step are sampled with one in-process test backend outside the stable set.",
  [D], [("cluster and worker submission", D)],
  ["status after a failing start", "state passed to the stop call"])
p("C17", "Unhealthy clusters and workers are detected and failed",
  "In the database-backed backends, a running cluster whose last heartbeat is older than the heartbeat timeout, a submitted cluster or worker that has not started within its start timeout, one that the backend reports as no longer alive while it is starting, and a cluster whose workers repeatedly fail to start are each given a goal of failure and queued. Nothing else fails a cluster in the background: objects that are within their deadlines, or already stopping, are left alone.",
  ["schedules", "histories"], "every combination of status, goal and deadline",
  "Timeouts need long-running clusters; the tests cover three combinations and are outside the stable set.",
  [D], [("timeout and status check loops", D)],
  ["goal of each cluster after a check"])
p("C18", "A cluster never gets more workers than its limit",
  "The number of workers the gateway is willing to run for a cluster never exceeds the worker limit of that cluster: a scale or adapt request above the limit is reduced to it and the client is told so, a count in a heartbeat is reduced to it, and negative or non-integer scale requests are refused. The limit of a cluster is the smallest of the configured one and those its core and memory limits allow beside its scheduler, an unset limit means unlimited, and a cluster whose scheduler alone takes more than its core or memory limit is refused.",
  ["inputs", "configurations"], "every requested count, minimum and maximum, every limit configuration",
  "Tests use a handful of counts and one limit.",
  [S+"routes.py", S+"backends/base.py", D, S+"backends/kubernetes/backend.py"],
  [("scale and adapt endpoints", S+"routes.py"), ("heartbeat count", D), ("limit computation", S+"backends/base.py")],
  ["message forwarded to the scheduler", "number of worker starts"])
p("C19", "Heartbeats reconcile the worker set and leave other workers alone",
  "On each heartbeat in the database-backed backends, a worker reported active or closing is recorded as running, one reported closed gets a goal of stopped when its closing was announced or else of failure, and finished workers are never changed; heartbeats of a cluster that is stopping or unknown are ignored. Only workers that were created or submitted, have not connected and are not being stopped already are cancelled when fewer workers are wanted: those not submitted yet first, and just as many as the active and waiting workers exceed the requested count. New workers are created exactly up to the requested count, and when a worker stops whose closing the scheduler had not announced, its running cluster is looked at again so that it is replaced.",
  ["inputs", "histories", "schedules"], "every heartbeat content against every worker state",
  "The scheduler in the tests reports a few well-formed sequences.",
  [D], [("heartbeat handler and scaling", D)],
  ["worker goals and statuses after a heartbeat"])
p("C20", "Every proxy receives the complete, ordered sequence of route changes",
  "The gateway gives each route change the next identifier and hands every proxy watcher all changes after the one it last saw, in order and without gaps or repeats; a watcher whose position is no longer (or not yet) in the log is told to resynchronise from a snapshot, which carries the identifier it is current for. The log is pruned only after its size bound is reached, and a watcher that disconnects or lags never blocks route changes or other watchers.",
  ["schedules", "histories"], "every interleaving of route changes, watchers and pruning",
  "Tests watch one proxy with a few changes; pruning and reconnect at each position are not reached.",
  [S+"proxy/core.py"], [("event log and watch endpoint", S+"proxy/core.py")],
  ["stream of /api/v1/routes"])
p("C21", "The proxy applies route changes under lock and resynchronises when lost",
  "In the proxy, the route tables are read and written only while holding their lock, a full snapshot replaces exactly the previous content, and each change event is applied exactly once in the order received. After a lost connection the proxy resumes from the last identifier it applied or fetches a full snapshot first; when the gateway says that identifier is gone it always fetches a full snapshot before watching again.",
  ["schedules", "fault_sequences"], "every interleaving of connections and route updates, every connection loss",
  "The Go tests cover the route trie only, and the Python tests one proxy without connection loss.",
  [G+"cmd/dask-gateway-proxy/main.go", G+"pkg/router/router.go"],
  [("route watch client and locks", G+"cmd/dask-gateway-proxy/main.go")],
  ["routing of a request during an update"])
p("C22", "Every connection the proxy accepts is closed or handed on",
  "The proxy closes every connection it accepts on every path, or hands it to a handler that does; data is forwarded to a scheduler only for a server name with a route, and nothing a client sends, nor a failing accept or dial, stops the proxy or affects other connections.",
  ["fault_sequences", "inputs"], "every error path of a connection",
  "Tests open well-formed connections only.",
  [G+"cmd/dask-gateway-proxy/main.go", G+"pkg/sni/sni.go"],
  [("connection handling", G+"cmd/dask-gateway-proxy/main.go")],
  ["open file descriptors of the proxy", "proxy liveness"])
p("C23", "A cluster is routed exactly while it runs",
  "In the database-backed backends the scheduler route of a cluster, and its dashboard route if it has a dashboard, is published only after the scheduler has reported its addresses, under the cluster's own name and with the cluster's own addresses, and every route that was published is removed before the cluster is recorded as finished.",
  ["schedules", "histories"], "every lifecycle history",
  "Tests look at routes of one healthy cluster.",
  [D, S+"proxy/core.py"], [("route publication and removal", D)],
  ["routes visible to proxies"])
p("C24", "The work queue serialises work per item, loses none, and wakes its waiters",
  "An item in the work queue is handed to at most one worker at a time; an item added while it is being processed is handed out again after processing ends; adding an item twice before it is handed out yields one hand-out. While items are available no waiting worker sleeps forever, even if waiters are cancelled, and closing the queue ends every present and future wait. Everything that handles items delays one the longer the more often its handling has failed in a row, and not once it has succeeded.",
  ["schedules"], "every interleaving of put, delayed put, get, cancellation, done and close",
  "The tests run a few scripted sequences.",
  [S+"workqueue.py"], [("work queue", S+"workqueue.py")],
  ["sequence of items handed out"])
