from props_a import p, S, C, G, H, P
K = S+"backends/kubernetes/"
p("C25", "Every Kubernetes object a cluster owns is tied to it and created idempotently",
  "Every pod, service, secret and route object the controller creates for a cluster carries that cluster's labels and an owner reference to the cluster object or to its scheduler pod, which the cluster object owns, so that deleting the cluster object removes all of them. During a reconciliation, creating an object that already exists and deleting one that is already gone count as success; any other API error is reported and the reconciliation is retried.",
  ["fault_sequences", "histories"], "every created object, every API error",
  "The Kubernetes tests need a cluster and are not in the stable set.",
  [K+"controller.py"], [("object creation and deletion helpers", K+"controller.py"), ("object builders", K+"controller.py")],
  ["objects left after a cluster is deleted"])
p("C26", "The Kubernetes controller's cluster phases follow the lifecycle",
  "On Kubernetes a cluster's phase goes from pending to running only once the scheduler pod is running and its routes and service exist, and to stopped or failed only after its scheduler and credentials were removed; a cluster whose scheduler pod terminated, or that asked to be shut down, is brought to stopped or failed, never back to running. A cluster that reached a final phase is never given new objects, and it is deleted only after it has been in that phase for the retention time.",
  ["histories", "schedules", "fault_sequences"], "every sequence of watch events and reconciliations",
  "The Kubernetes tests need a cluster and are not in the stable set.",
  [K+"controller.py"], [("phase handlers", K+"controller.py")],
  ["status of the cluster object over time"])
p("C27", "The Kubernetes controller scales exactly to the requested replicas",
  "On Kubernetes the controller creates only as many workers as are missing between the requested number and those it already knows or has just created, and to scale down it removes only workers that have not started yet, and at most as many as are surplus. Until the watch has reported the outcome of its own creations and deletions (or ten minutes have passed) it creates and removes no further workers, and calls that fail are not waited for, so that a delayed watch never causes duplicate workers and a failed call never holds up scaling.",
  ["schedules", "histories"], "every interleaving of reconciliation, watch events and API failures",
  "The Kubernetes tests need a cluster and are not in the stable set; watch delays are not controlled.",
  [K+"controller.py"], [("worker bookkeeping and scaling", K+"controller.py")],
  ["pod create and delete calls"])
p("C28", "Kubernetes watchers never miss a change for good",
  "Each watcher lists before it watches, resumes from the version it has seen, lists again after an expired version, an error or a failed watch, and derives deletions that happened in between from the difference to its previous listing. It counts as started once its first listing has been handled. Neither a malformed event nor a failing watch ends a watcher, except at shutdown. Each request the controller makes to the Kubernetes API first waits for the rate limiter, and is then passed on unchanged.",
  ["fault_sequences", "schedules"], "every sequence of watch errors and events",
  "The Kubernetes tests need a cluster; there is no fault injection on watches.",
  [K+"utils.py", K+"controller.py", K+"backend.py"], [("informer", K+"utils.py")],
  ["events delivered to the handlers"])
p("C29", "The Kubernetes API server's cluster cache mirrors the cluster objects",
  "On Kubernetes the gateway's view of clusters is updated on every addition, change and deletion in both its global and its per-user index together, so that a listing shows exactly the user's existing clusters. A synchronisation that fails is tried again. Requests waiting for a cluster to start are woken when it leaves the pending state or is deleted, and then see its current record.",
  ["histories", "schedules"], "every sequence of watch events and requests",
  "The Kubernetes tests need a cluster and are not in the stable set.",
  [K+"backend.py"], [("cluster informer handlers", K+"backend.py")],
  ["listing and get results"])
p("C30", "The Helm chart grants what the servers use and configures what they read",
  "The chart's roles for the API server and the controller grant every Kubernetes operation those components perform, and grant the API server none on secrets beyond reading and on pods none at all. Every configuration value the chart's generated configuration sets exists on the server and has a value it takes, and documented chart values reach, unchanged, the setting or object they are documented to set. Components refer to each other under the names, ports and paths the chart and the servers give them, so that requests under the configured prefix reach the API server and the clusters; a JupyterHub token given in the values is only put into a secret.",
  ["configurations"], "every Kubernetes API call in the code, every configured trait",
  "Chart tests render the templates but do not compare them with the code.",
  [H+"templates/gateway/rbac.yaml", H+"templates/controller/rbac.yaml", H+"templates/gateway/configmap.yaml", H+"templates/controller/configmap.yaml", K+"backend.py", K+"controller.py"],
  [("roles", H+"templates/controller/rbac.yaml"), ("API calls", K+"controller.py")],
  ["Kubernetes authorization errors"])
p("C31", "Client, scheduler plugin, server and proxy agree on the wire contract",
  "Every request the client, the scheduler plugin, the job launcher client and the proxy send uses a method and path the receiver serves, and every field the receiver requires is present in what the sender produces, under the same name; the same holds for replies, environment variables and command line flags, for the server name a client's connection asks for, and for the routes the proxy makes of what the gateway tells it. Every public cluster status the server can report is understood by the client.",
  ["programs", "configurations"], "every request and reply constructor against every consumer",
  "Tests exercise the common requests with matching versions of both ends; error and rare replies are not compared.",
  [C+"client.py", C+"scheduler_preload.py", S+"routes.py", S+"models.py", S+"proxy/core.py", S+"backends/db_base.py", S+"backends/kubernetes/backend.py", G+"cmd/dask-gateway-proxy/main.go"],
  [("HTTP clients", C), ("route tables", S+"routes.py"), ("command line", S+"backends/db_base.py")],
  ["HTTP requests on the wire"])
p("C32", "Cluster options reach the configuration only after validation",
  "An option value is used only after the option's declared check accepted it: unknown options are refused, integers and floats are within their bounds, selections are one of the declared choices, mappings and strings have the right type, and nothing is accepted merely because it compares as neither too small nor too large. A rejected option leads to a client error and no cluster is created; the validated values, and nothing else, determine the overrides the cluster's configuration is made from; everything else in it is as the gateway is configured. (A Boolean counts as the integer it is in Python, at both ends.)",
  ["inputs"], "every option value of every JSON type",
  "Tests use a few values per option type.",
  [S+"options.py", S+"backends/base.py"], [("option fields", S+"options.py"), ("option processing", S+"backends/base.py")],
  ["HTTP status of a cluster creation"])
p("C33", "The client's option checks agree with the server's",
  "For each kind of option the server can declare, the client builds a matching field from its published specification and applies the same acceptance rule and the same conversion, so that a value the client accepts is one the server accepts (and takes unchanged), and what the client submits is what its options hold. The published specification contains all the parameters the check needs.",
  ["inputs", "configurations"], "every option kind, every declared parameter, every value",
  "Tests compare both ends on a few declarations.",
  [S+"options.py", C+"options.py"], [("server fields", S+"options.py"), ("client fields", C+"options.py")],
  ["client-side validation error"])
p("C34", "A cluster object shuts its cluster down exactly when it owns it",
  "A client-side cluster object asks the gateway to stop its remote cluster when it is closed, left as a context manager or, unless asynchronous, garbage collected or still open at interpreter exit, exactly if it was told to shut down on close (an explicit argument of close decides instead; `shutdown` always does) and its cluster's name is known. Objects that connect to an existing cluster don't by default, newly started ones do. A start that fails, is interrupted or is cancelled by a close after the submission was answered closes in the same way. Closing a closed object again is harmless; a failing shutdown request or client doesn't fail the close, and every close ends the object's start and watch tasks, its scheduler connection, its clients and the HTTP session.",
  ["histories", "fault_sequences"], "every way of closing, every failure during start or close",
  "Tests close healthy clusters in the usual way.",
  [C+"client.py"], [("cluster object lifetime", C+"client.py")],
  ["stop requests sent to the gateway"])
p("C35", "The client maps every reply to its documented outcome, retrying auth once",
  "On an authentication challenge (status 401) the client asks its authenticator for credentials and repeats the request exactly once, with the same method, URL and body, and hands the reply to the authenticator; no request without a challenge is repeated and none carries credentials before it. Every reply of status 400 or above is raised, 404 and 422 as ValueError, 409 as GatewayClusterError, 500 as GatewayServerError, each with the error text of the reply, and every other as the HTTP error; no error reply is returned as data and no other reply is raised. Each operation sends its request to the gateway's address only, names its cluster in the path, and returns what the reply reports; waiting for a start ends when the cluster runs, and fails when it has failed or stopped. The authenticators send the configured user and password, API token or Kerberos response and nothing else, each in its documented scheme.",
  ["inputs", "fault_sequences"], "every reply status of every request",
  "Tests see a few error statuses on a few requests.",
  [C+"client.py", C+"auth.py"], [("request helper", C+"client.py"), ("authenticators", C+"auth.py")],
  ["exceptions raised to the caller"])
p("C36", "The scheduler plugin reports its workers truthfully",
  "Every heartbeat of the scheduler plugin reports the currently requested count and puts each worker in exactly the category it is in: active, closing when it is about to be retired because there are more workers than requested, or closed, which every worker that left since the last accepted heartbeat is reported as; closures are not forgotten when a heartbeat fails, and exactly the workers the gateway accepted as closing are retired and closed. A heartbeat that the gateway answers with an error counts as failed. The heartbeat loop survives every failure, never waits longer than the heartbeat period, and reports a changed count without waiting for the period to end, also when it changes while a heartbeat is being sent.",
  ["fault_sequences", "schedules"], "every heartbeat failure, every worker arrival and departure",
  "Tests do not lose heartbeats.",
  [C+"scheduler_preload.py"], [("heartbeat", C+"scheduler_preload.py")],
  ["heartbeat bodies"])
p("C37", "Scaling keeps to the requested count and bounds",
  "After a scale request the scheduler plugin's requested count is exactly the requested number and adaptive scaling is off. While adaptive scaling is on, every count it requests is within the most recent minimum and maximum; it follows a higher recommendation of the scheduler at once, goes down only as far as the highest recommendation of the last adaptive window of checks, and follows a recommendation that stays the same for a whole window. A new adapt request replaces the bounds, there is never more than one adaptive loop, and neither failures nor anything but a scale request or turning adaptive scaling off ends it.",
  ["histories", "schedules"], "every sequence of scale and adapt requests",
  "Tests run a few scale sequences.",
  [C+"scheduler_preload.py"], [("scaling", C+"scheduler_preload.py")],
  ["count reported in heartbeats"])
p("C38", "A cluster is shut down for idleness only after the whole idle timeout",
  "With an idle timeout configured, the scheduler plugin asks the gateway to shut the cluster down only when no worker is processing a task, no task waits for a worker, and the last task transition (or, without any, the start of the scheduler) is longer ago than the timeout; then it does ask, by an authenticated request to delete its own cluster, and asks again if that fails. Without an idle timeout it never shuts the cluster down for idleness.",
  ["schedules", "inputs"], "every activity pattern",
  "Tests sample one idle cluster.",
  [C+"scheduler_preload.py"], [("idle check", C+"scheduler_preload.py")],
  ["DELETE request by the scheduler"])
p("C39", "The job launcher answers each request once, within its staging area",
  "The job launcher runs the requested command as given, without a shell, and ends every request with exactly one reply carrying the command's exit status and output, or the reason why it was not run, or else fails itself; a start request first puts the given files into a new staging directory accessible to its user only, and does not run the command if that fails; a stop request runs the cancel command whether or not the staging directory exists or can be removed, and nothing else is written or removed. The gateway takes a failed launcher, a failure reply and a non-zero exit status of the submission for a failure, runs the launcher as the cluster's user only, and cancels exactly the job that was submitted.",
  ["inputs", "fault_sequences"], "every request, every file system and command failure",
  "Tests need a job queue system and are not in the stable set.",
  [S+"backends/jobqueue/launcher.py", S+"backends/jobqueue/base.py"], [("launcher", S+"backends/jobqueue/launcher.py")],
  ["reply on standard output", "cancel commands run"])
p("C40", "Backend status checks answer for every object, in order",
  "The status check of every backend returns exactly one answer per cluster or worker it was asked about, in the same order, and answers that an object is dead only when the resource manager says it has ended or does not list it, when nothing was ever started for it, or, for Yarn workers, when their application cannot be reached; everything reported as ended is answered dead. With Yarn an object that cannot be queried does not shift or drop the answers of the others; when the batch system's status command fails nothing is answered.",
  ["inputs", "fault_sequences"], "every set of objects, every reply of the resource manager",
  "Tests check one object at a time, for most backends with a real resource manager only.",
  [S+"backends/local.py", S+"backends/inprocess.py", S+"backends/yarn.py", S+"backends/jobqueue/base.py", S+"backends/jobqueue/slurm.py", S+"backends/jobqueue/pbs.py"],
  [("status checks", S+"backends")],
  ["which clusters are failed after a status check"])
p("C41", "Gateway shutdown stops background work, then clusters, and cleans up",
  "At shutdown the gateway first stops serving its HTTP API, then ends its background checks, then, if configured, gives every active cluster a goal of failure, queues it and waits until every unfinished cluster has shut down, then ends its reconcilers, and then cleans up the backend, the proxy and its HTTP session, in that order. Without the option no cluster is touched. Requests that hold an open watch of the routes are ended by the shutdown and do not keep it waiting. A failed start-up ends in the same clean-up of whatever had been started, and in a non-zero exit status.",
  ["fault_sequences", "configurations"], "every point at which start-up can fail, both settings",
  "Tests shut down after a successful start with in-memory databases.",
  [D for D in (S+"backends/db_base.py", S+"app.py", S+"backends/base.py")], [("backend clean-up", S+"backends/db_base.py"), ("application start and stop", S+"app.py")],
  ["order of effects at shutdown"])
# --- outside the reach of static analysis here
p("C42", "Memory and number settings are parsed to the quantity they denote",
  "A memory setting such as '2 GiB' or '1.5 M' is parsed to the number of bytes it denotes for every spelling, and a value that is formatted and parsed again denotes the same quantity up to the unit's precision.",
  ["inputs"], "every memory string", "Tests sample a few spellings.",
  [S+"traitlets.py", S+"options.py", S+"utils.py"], [("memory trait", S+"traitlets.py")], ["configured limits"])
p("C43", "The proxy's route lookup returns the longest matching prefix for every path",
  "For every set of routes and every request path the proxy selects the route with the longest matching path prefix, and removal restores the state before the addition.",
  ["inputs", "histories"], "every set of routes and path", "The Go tests sample a few tries.",
  [G+"pkg/router/router.go"], [("route trie", G+"pkg/router/router.go")], ["upstream of a request"])
p("C44", "The proxy extracts the server name from every valid TLS hello",
  "For every TLS client hello, in whatever fragments it arrives, the proxy extracts exactly the server name it contains and forwards the hello unchanged.",
  ["inputs", "schedules"], "every byte sequence and fragmentation", "The tests use one TLS stack.",
  [G+"pkg/sni/sni.go"], [("hello parser", G+"pkg/sni/sni.go")], ["bytes received by the scheduler"])
p("C45", "Clusters reach their goal in bounded time",
  "When the backend and the network stop failing, every cluster and worker reaches its goal within a bounded number of further steps, and retries of different objects do not starve each other.",
  ["schedules", "fault_sequences"], "every schedule and fault history", "Tests cannot explore schedules.",
  [S+"backends/db_base.py", S+"workqueue.py", K+"controller.py"], [("reconciliation", S+"backends/db_base.py")], ["time to reach the goal"])
p("C46", "The rate limiter never exceeds its rate and never delays more than needed",
  "In any interval the Kubernetes rate limiter admits at most the burst plus the rate times the length of the interval, and admits a waiting caller as soon as that bound allows it.",
  ["schedules", "inputs"], "every arrival pattern", "Tests sample one pattern.",
  [S+"utils.py"], [("rate limiter", S+"utils.py")], ["times of API calls"])
p("C47", "Extra pod and container settings merge without losing either side",
  "Merging administrator-provided pod and container settings, labels and annotations into generated ones keeps every generated setting that is not overridden and every provided one: mappings are merged at every depth, lists are appended, anything else is replaced. The settings of one pod never show up in another, and neither the shared configuration nor the common labels and annotations are altered by making pods.",
  ["inputs", "histories"], "every pair of nested values, sequences of pods",
  "Tests sample a few nestings.",
  [K+"utils.py", K+"controller.py"], [("object merging", K+"utils.py"), ("pod construction", K+"controller.py")], ["created pod specifications"])
p("C48", "Schedulers and workers run as their cluster is configured",
  "Every scheduler and worker that a backend starts runs its cluster's configured command after its configured set-up, with its configured number of threads, memory limit, idle timeout and adaptive period and the gateway's heartbeat period. It sees every configured environment variable, with the gateway's own (API address, token, cluster name, TLS files) taking precedence, and is told its own name and, for workers, the address of its cluster's scheduler. The resource manager (Kubernetes, YARN, PBS, Slurm) is asked for the configured memory and cores, image, queue, account, project and the like.",
  ["inputs", "configurations"], "every backend, kind of process and configuration",
  "Tests run the local and in-process backends with default settings; no test submits to a resource manager.",
  [S+"backends/db_base.py", S+"backends/local.py", S+"backends/inprocess.py", S+"backends/yarn.py", S+"backends/jobqueue/base.py", S+"backends/jobqueue/pbs.py", S+"backends/jobqueue/slurm.py", K+"controller.py"],
  [("commands and environments", S+"backends/db_base.py"), ("job submission", S+"backends/jobqueue/slurm.py"), ("pod construction", K+"controller.py")],
  ["command lines, environments and resource requests of started processes"])
p("C49", "The Kubernetes API server and controller agree on the cluster objects",
  "A cluster the API server starts is picked up by the controller under the cluster's own key, and its name, user, options, configuration, status, addresses and times are reported by the API server as it was started and as the controller recorded it; the credentials its pods get are those the API server authenticates. A scale request makes the controller hold that many worker pods. Stopping a cluster, or its scheduler's end, in any phase leads to its pods and secret being removed, the cluster being reported stopped or failed with its stop time, its record being kept to be removed later and nothing further being done for it. When both servers start again with nothing but what Kubernetes stores, the controller changes nothing and the API server reports, and authenticates, what it did before.",
  ["histories", "crash points", "schedules"], "starts, scalings, stops, scheduler ends and restarts in every phase of a cluster",
  "The Kubernetes tests need a live cluster and are not run; the unit tests of the methods use hand-written objects on each side.",
  [K+"backend.py", K+"controller.py", K+"utils.py"],
  [("API server", K+"backend.py"), ("controller", K+"controller.py")],
  ["cluster status and workers on Kubernetes"])
p("C50", "Messages to a scheduler are retried boundedly, or its cluster fails",
  "A scale or adapt message is sent only for a running cluster, to that cluster's own address and with its own token; otherwise the request is refused. An attempt that fails or is answered with an error is repeated after a bounded delay, up to the configured number of attempts, and nothing is sent again after one that succeeded. When every attempt failed, that cluster and no other is stopped and recorded as failed, and the caller is told; a stop that a user requests is recorded as stopped, not failed. A cancelled request sends nothing more and stops nothing.",
  ["fault patterns", "crash points"], "every pattern of failing, refused and successful attempts, and cancellation at each of them",
  "The tests' schedulers answer every message; none fails an attempt or cancels a request between two.",
  [S+"backends/base.py", S+"backends/db_base.py"],
  [("message forwarding", S+"backends/base.py"), ("stop requests", S+"backends/db_base.py")],
  ["messages a scheduler receives", "cluster status after an unreachable scheduler"])
p("C51", "Cluster queries report what is recorded, and waiting ones end",
  "In the database-backed backends a query for a cluster reports exactly the recorded name, owner, options, addresses, credentials and times of the cluster it asks for, with the public status that its recorded status and goal mean, and nothing for an unknown one. A listing holds exactly the user's clusters in one of the asked statuses, or those pending or running when none is asked for. A query that is to wait is woken when its cluster has started or stopped and otherwise ends within a bounded time, reports the state after the wait, and does not disturb others that wait; one for a cluster that has started already does not wait.",
  ["inputs", "histories", "schedules"], "every status and goal of the clusters, every way to ask, and every end of a wait",
  "Tests query a few clusters in the states they happen to pass through.",
  [S+"backends/db_base.py", S+"models.py", S+"routes.py", S+"utils.py"],
  [("queries", S+"backends/db_base.py"), ("records and replies", S+"models.py"), ("request parsing", S+"routes.py")],
  ["replies to cluster queries and listings"])
p("C52", "The gateway's proxy process is kept running, as configured",
  "Unless the proxy is managed elsewhere, the gateway's start starts one proxy process, and for as long as the gateway runs a process that has ended, whatever its exit code, is started again at the next regular look; a start that failed is tried again after a bounded delay; a process that runs is never doubled; and the watch does not end by itself. At its end the gateway ends the watch and then the process that runs then. A proxy managed elsewhere is neither started, watched nor ended. A certificate and a key are given to the proxy together or not at all: one alone is refused before anything starts, and HTTP clients are served with TLS exactly when there is a certificate. The token between the two is the configured one or a new random one. The proxy listens on each of its configured addresses and ends with an error when it cannot, when it has no token or no gateway to ask, or when its HTTP server fails. A proxy run on its own has the same settings and does not depend on its standard input.",
  ["crash_points", "configurations", "histories"], "every order of process ends and failed starts, every TLS and address setting",
  "Tests start one proxy, which they do not end, on loopback addresses and with valid settings.",
  [S+"proxy/core.py", "dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go"],
  [("process supervision", S+"proxy/core.py"), ("the proxy's start", "dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go")],
  ["proxy processes running", "listening addresses and TLS"])
p("C53", "Valid credentials are accepted as the user they name, others challenged",
  "A request with a valid credential is accepted, as exactly the user the credential names: with basic authentication any name with the shared password, or with any password when none is configured, in the encoding the client sends them in; with Kerberos the principal of a completed exchange, checked with the client's own ticket against the configured service and key; with JupyterHub the user or service JupyterHub names for the client's own token, told apart, with its groups and rights, asked for once at the configured address with the configured TLS settings. The Kerberos proof of the gateway's identity is sent with the response, and every Kerberos context is released. A missing or wrong credential, or a token without access to the gateway where that is required, is answered with a challenge of the authenticator's own scheme, a failing identity provider with an error. The settings for asking JupyterHub are the configured ones, those of the environment otherwise, and a missing one stops the start.",
  ["inputs", "configurations", "fault_sequences"], "every name, password, principal, token, reply of the identity provider and setting",
  "Tests log in with basic authentication and one or two users; Kerberos and JupyterHub are skipped where they are not installed.",
  [S+"auth.py"],
  [("authenticators", S+"auth.py")],
  ["replies to requests with credentials", "requests to JupyterHub"])
p("C54", "A client connects where, and as whom, its arguments and configuration say",
  "A client uses the gateway address, the public address and the scheduler-proxy address it is given, else those configured with their templates filled in from the environment, else ones derived from the gateway's address, for host names and IPv4 and IPv6 addresses, with and without ports; without an address it is refused. It authenticates with the object, name or class given, else with the configured kind, in either case with the configured settings, and sends each credential in the form the gateway reads; with Kerberos it trusts only a gateway that proves its own identity. Its requests go through the configured HTTP proxy, that of the environment, or none. A new cluster is asked for with the configured options, overridden by those given for it. A cluster object's own client has the settings given to the object.",
  ["inputs", "configurations", "environments"], "every address, proxy, authentication and option given or configured",
  "The tests' clients give one loopback address and basic authentication as arguments; Kerberos is skipped.",
  ["dask-gateway/dask_gateway/client.py", "dask-gateway/dask_gateway/auth.py", "dask-gateway/dask_gateway/comm.py"],
  [("client", "dask-gateway/dask_gateway/client.py"), ("client authentication", "dask-gateway/dask_gateway/auth.py")],
  ["addresses a client connects to", "headers of its requests", "options of the clusters it asks for"])
p("C55", "A Kubernetes cluster is found at the addresses handed out for it, only",
  "On Kubernetes a cluster's scheduler listens, for other pods, on the ports that its scheduler, dashboard and API addresses are handed out with. The cluster's service has the name and the ports of those addresses, leads to where the scheduler listens, and selects that scheduler and no worker, no other cluster's scheduler and no other gateway's. Workers are told that scheduler's address. A scheduler counts as ready only once its own API answers. The proxy's routes for a cluster match exactly what clients ask for (the dashboard's path under the configured prefix, the TLS server name), at the configured entry points and with the configured middlewares, and lead to that cluster's service; the scheduler's TLS is passed through.",
  ["configurations", "inputs"], "every cluster, namespace, prefix and entry point",
  "The Kubernetes tests need a cluster and are not in the stable set; each end of an address is written in another file.",
  [K+"controller.py", K+"backend.py", "dask-gateway/dask_gateway/comm.py"],
  [("pods, services and routes", K+"controller.py"), ("addresses handed out", K+"backend.py"), ("TLS server name", "dask-gateway/dask_gateway/comm.py")],
  ["addresses of schedulers", "proxy routes"])
p("C56", "Settings that are left out follow from those that are given",
  "A setting an administrator leaves out gets the documented value derived from the others: a worker's threads its whole cores and at least one, also when they are given as none; Kubernetes limits the matching requests; the heartbeat timeout twice the heartbeat period; the period of timeout checks within the shortest timeout's order; the API's address the proxy's own scheme, host and prefix, with a host that other machines can use; the Kubernetes instance that of the environment, without which nothing starts, and the objects watched those of that instance. Prefixes are used in one normal form however their slashes are written.",
  ["configurations"], "every combination of given and left-out settings",
  "Tests set the few values they need and run with the remaining defaults.",
  [S+"backends/base.py", S+"backends/db_base.py", K+"backend.py", K+"controller.py", S+"proxy/core.py"],
  [("cluster settings", S+"backends/base.py"), ("backend settings", S+"backends/db_base.py"), ("Kubernetes settings", K+"backend.py")],
  ["settings a cluster or server runs with"])
