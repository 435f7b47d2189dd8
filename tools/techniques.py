AI = "path-sensitive abstract interpretation (finite fact domains, no solver) of the Python source"
TECH = {
 "C01": (AI + " of every registered HTTP handler; dominance of effects and responses by authentication evidence",
         "All handlers found from the route registrations; every abstract path through handler and decorators."),
 "C02": (AI + " of every HTTP handler; ownership comparison must dominate backend calls and responses; index dataflow in the backends",
         "All user endpoints and both backend families."),
 "C03": (AI + " of token endpoints and heartbeat handlers; token equality must dominate effects, effects must be rooted in the named cluster",
         "Token endpoints, get_cluster and heartbeat of both backend families."),
 "C04": (AI + " of every authenticator's authenticate(); credential evidence must dominate each returned user",
         "All three bundled authenticators, every abstract path including library failures."),
 "C05": (AI + " of the cookie cache and the authentication wrapper; provenance of cookie and user, linear-form age bound",
         "UserCache.get/put and Authenticator.authenticate_and_handle, every abstract path."),
 "C06": ("interprocedural taint analysis (function summaries to a fixpoint over " + AI + ")",
         "Every function of both packages; every log call, raise, spawned command and HTTP response."),
 "C07": ("interprocedural taint analysis of database writes plus " + AI + " of key handling",
         "Every method of the data manager, every update call, every yielded backend state, key validation paths."),
 "C08": (AI + " of credential staging and process creation; typestate of created paths (mode, exclusive creation, ownership)",
         "Local backend, every job-queue backend and the staging launcher, every abstract path."),
 "C09": (AI + " with provenance of keys, certificates and tokens from generation to process environment, secret, file and client TLS context",
         "All database backends, the Kubernetes controller and backend, the in-process backend and the client, every abstract path."),
 "C10": (AI + " with ordered dictionary and argument-list domains; provenance of option keys",
         "Environment and command line of every process of every backend, and the option processing chain, every abstract path."),
 "C11": (AI + " of every task of the database backends, with rely conditions at await points iterated to a fixpoint over (status, goal) pairs",
         "All entry points that write a status or goal; every interleaving at await points, over-approximated."),
 "C12": (AI + " of every task of the database backends: must-follow obligations from goal writes to queue insertions, exception-flow of background tasks",
         "All entry points and background tasks, every abstract path with failures at every call."),
 "C13": (AI + " of the data manager: SQL statement decoding against the table schema, order of database write and in-memory update, agreement of every status list with the lifecycle",
         "Every method of the data manager, every table column, every statement, every abstract path."),
 "C14": (AI + " of the loading of the database, of setup and of reconciliation from each restored state; coverage of (status, goal) pairs by loops that queue them",
         "DataManager.__init__, every table column, DBBackendBase.setup, reconciliation from every restored state, every abstract path."),
 "C15": (AI + " of reconciliation and completion of stops from every (status, goal) pair: which objects can reach a finished status, with the worker-quantified conditions that guard it",
         "Every reconciliation entry from every pair, shutdown requests, every abstract path including failures of every backend call."),
 "C16": (AI + " of starts with exceptions at every step: enclosing timeouts, persistence of each reported state, and the stop of every backend from every state its start may have reported",
         "Cluster and worker submission and every backend's start and stop, every abstract path."),
 "C17": (AI + " of the background checks over a closed world of two clusters and three workers with unknown states: each pass decided from its path facts (linear-form deadlines, reported status); the reports of every backend evaluated by constant propagation over the known states",
         "Every background task, reconciliation, heartbeats and every backend's status report, every abstract path including failures."),
 "C18": (AI + ' of the scale and adapt endpoints, both heartbeat handlers, the limit computation and the scale check; interval facts on each path bound every forwarded, recorded or created count',
         'Every path of the endpoints, heartbeats, limit computation and configuration handlers.'),
 "C19": (AI + ' of the heartbeat handler and the scale check over a cluster whose two workers have unknown status, goal and membership in the reported lists; each path is judged for every state it allows',
         'Every path of the handler; two workers stand for any number.'),
 "C20": (AI + 'over the paths of setup, add_route, remove_route and routes_handler: linear arithmetic over the log fields (offset, length, next identifier), the table that holds each logged entry, event order between suspension points, and an effect scan for other writers of the log',
         'Every path of the four entry points (69 paths); the position of a watcher is an unknown integer, the log an unknown list'),
 "C24": (AI + 'every operation of the queue interpreted from every abstract state it can meet (an item new, queued, being handled, or handled and added again; waiters asleep, woken or none; open or closed; for a sleeping get, everything that can have happened by the time it resumes), against an inductive invariant over the containers and the wakeups; plus a path rule over the consumers',
         'Inductive over all schedules of atomic segments; containers hold up to two items and two waiters, which the operations treat alike'),
 "C23": (AI + "the reconciler interpreted from every pair of status and goal, with route calls and stops failing, and every other entry point scanned for the places that record a cluster as running or finished or change its addresses; each path's route calls are compared with the record's fields and with the order of its updates",
         'Every path of the reconciler (36 pairs) and of the background and request entry points'),
 "C25": (AI + 'the reconciliation interpreted from every stage a cluster object can be in, with every object passed to a create call resolved to its labels, owner, namespace and name, and with every API call made to fail, one at a time, with every status the code tells apart; plus path rules over the reconciler loop',
         "one failing call per reconciliation; extra labels set in the configuration are assumed not to replace the gateway's"),
 "C26": (AI + 'one reconciliation interpreted from every combination of recorded phase, recorded objects, request to stop, state of the scheduler pod and readiness of the endpoints, the status written and the API calls before it compared with a lifecycle table; interpretation of the event handlers, the retention loop and the time conversions',
         'per reconciliation with a given view of the cluster; how long the watch lags is not bounded'),
 "C27": (AI + 'abstract execution of one whole reconciliation of a running cluster for concrete numbers of requested, pending, running and stopped workers and outstanding expectations, with every creation or removal failing in every way: pods created and removed, the expectations recorded before the first call and after the last, the ten-minute bound as a linear fact on the path, and the staleness of every value an expectation is computed from across waits; table of every worker event against every known state',
         'bounded numbers (up to 5 requested, 3 pending, 2 running workers); the Kubernetes API replies are arbitrary'),
 "C28": (AI + "abstract interpretation of the watcher's whole loop, with the watch generator's body run at its yields, against a model of the API server: every history of one or two changes placed between requests, every request succeeding, failing, breaking off, reporting an error, an expired version or a malformed event; at the end the cache and what the handlers were told are compared with what exists. Wiring of the watchers and argument binding of their handlers by call resolution",
         'histories of up to two changes and three faulty requests; well-formed listings assumed'),
 "C29": (AI + 'abstract interpretation of sequences of synchronisations of three clusters of two users, in every combination of object states and with failing lookups of credentials: after each, every listing and lookup is evaluated and compared with the objects; suspension points between the two index updates; the flags set; the synchronisation loop with every pattern of failures; what a waiting request reads after its wait, by versioned attribute reads',
         'sequences of up to three synchronisations'),
 "C32": (AI + " of every option field's check with an unknown candidate and unknown bounds (order relations including 'unordered'), then of a whole specification parsing, transforming and configuring requests with every kind of JSON value, of the backend's option processing with each step failing, and of every backend's cluster creation",
         "universal over candidates and bounds for each field's check; the parsing of whole requests is followed for a fixed specification of twelve fields and some 450 requests"),
 "C33": (AI + " of the server's fields, their published specification, the client's fields rebuilt from it (registered by interpreting the class definitions) and both checks, with an unknown candidate and unknown bounds and with every kind of value",
         'universal over candidates and bounds for each pair of checks; the options object and submission are followed for a fixed specification'),
 "C36": (AI + 'of the plugin with up to three workers through every reachable state (arrivals, departures, requested counts, heartbeats that fail, retirements that fail, changes while a heartbeat is under way), of the heartbeat loop with its waits under failures, requests and cancellations at every point, and of the request sent',
         'Bounded to three workers and eight heartbeats; what the scheduler proposes to close is taken from all, some or none.'),
 "C37": (AI + " of the API's scale and adapt requests in sequences from states with and without adaptive scaling, and of the adaptive loop over every sequence of four recommendations with failures, new bounds, scale requests and cancellations in between",
         'Bounded: counts, bounds and recommendations from small sets that cover every order relation between them; recommendations are those of the scheduler.'),
 "C38": (AI + " of the idle check over sequences of what it finds (tasks on workers, waiting tasks, last transitions around the timeout or none, failing shutdown requests), of the service's start with and without a timeout, of the request sent, and of the command lines and the preload that carry the timeout",
         "Bounded to two workers and sequences of two or three checks; the clock is the scheduler's."),
 "C39": (AI + " of the launcher over every kind of request with every file system and command operation failing in turn (replies, commands run, files written and removed), and of the gateway's side over every launcher outcome",
         "requests with constant contents; the operating system's calls modelled by their outcomes"),
 "C40": (AI + " of every backend's status checks over all triples of object states (alive, ended, unlisted, never started, not queryable) and every state name the resource manager reports",
         'three objects per check; the tables of Slurm, PBS and Yarn states are part of the rule'),
 "C41": (AI + 'of the clean-up on the state that every way for the start-up to end leaves behind, for clusters of every status and goal, with a rule on the order of effects',
         'at most two clusters at a time; background loops modelled by their tasks'),
 "C35": (AI + ' of every public operation of the client over every status of the reply and of the repeated request, of the wait for a start over sequences of statuses, and of the authenticators',
         'Statuses are enumerated over seventeen representative values including every one the client tells apart and their neighbours; sequences of the wait have up to four replies.'),
 "C34": (AI + " of cluster objects over their whole life (made, started, used, closed in every documented way), with the client's requests answered by the world and its tasks followed to their outcome, for every outcome of every step of a start",
         'Tasks run when they are waited for; a close during a start is followed at every step of the start. The background loop of a synchronous object is taken to run.'),
 "C47": (AI + ' of merging and of pod construction on nested values of every combination of kinds, compared with the documented merge, with an aliasing rule on the shared configuration',
         'combinations of the kinds of values (absent, scalar, list, mapping, to a fixed depth) and both kinds of pods; deeper nesting repeats the same recursion'),
 "C48": (AI + " of every backend's start of a scheduler and of a worker for known clusters, followed up to the process, job, application, pod or object it makes, compared with the configuration",
         'two configurations per backend variant, chosen so that no two settings have the same value; other values follow the same paths'),
 "C21": ("path-sensitive abstract interpretation (no solver) of the SSA form of the Go source (golang.org/x/tools/go/ssa) of the proxy from main on, against a modelled routing endpoint that answers each request in every way; the tables it ends with are read through its own request handlers, and every access to them is checked for the lock",
         "Scenarios of up to five requests over logs of six changes (one request more in the thorough tier); goroutines are followed one after another, what they share is decided by the lock rule."),
 "C22": ("path-sensitive abstract interpretation (no solver) of the SSA form of the Go source (golang.org/x/tools/go/ssa) of the accept loop and the connection handlers, with every read, dial, copy and close failing in turn; typestate of connections",
         "Every path of one connection for every kind of first bytes and server name; connections are followed one at a time, what they share is decided by the aliasing rule."),
 "C31": (AI + " of every request maker and of the handler that serves it, composed: what one end sends is given to the other; the proxy's end by interpretation of the SSA form of its Go source",
         "Requests with representative contents for every operation, reply status and backend; values that differ in content only follow the same paths."),
 "C30": (AI + " of the configurations the Helm chart's templates generate, which a renderer of the template language produces for 21 combinations of values (prefixes, release names, authenticators, service accounts, entry points, all backend settings), together with a query over the rendered objects against what the servers' source says: every Kubernetes API call reachable from each server's class against the roles bound to its service account, every setting against its declaration, ports, paths, entry points, middlewares and labels against the route table and the routes the controller's code makes",
         'Trusted: Kubernetes and Traefik do what their documentation says; the renderer implements the template functions the chart uses. The combinations of values are enumerated, not all values.'),
 "C49": (AI + " of KubeBackend and KubeController in a closed loop over one shared set of abstract Kubernetes objects: each server's writes are applied to the objects, whose state the other server's handlers are then interpreted on, and what either ends up believing is compared with what the other did",
         'Bounded histories (a new, starting, running and scaled cluster, then stop, scheduler end or restart of both servers), exact values; the Kubernetes API is represented by its documented create, merge-patch, JSON-patch, delete and read operations; timing between the two is one notification at a time.'),
 "C50": (AI + " of the message forwarding with known attempts: every pattern of up to four attempts that succeed, cannot reach the scheduler or are answered with an error, and a cancellation at each attempt and delay; each path's sends, delays, stop requests and outcome are judged.",
         'A pattern of failures over time is a fault history no test reaches; each is decided from the source by following the loop with known outcomes.'),
 "C51": (AI + " of the query and listing methods, the record and reply classes and the request handlers, over clusters with every recorded status and goal, every user and every selection of statuses; and of the waiting query, whose events must wait for the cluster's own start flag with a limit before the record is made.",
         'The answer is a function of recorded state and request, both enumerable, so every combination is decided.'),
 "C52": (AI + " of the proxy's set-up, supervision and clean-up, run through processes with given lives and given outcomes of starting one, and (Go SSA interpreter) of the proxy's start for each setting of addresses, certificate, key and token, with each address available or not.",
         'Reports a second process, a missing restart, an unbounded or missing delay, a supervision that ends, an incomplete TLS setting, a wrong listening address or a failure that does not end the process.'),
 "C53": (AI + ' of each authenticator on concrete requests, settings and identity-provider answers: the user returned, the challenge raised, the question asked and the context released are compared with what the credential says.',
         'Reports a valid credential refused or taken for another user, a wrong challenge, a wrong question to JupyterHub, a missing Kerberos proof or release, or a lost setting.'),
 "C54": (AI + " of the client's start, its authenticators, its HTTP settings and a new cluster's options, for listed addresses, settings and environments",
         "template strings are filled in by the standard library on the scenario's constants"),
 "C55": (AI + " of the controller's objects, the API server's record of a running cluster and the client's connector, whose ports, names, labels, paths and server names are compared with each other",
         'two clusters and two prefixes stand for all'),
 "C56": (AI + " of every derived default and normalising validator, found by their trait's decorator, for listed values of the settings they read",
         'the listed values stand for all'),
}
NA = {
 "C42": "Value-level arithmetic and formatting over unbounded strings and numbers; no sound static abstraction in reach decides numeric equality of a parser.",
 "C43": "Functional correctness of a mutable trie over unbounded keys: needs shape and value induction, beyond dataflow or syntactic analysis here.",
 "C44": "Byte-level parsing of lengths and offsets over unbounded input; correctness is relational between input bytes and result, not a dataflow fact.",
 "C45": "Liveness and bounded response over unbounded schedules and fault histories; static analysis here decides safety of steps (C12, C16, C24), not progress.",
 "C46": "A quantitative bound over real time and arrival patterns; static analysis in reach cannot bound runtime clock arithmetic.",
}
