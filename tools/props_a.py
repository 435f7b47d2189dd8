# (id, title, statement, over, qtext, why, files, mechanism[(name,where)])
S = "dask-gateway-server/dask_gateway_server/"
C = "dask-gateway/dask_gateway/"
G = "dask-gateway-server/dask-gateway-proxy/"
H = "resources/helm/dask-gateway/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Every gateway HTTP endpoint except health and version authenticates first",
  "Every HTTP endpoint the gateway server exposes, on every backend and proxy, authenticates the request before it reads or changes any cluster, option or route state; only the health and the version endpoints answer without credentials. A request that presents no valid user credentials, cluster token or proxy token (whichever the endpoint requires) is answered with an error and has no other effect.",
  ["inputs", "configurations"], "every registered route, every request, every backend",
  "Tests send a few requests to a few routes; a route added, or whose guard is dropped, is not requested without credentials by any test.",
  [S+"routes.py", S+"auth.py", S+"proxy/core.py", S+"backends/base.py", S+"app.py"],
  [("user/token guards on handlers", S+"routes.py"), ("proxy route endpoint guard", S+"proxy/core.py"), ("route table assembly", S+"app.py")],
  ["HTTP status of a request without credentials"])
p("C02", "Users reach only their own clusters",
  "A request made with user credentials can read, list, scale, adapt or stop only clusters that belong to the authenticated user: for a cluster of another user the gateway answers with an authorization error before it discloses anything about it or changes anything. A listing returns only the authenticated user's clusters.",
  ["inputs", "histories"], "every user, every cluster name, every user-facing endpoint",
  "The tests use one user almost everywhere; no test asks for another user's cluster on each endpoint.",
  [S+"routes.py", S+"backends/base.py", S+"backends/db_base.py", S+"backends/kubernetes/backend.py"],
  [("ownership comparison in user endpoints", S+"routes.py"), ("per-user listing", S+"backends/db_base.py")],
  ["HTTP status and body for a foreign cluster"])
p("C03", "A cluster token only acts on its own cluster",
  "A heartbeat is accepted only when the token it presents is the token of the very cluster named in the request, and is then applied to that cluster and none other. A token that is missing, malformed, of another cluster, or of a cluster that does not exist is rejected without any effect.",
  ["inputs", "histories"], "every token, every cluster name",
  "Tests only run well-behaved schedulers that present their own token.",
  [S+"routes.py", S+"auth.py", S+"backends/base.py", S+"backends/db_base.py"],
  [("token guard", S+"routes.py"), ("token to cluster resolution", S+"backends/base.py")],
  ["HTTP status of the heartbeat", "worker state after it"])
p("C04", "Authenticators return a user only after the credential was verified",
  "Each authenticator yields a user identity only on a path where the presented credential was verified: the configured shared password, if there is one, equals the presented one; the Kerberos exchange completed; JupyterHub accepted the token with a successful reply. The identity yielded is the one the verified credential names, and every other path ends in an authentication error.",
  ["inputs", "fault_sequences"], "every Authorization header, every reply of the identity provider",
  "JupyterHub and Kerberos are exercised, if at all, with valid credentials and one invalid one; error replies of the provider are not enumerated.",
  [S+"auth.py"],
  [("basic, kerberos and JupyterHub authenticators", S+"auth.py")],
  ["identity attached to the request"])
p("C05", "A session cookie resolves only to the user who authenticated it, and expires",
  "A session cookie authenticates a request only as the user whose full authentication created it, and only within the configured maximum age of that authentication; an unknown, tampered or expired cookie leads to full authentication. The cookie value is drawn from a cryptographic random source and is sent only on the response to that client's authenticated request; using a cookie does not extend its life.",
  ["inputs", "schedules", "histories"], "every cookie value, every sequence of requests and cookie ages",
  "Cookie expiry and collisions are not reached within the duration of a test.",
  [S+"auth.py", S+"utils.py"],
  [("cookie cache", S+"auth.py"), ("expiring map", S+"utils.py")],
  ["Set-Cookie header", "identity attached to the request"])
p("C06", "Secrets are disclosed only to their owner, and never logged",
  "Cluster tokens, TLS private keys and the proxy token never appear in a log record, an error message, a process argument list or a gateway HTTP response; the one exception is that a cluster's TLS key and certificate are returned to the cluster's authenticated owner, and only while the cluster is running. User options and credentials presented in requests are not logged either.",
  ["inputs", "fault_sequences", "configurations"], "every log statement, exception, spawned command and response",
  "No test inspects log output or argument lists; error paths that could print a secret are not reached.",
  [S+"routes.py", S+"models.py", S+"auth.py", S+"backends/base.py", S+"backends/db_base.py", S+"backends/local.py", S+"backends/jobqueue/base.py", S+"backends/kubernetes/controller.py", S+"proxy/core.py"],
  [("cluster serialisation", S+"models.py"), ("log calls", S), ("command construction", S+"backends/base.py")],
  ["log output", "process arguments", "HTTP response bodies"])
p("C07", "Tokens and TLS keys are encrypted at rest, and keys are mandatory",
  "Whatever the gateway writes to its database about a cluster's TLS credentials is encrypted with the newest configured key, and can be decrypted with any of the configured keys; cluster tokens are stored in encrypted form too. A gateway configured with a database that outlives the process refuses to start when no valid encryption key is configured.",
  ["configurations", "histories", "inputs"], "every database URL, every key configuration, every row written",
  "Tests use in-memory databases with random keys, and the database tests are not in the stable set.",
  [S+"backends/db_base.py"],
  [("row encoding", S+"backends/db_base.py"), ("key validation", S+"backends/db_base.py")],
  ["database file contents", "start-up error"])
p("C08", "Credential files are private to the user, and clusters run as that user",
  "When the local or a job queue backend puts TLS credentials on disk, no other unprivileged user can read the key at any moment, and the files are handed to the user who owns the cluster. Scheduler and worker processes started by these backends run under that user's identity, never the gateway's, and the gateway changes ownership of nothing except the files it created. (The backends documented to run everything as the gateway's own user, for testing only, are exempt: UnsafeLocalBackend and InProcessBackend.)",
  ["inputs", "fault_sequences", "configurations"], "every user name, every moment of the set-up sequence",
  "Tests run as a single user and cannot observe the moment between file creation and permission change.",
  [S+"backends/local.py", S+"backends/jobqueue/base.py", S+"backends/jobqueue/launcher.py"],
  [("directory and file creation", S+"backends/local.py"), ("staging by the launcher", S+"backends/jobqueue/launcher.py")],
  ["file modes and owners", "uid of child processes"])
p("C09", "All scheduler traffic is mutually authenticated with per-cluster credentials",
  "Every cluster is started with its own freshly generated key, self-signed certificate and token, none of which is shared with another cluster or reused; its scheduler listens on TLS only, and its scheduler and workers present and trust exactly these credentials (and, outside Kubernetes, where only TLS addresses are handed out, are also configured to require encryption). The client, too, connects to a cluster only with the credentials returned for that cluster.",
  ["configurations", "histories"], "every cluster, every backend, every connection",
  "Tests check that a connection works, which an unauthenticated or shared-key set-up would do as well.",
  [S+"tls.py", S+"models.py", S+"backends/base.py", S+"backends/db_base.py", S+"backends/kubernetes/backend.py", S+"backends/kubernetes/controller.py", C+"client.py"],
  [("credential generation", S+"tls.py"), ("TLS settings in the environment", S+"backends/base.py"), ("client security object", C+"client.py")],
  ["environment of scheduler and worker", "TLS handshake"])
p("C10", "User options cannot override the settings the gateway requires",
  "Whatever environment variables, extra arguments or image a cluster's options request, the scheduler and the workers of the cluster run with the gateway's own values for the API address, the cluster name, the token, the TLS files and the worker identity. Only the options the administrator declared reach the cluster's configuration.",
  ["inputs", "configurations"], "every user-chosen option and environment mapping",
  "Tests choose harmless environment variables only.",
  [S+"backends/base.py", S+"backends/local.py", S+"backends/inprocess.py", S+"backends/yarn.py", S+"backends/jobqueue/base.py", S+"backends/kubernetes/controller.py"],
  [("environment assembly", S+"backends/base.py")],
  ["environment of the started processes"])
