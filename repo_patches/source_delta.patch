From 0cd3af405e4740d7c75c0cddff42040178196a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 01/30] fix: hand the credential files, not the characters of
 their paths, to the user

---
 dask-gateway-server/dask_gateway_server/backends/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/local.py b/dask-gateway-server/dask_gateway_server/backends/local.py
index d54f800..f4c9f68 100644
--- a/dask-gateway-server/dask_gateway_server/backends/local.py
+++ b/dask-gateway-server/dask_gateway_server/backends/local.py
@@ -176,7 +176,7 @@ class LocalBackend(DBBackendBase):
         for path, data in [(cert_path, cluster.tls_cert), (key_path, cluster.tls_key)]:
             with os.fdopen(os.open(path, flags, 0o600), "wb") as fil:
                 fil.write(data)
-                paths.extend(path)
+                paths.append(path)
 
         self.set_file_permissions(paths, cluster.username)
 
-- 
2.43.0


From bcedab78840409eadaece8a1d5bec070fc08e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 02/30] fix: do not act on clusters and workers that moved on
 during a status check

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 1e34f59..5abc609 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1093,10 +1093,11 @@ class DBBackendBase(Backend):
                     if c.status == JobStatus.SUBMITTED
                 ]
                 statuses = await self.do_check_clusters(clusters)
+                # Clusters may have started or been stopped during the check
                 updates = [
                     (c, {"target": JobStatus.FAILED})
                     for c, ok in zip(clusters, statuses)
-                    if not ok
+                    if not ok and c.is_active() and c.status == JobStatus.SUBMITTED
                 ]
                 self.db.update_clusters(updates)
                 for c, _ in updates:
@@ -1126,10 +1127,11 @@ class DBBackendBase(Backend):
                     if w.status == JobStatus.SUBMITTED
                 ]
                 statuses = await self.do_check_workers(workers)
+                # Workers may have started or been stopped during the check
                 updates = [
                     (w, {"target": JobStatus.FAILED})
                     for w, ok in zip(workers, statuses)
-                    if not ok
+                    if not ok and w.is_active() and w.status == JobStatus.SUBMITTED
                 ]
                 self.db.update_workers(updates)
                 for w, _ in updates:
-- 
2.43.0


From 4a23e8d1edef11737a85063b2cb2b7f14b05dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:20 +0000
Subject: [PATCH 03/30] fix: do not move a worker that is already running back
 to submitted

---
 .../dask_gateway_server/backends/db_base.py           | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 5abc609..700a0e0 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1356,7 +1356,9 @@ class DBBackendBase(Backend):
                 async for state in self.do_start_worker(worker):
                     self.log.debug("State update for worker %s", worker.name)
                     self.db.update_worker(worker, state=state)
-            self.db.update_worker(worker, status=JobStatus.SUBMITTED)
+            # The worker may already have connected to the scheduler
+            if worker.status < JobStatus.SUBMITTED:
+                self.db.update_worker(worker, status=JobStatus.SUBMITTED)
             self.log.info("Worker %s submitted", worker.name)
         except asyncio.CancelledError:
             raise
@@ -1367,9 +1369,10 @@ class DBBackendBase(Backend):
                 self.log.warning(
                     "Failed to submit worker %s", worker.name, exc_info=exc
                 )
-            self.db.update_worker(
-                worker, status=JobStatus.SUBMITTED, target=JobStatus.FAILED
-            )
+            update = {"target": JobStatus.FAILED}
+            if worker.status < JobStatus.SUBMITTED:
+                update["status"] = JobStatus.SUBMITTED
+            self.db.update_worker(worker, **update)
             worker.cluster.worker_start_failure_count += 1
             self.queue.put(worker)
 
-- 
2.43.0


From a13b856cdb1bedd8151fcbd3e51e1bf62b4c5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 04/30] fix: set up the backend before queueing the clusters it
 restored

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 700a0e0..df9dac5 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -842,6 +842,9 @@ class DBBackendBase(Backend):
             url=self.db_url, echo=self.db_debug, encrypt_keys=self.db_encrypt_keys
         )
 
+        # Further backend-specific setup
+        await self.do_setup()
+
         # Start background tasks
         self.task_pool = TaskPool()
         self.task_pool.spawn(self.check_timeouts_loop())
@@ -857,9 +860,6 @@ class DBBackendBase(Backend):
                     if worker.status < JobStatus.STOPPED:
                         self.queue.put(worker)
 
-        # Further backend-specific setup
-        await self.do_setup()
-
         self.log.info(
             "Backend started, clusters will contact api server at %s", self.api_url
         )
-- 
2.43.0


From 9fe8135d01eb7ba5f127a9dab8d87cd0c9f78ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 05/30] fix: give a restored cluster that becomes running a
 heartbeat deadline

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index df9dac5..38273fb 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1312,6 +1312,9 @@ class DBBackendBase(Backend):
 
     async def _cluster_to_running(self, cluster):
         self.log.info("Cluster %s is running", cluster.name)
+        if cluster.last_heartbeat is None:
+            # Restored after a restart, not heard from since
+            cluster.last_heartbeat = timestamp()
         self.db.update_cluster(cluster, status=JobStatus.RUNNING)
         cluster.ready.set()
 
-- 
2.43.0


From c87fdb4d1fc444cab0fe44b234ff556f32801b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 06/30] fix: remove the working directory of an in-process
 cluster whose scheduler never started

---
 .../dask_gateway_server/backends/inprocess.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index 7b4d97b..aff531d 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -67,10 +67,10 @@ class InProcessBackend(UnsafeLocalBackend):
         yield {"workdir": workdir, "started": True}
 
     async def do_stop_cluster(self, cluster):
-        scheduler = self.schedulers.pop(cluster.name)
-
-        await scheduler.close()
-        scheduler.stop()
+        scheduler = self.schedulers.pop(cluster.name, None)
+        if scheduler is not None:
+            await scheduler.close()
+            scheduler.stop()
 
         workdir = cluster.state.get("workdir")
         if workdir is not None:
-- 
2.43.0


From d81a9d0eda7fd101ad1ac3e4cc5dd62570ac69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 07/30] fix: report one status per cluster when a Yarn cluster
 has no application

---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 6513803..3f6d6a7 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -228,7 +228,8 @@ class YarnBackend(DBBackendBase):
         for cluster in clusters:
             app_id = cluster.state.get("app_id")
             if app_id is None:
-                return False
+                results.append(False)
+                continue
             report = await self.async_apply(
                 self.skein_client.application_report, app_id
             )
-- 
2.43.0


From 5d0eb81432587292bdc61b88ba8cb030194b4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 08/30] fix: report the statuses of the Yarn workers asked for,
 not of the last cluster's

---
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 3f6d6a7..7c6155a 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -266,7 +266,7 @@ class YarnBackend(DBBackendBase):
             grouped[w.cluster].append(w)
 
         results = {}
-        for cluster, workers in grouped.items():
+        for cluster, group in grouped.items():
             app = await self._get_app_client(cluster)
             try:
                 containers = await self.async_apply(
@@ -274,7 +274,7 @@ class YarnBackend(DBBackendBase):
                 )
                 active = {c.id for c in containers}
                 results.update(
-                    {w.name: w.state.get("container_id") in active for w in workers}
+                    {w.name: w.state.get("container_id") in active for w in group}
                 )
             except Exception as exc:
                 self.log.debug(
@@ -282,6 +282,6 @@ class YarnBackend(DBBackendBase):
                     cluster.name,
                     exc_info=exc,
                 )
-                results.update({w.name: False for w in workers})
+                results.update({w.name: False for w in group})
 
         return [results[w.name] for w in workers]
-- 
2.43.0


From 81fcf4d95fb9d6a4c0c2f2cc2feb6f0b833f7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 09/30] fix: report in-process schedulers and workers alive
 unless they are closed

---
 dask-gateway-server/dask_gateway_server/backends/inprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/inprocess.py b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
index aff531d..3abe5aa 100644
--- a/dask-gateway-server/dask_gateway_server/backends/inprocess.py
+++ b/dask-gateway-server/dask_gateway_server/backends/inprocess.py
@@ -30,7 +30,7 @@ class InProcessBackend(UnsafeLocalBackend):
         out = []
         for x in objs:
             x = mapping.get(x.name)
-            ok = x is not None and not x.status != Status.closed
+            ok = x is not None and x.status != Status.closed
             out.append(ok)
         return out
 
-- 
2.43.0


From f6012be2211710f46030097c7c03c26589f637de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 10/30] fix: bound the worker limit of a cluster by the
 resources it ends up with

---
 .../dask_gateway_server/backends/base.py               | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index 0c42b8e..d7ad5aa 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -468,8 +468,16 @@ class ClusterConfig(Configurable):
         return self._worker_limit_from_resources()
 
     def to_dict(self):
-        return {
+        out = {
             k: getattr(self, k)
             for k in self.trait_names()
             if k not in {"parent", "config"}
         }
+        # The resources may have been set after the worker limit was validated
+        lim = self._worker_limit_from_resources()
+        if lim is not None:
+            max_workers = out["cluster_max_workers"]
+            out["cluster_max_workers"] = (
+                lim if max_workers is None else min(max_workers, lim)
+            )
+        return out
-- 
2.43.0


From 09dfceec90f8c02fed53f49827509501eac42f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 11/30] fix: do not count workers that are already being
 stopped as pending in a heartbeat

---
 dask-gateway-server/dask_gateway_server/backends/db_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/db_base.py b/dask-gateway-server/dask_gateway_server/backends/db_base.py
index 38273fb..0c4892e 100644
--- a/dask-gateway-server/dask_gateway_server/backends/db_base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/db_base.py
@@ -1001,7 +1001,7 @@ class DBBackendBase(Backend):
                     JobStatus.STOPPED if worker.close_expected else JobStatus.FAILED
                 )
                 target_updates.append((worker, {"target": target}))
-            else:
+            elif worker.is_active():
                 if worker.status == JobStatus.SUBMITTED:
                     submitted_workers.append(worker)
                 else:
-- 
2.43.0


From 738ff53d973305ab1ce9592fb6d81cf9b67f9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 12/30] fix: ask proxies ahead of the event log to reset, as
 they are after a gateway restart

---
 dask-gateway-server/dask_gateway_server/proxy/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/proxy/core.py b/dask-gateway-server/dask_gateway_server/proxy/core.py
index 9b4c712..a01ef7e 100644
--- a/dask-gateway-server/dask_gateway_server/proxy/core.py
+++ b/dask-gateway-server/dask_gateway_server/proxy/core.py
@@ -358,11 +358,12 @@ class Proxy(LoggingConfigurable):
 
     def _events_after(self, last_id=0):
         index = last_id - self.offset
-        if index >= 0:
+        if 0 <= index <= len(self.events):
             events = self.events[index:]
             return events
         else:
-            # We've since dropped these events, client needs to reset
+            # We've since dropped these events, or they're from before the
+            # gateway restarted, client needs to reset
             return None
 
     async def routes_handler(self, request):
-- 
2.43.0


From d3d54d8d899aa3c4737d24730d058af7bcc10d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 13/30] fix: pass the wakeup on when a woken work queue waiter
 is cancelled

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index a479b47..65b4c9a 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -157,7 +157,9 @@ class WorkQueue:
                 try:
                     self._waiting.remove(waiter)
                 except ValueError:
-                    pass
+                    # Already woken up, let another waiter take the item
+                    if self._queue:
+                        self._wakeup_next()
                 raise
         return self._get()
 
-- 
2.43.0


From 7cf8213730808e2b18d31ba1362ad7dac27178ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 14/30] fix: do not fail to compute the backoff of an item
 after many failures

---
 dask-gateway-server/dask_gateway_server/workqueue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/workqueue.py b/dask-gateway-server/dask_gateway_server/workqueue.py
index 65b4c9a..13ff1bf 100644
--- a/dask-gateway-server/dask_gateway_server/workqueue.py
+++ b/dask-gateway-server/dask_gateway_server/workqueue.py
@@ -23,8 +23,11 @@ class Backoff:
         """Get the backoff time for an item (in seconds)"""
         exp = self._failures[item]
         self._failures[item] = exp + 1
-        backoff = min(self.base_delay * 2**exp, self.max_delay)
-        return backoff
+        try:
+            backoff = self.base_delay * 2**exp
+        except OverflowError:
+            return self.max_delay
+        return min(backoff, self.max_delay)
 
     def failures(self, item):
         """Get the number of failures seen for an item"""
-- 
2.43.0


From 90a1566ef93fcd62af7b09e058707065107f27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 15/30] fix: treat deleting a worker pod that is already gone
 as success

---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 72ab030..988beab 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -790,7 +790,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         except Exception as exc:
             if info is not None:
                 info.deletes -= 1
-            if isinstance(exc, ApiException) and exc.code == 404:
+            if isinstance(exc, ApiException) and exc.status == 404:
                 return
             self.log.warning(
                 "Failed to delete pod %s/%s", namespace, pod_name, exc_info=True
-- 
2.43.0


From 6acdefb0c1bf24f75072d457be46321905c99d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 16/30] fix: notice a scheduler pod that failed without
 container statuses

---
 .../dask_gateway_server/backends/kubernetes/controller.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 988beab..c07514b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -55,6 +55,9 @@ def get_container_state(pod, name):
     phase = pod["status"].get("phase", "Unknown")
     if phase == "Pending":
         return "waiting"
+    if phase in {"Succeeded", "Failed"}:
+        # An evicted or rejected pod may have no container statuses at all
+        return "terminated"
     cs = get_container_status(pod, name)
     if cs is not None:
         return next(iter(cs["state"]))
-- 
2.43.0


From 2ad82d67ca3d32fbc4ab9ea17b028d16035ed6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 17/30] fix: remove scheduler and credentials that the cluster
 status does not record yet

---
 .../backends/kubernetes/controller.py         | 40 ++++++++++---------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index c07514b..0da71b6 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -642,7 +642,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
 
         if not active:
             self.log.info("Shutting down %s.%s", namespace, name)
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status = status.copy()
             status["phase"] = "Stopped"
             status["completionTime"] = k8s_timestamp()
@@ -711,7 +711,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -738,7 +738,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             self.log.info(
                 "Scheduler for cluster %s.%s terminated, shutting down", namespace, name
             )
-            await self.cleanup_cluster_resources(status, namespace)
+            await self.cleanup_cluster_resources(status, namespace, name)
             status["phase"] = "Failed"
             status["completionTime"] = k8s_timestamp()
 
@@ -893,21 +893,20 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             [{"op": "add", "path": "/status", "value": status}],
         )
 
-    async def cleanup_cluster_resources(self, status, namespace):
-        sched_pod = status.get("schedulerPod")
-        if sched_pod:
-            try:
-                await self.core_client.delete_namespaced_pod(sched_pod, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
-        secret = status.get("credentials")
-        if secret:
-            try:
-                await self.core_client.delete_namespaced_secret(secret, namespace)
-            except ApiException as exc:
-                if exc.status != 404:
-                    raise
+    async def cleanup_cluster_resources(self, status, namespace, name):
+        # These may have been created without being recorded in the status yet
+        sched_pod = status.get("schedulerPod") or self.make_scheduler_name(name)
+        try:
+            await self.core_client.delete_namespaced_pod(sched_pod, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
+        secret = status.get("credentials") or self.make_secret_name(name)
+        try:
+            await self.core_client.delete_namespaced_secret(secret, namespace)
+        except ApiException as exc:
+            if exc.status != 404:
+                raise
 
     async def create_secret_if_not_exists(self, cluster):
         name = cluster["metadata"]["name"]
@@ -1198,10 +1197,13 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         if is_worker:
             pod["metadata"]["generateName"] = f"dask-worker-{cluster_name}-"
         else:
-            pod["metadata"]["name"] = f"dask-scheduler-{cluster_name}"
+            pod["metadata"]["name"] = self.make_scheduler_name(cluster_name)
 
         return pod
 
+    def make_scheduler_name(self, cluster_name):
+        return f"dask-scheduler-{cluster_name}"
+
     def make_secret_name(self, cluster_name):
         return f"dask-credentials-{cluster_name}"
 
-- 
2.43.0


From 6de2e21363753c6b6b64ee4dfbbc9d562e8aca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 18/30] fix: delete only as many pending worker pods as are
 surplus

---
 .../dask_gateway_server/backends/kubernetes/controller.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 0da71b6..6dc9770 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -859,7 +859,7 @@ class KubeController(KubeBackendAndControllerMixin, Application):
         name = cluster["metadata"]["name"]
 
         if info.pending:
-            pending = list(info.pending)[:delta]
+            pending = list(info.pending)[:-delta]
         else:
             pending = []
 
-- 
2.43.0


From c4884186bce3af1c68f0b703eae7b67ceefcbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 19/30] fix: count worker pods that have no container statuses
 yet

---
 .../dask_gateway_server/backends/kubernetes/controller.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
index 6dc9770..39fbb8d 100644
--- a/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
+++ b/dask-gateway-server/dask_gateway_server/backends/kubernetes/controller.py
@@ -521,9 +521,6 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             phase = pod["status"].get("phase", "Unknown")
             if phase == "Unknown":
                 return
-            cs = get_container_status(pod, component)
-            if cs is None:
-                return
 
             info = self.cluster_info[cluster_key]
             trigger = False
@@ -534,6 +531,9 @@ class KubeController(KubeBackendAndControllerMixin, Application):
             elif phase == "Failed":
                 trigger = info.on_worker_failed(pod_name)
             else:
+                cs = get_container_status(pod, component)
+                if cs is None:
+                    return
                 kind = next(iter(cs["state"]))
                 if kind == "terminated" and cs["state"][kind]["exitCode"] == 0:
                     info.on_worker_succeeded(pod_name)
-- 
2.43.0


From 9509007379da451b92eff7870c5192a3d430d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 20/30] fix: reject nan for bounded numeric cluster options

---
 dask-gateway-server/dask_gateway_server/options.py | 5 +++--
 dask-gateway/dask_gateway/options.py               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/options.py b/dask-gateway-server/dask_gateway_server/options.py
index 88e6693..aa49c25 100644
--- a/dask-gateway-server/dask_gateway_server/options.py
+++ b/dask-gateway-server/dask_gateway_server/options.py
@@ -225,9 +225,10 @@ class Number(Field):
         super().__init__(field, default=default, label=label, target=target)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        # Negated so that nan, which compares as neither, is also rejected
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
diff --git a/dask-gateway/dask_gateway/options.py b/dask-gateway/dask_gateway/options.py
index 6aebe3b..dafc5bb 100644
--- a/dask-gateway/dask_gateway/options.py
+++ b/dask-gateway/dask_gateway/options.py
@@ -235,9 +235,10 @@ class Number(Field):
         super().__init__(field, default, label=label)
 
     def validate(self, x):
-        if self.min is not None and x < self.min:
+        # Negated so that nan, which compares as neither, is also rejected
+        if self.min is not None and not x >= self.min:
             raise ValueError(f"{self.field} must be >= {self.min:f}, got {x}")
-        if self.max is not None and x > self.max:
+        if self.max is not None and not x <= self.max:
             raise ValueError(f"{self.field} must be <= {self.max:f}, got {x}")
         return x
 
-- 
2.43.0


From 46c614dc0ab9d106dbb24cc535a34a5d597fb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 21/30] fix: report a scale request made while a heartbeat is
 being sent without delay

---
 .../dask_gateway/scheduler_preload.py         | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index d7df9d5..e709d80 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -24,25 +24,30 @@ class Waiter:
     def __init__(self):
         self.task = None
         self.timer = None
+        self.triggered = False
 
     async def wait(self, t):
+        # An interrupt since the last wait (e.g. while a heartbeat was being
+        # sent) must not be lost, skip waiting in that case
+        if not self.triggered:
+            self.task = asyncio.ensure_future(asyncio.sleep(t))
+            try:
+                await self.task
+            except asyncio.CancelledError:
+                if not self.triggered:
+                    raise
+            finally:
+                self.task = None
         self.triggered = False
-        self.task = asyncio.ensure_future(asyncio.sleep(t))
-        try:
-            await self.task
-        except asyncio.CancelledError:
-            if not self.triggered:
-                raise
         if self.timer is not None:
             self.timer.cancel()
             self.timer = None
         return
 
     async def interrupt(self):
+        self.triggered = True
         if self.task is not None:
-            self.triggered = True
-            await cancel_task(self.task)
-            self.task = None
+            self.task.cancel()
 
     def interrupt_soon(self):
         if self.timer is not None:
-- 
2.43.0


From 5badc399a4de6ca4cd76c7aca0289c0971b6a20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 22/30] fix: keep adaptive scale down within a maximum that was
 lowered since

---
 dask-gateway/dask_gateway/scheduler_preload.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index e709d80..4f23bb8 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -346,6 +346,9 @@ class GatewaySchedulerService:
                     await self._scale(target)
                 elif target < self.count:
                     max_window = max(window)
+                    if self.maximum is not None:
+                        # The maximum may have been lowered since
+                        max_window = min(self.maximum, max_window)
                     if max_window < self.count:
                         await self._scale(max_window)
             except asyncio.CancelledError:
-- 
2.43.0


From 80841980b2509529490dffe158f0a89fc44f970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 23/30] fix: keep checking for idleness after a failed shutdown
 request

---
 dask-gateway/dask_gateway/scheduler_preload.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dask-gateway/dask_gateway/scheduler_preload.py b/dask-gateway/dask_gateway/scheduler_preload.py
index 4f23bb8..28fb377 100644
--- a/dask-gateway/dask_gateway/scheduler_preload.py
+++ b/dask-gateway/dask_gateway/scheduler_preload.py
@@ -248,7 +248,11 @@ class GatewaySchedulerService:
                     "Cluster has been idle for %.2f seconds, shutting down",
                     self.idle_timeout,
                 )
-                await self.gateway.shutdown()
+                try:
+                    await self.gateway.shutdown()
+                except Exception as exc:
+                    # Failure. Try again at the next check
+                    logger.warning("Failed to shut down cluster", exc_info=exc)
 
     async def heartbeat(self):
         if self.count < len(self.active_workers):
-- 
2.43.0


From 5a73facf243d114764ca7ec94987da1f4947be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 24/30] fix: cancel the job even if its staging directory is
 gone or can't be removed

The jobqueue launcher's stop action returned without running the cancel
command, and in one case without any reply, when the staging directory didn't
exist or its removal failed.
---
 .../backends/jobqueue/launcher.py             | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
index 6926ab3..91c3378 100644
--- a/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
+++ b/dask-gateway-server/dask_gateway_server/backends/jobqueue/launcher.py
@@ -28,7 +28,7 @@ def run_command(cmd, env, stdin=None):
 
     stdout, stderr = proc.communicate(stdin)
 
-    finish(
+    return dict(
         ok=True,
         returncode=proc.returncode,
         stdout=stdout.decode("utf8", "replace"),
@@ -49,22 +49,22 @@ def start(cmd, env, stdin=None, staging_dir=None, files=None):
                 error=f"Error setting up staging directory {staging_dir}: {exc}",
             )
             return
-    run_command(cmd, env, stdin=stdin)
+    finish(**run_command(cmd, env, stdin=stdin))
 
 
 def stop(cmd, env, staging_dir=None):
-    if staging_dir:
-        if not os.path.exists(staging_dir):
-            return
+    # The job is always stopped, even if its staging directory is already gone
+    # or can't be removed.
+    error = None
+    if staging_dir and os.path.exists(staging_dir):
         try:
             shutil.rmtree(staging_dir)
         except Exception as exc:
-            finish(
-                ok=False,
-                error=f"Error removing staging directory {staging_dir}: {exc}",
-            )
-            return
-    run_command(cmd, env)
+            error = f"Error removing staging directory {staging_dir}: {exc}"
+    result = run_command(cmd, env)
+    if error is not None:
+        result = dict(ok=False, error=error)
+    finish(**result)
 
 
 def main():
-- 
2.43.0


From 110abfdc4f0f95c8ee8506ed63c9d1f0156e631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 25/30] fix: one Yarn application that can't be queried no
 longer fails the whole status check

---
 .../dask_gateway_server/backends/yarn.py         | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 7c6155a..26d93cf 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -230,10 +230,16 @@ class YarnBackend(DBBackendBase):
             if app_id is None:
                 results.append(False)
                 continue
-            report = await self.async_apply(
-                self.skein_client.application_report, app_id
-            )
-            ok = str(report.state) not in {"FAILED", "KILLED", "FINISHED"}
+            try:
+                report = await self.async_apply(
+                    self.skein_client.application_report, app_id
+                )
+                ok = str(report.state) not in {"FAILED", "KILLED", "FINISHED"}
+            except Exception as exc:
+                self.log.debug(
+                    "Error getting status for cluster %s", cluster.name, exc_info=exc
+                )
+                ok = True
             results.append(ok)
         return results
 
@@ -267,8 +273,8 @@ class YarnBackend(DBBackendBase):
 
         results = {}
         for cluster, group in grouped.items():
-            app = await self._get_app_client(cluster)
             try:
+                app = await self._get_app_client(cluster)
                 containers = await self.async_apply(
                     app.get_containers, services=("dask.worker",)
                 )
-- 
2.43.0


From 41f6697c16a8e92b689c8defdeb2e46829a4448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 26/30] fix: clean up what was started when the gateway's
 start-up fails half-way

---
 dask-gateway-server/dask_gateway_server/backends/base.py | 3 ++-
 dask-gateway-server/dask_gateway_server/backends/yarn.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dask-gateway-server/dask_gateway_server/backends/base.py b/dask-gateway-server/dask_gateway_server/backends/base.py
index d7ad5aa..60b1b1b 100644
--- a/dask-gateway-server/dask_gateway_server/backends/base.py
+++ b/dask-gateway-server/dask_gateway_server/backends/base.py
@@ -153,7 +153,8 @@ class Backend(LoggingConfigurable):
         """Called when the server is shutting down.
 
         Do any cleanup tasks in this method"""
-        await self.session.close()
+        if hasattr(self, "session"):
+            await self.session.close()
 
     async def list_clusters(self, username=None, statuses=None):
         """List known clusters.
diff --git a/dask-gateway-server/dask_gateway_server/backends/yarn.py b/dask-gateway-server/dask_gateway_server/backends/yarn.py
index 26d93cf..f0ed49d 100644
--- a/dask-gateway-server/dask_gateway_server/backends/yarn.py
+++ b/dask-gateway-server/dask_gateway_server/backends/yarn.py
@@ -200,7 +200,8 @@ class YarnBackend(DBBackendBase):
         self.app_address_cache = {}
 
     async def do_cleanup(self):
-        self.skein_client.close()
+        if hasattr(self, "skein_client"):
+            self.skein_client.close()
 
     async def do_start_cluster(self, cluster):
         with NamedTemporaryFile() as cert_fil, NamedTemporaryFile() as key_fil:
-- 
2.43.0


From d9cbaa365467a55a99209a27af04beb876d16b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 27/30] fix: keep the proxy running when accepting a connection
 fails

---
 .../dask-gateway-proxy/cmd/dask-gateway-proxy/main.go          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
index b6437af..16e7931 100644
--- a/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
+++ b/dask-gateway-server/dask-gateway-proxy/cmd/dask-gateway-proxy/main.go
@@ -538,7 +538,10 @@ func (p *Proxy) runTCP(ln net.Listener, forwarder *Forwarder) {
 	for {
 		c, err := ln.Accept()
 		if err != nil {
+			// e.g. out of file descriptors, try again shortly
 			p.logger.Debugf("Failed to accept new connection: %s", err)
+			time.Sleep(10 * time.Millisecond)
+			continue
 		}
 
 		go p.handleConnection(c.(*net.TCPConn), forwarder)
-- 
2.43.0


From da1ced70596090bc8e1eef6672f40ca57ed560c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:33 +0000
Subject: [PATCH 28/30] fix: use traefik.image.pullPolicy for the Traefik image
 in the Helm chart

---
 resources/helm/dask-gateway/templates/traefik/deployment.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/helm/dask-gateway/templates/traefik/deployment.yaml b/resources/helm/dask-gateway/templates/traefik/deployment.yaml
index 44dafdc..91d1335 100644
--- a/resources/helm/dask-gateway/templates/traefik/deployment.yaml
+++ b/resources/helm/dask-gateway/templates/traefik/deployment.yaml
@@ -32,7 +32,7 @@ spec:
       containers:
         - name: traefik
           image: {{ .Values.traefik.image.name }}:{{ .Values.traefik.image.tag }}
-          imagePullPolicy: {{ .Values.gateway.image.pullPolicy }}
+          imagePullPolicy: {{ .Values.traefik.image.pullPolicy }}
           securityContext:
             runAsUser: 1000
             runAsGroup: 1000
-- 
2.43.0


From f7d86b73ca2b4cd2402accbf50f8c26fd7dae628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:03 +0000
Subject: [PATCH 29/30] fix: keep the brackets of an IPv6 gateway address in
 the client's proxy address

---
 dask-gateway/dask_gateway/client.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dask-gateway/dask_gateway/client.py b/dask-gateway/dask_gateway/client.py
index e86fd3c..5191229 100644
--- a/dask-gateway/dask_gateway/client.py
+++ b/dask-gateway/dask_gateway/client.py
@@ -224,6 +224,13 @@ class ClusterReport:
         )
 
 
+def _format_netloc(host, port):
+    # IPv6 addresses need brackets, which ``urlparse(...).hostname`` strips
+    if host and ":" in host:
+        host = f"[{host}]"
+    return "%s:%d" % (host, port)
+
+
 def _get_default_request_kwargs(scheme):
     proxy = proxy_auth = None
 
@@ -300,12 +307,12 @@ class Gateway:
                     proxy_port = {"http": 80, "https": 443}.get(parsed.scheme, 8786)
                 else:
                     proxy_port = parsed.port
-                proxy_netloc = "%s:%d" % (parsed.hostname, proxy_port)
+                proxy_netloc = _format_netloc(parsed.hostname, proxy_port)
             else:
                 proxy_netloc = proxy_address
         elif isinstance(proxy_address, int):
             parsed = urlparse(address)
-            proxy_netloc = "%s:%d" % (parsed.hostname, proxy_address)
+            proxy_netloc = _format_netloc(parsed.hostname, proxy_address)
         elif isinstance(proxy_address, str):
             parsed = urlparse(proxy_address)
             proxy_netloc = parsed.netloc if parsed.netloc else proxy_address
-- 
2.43.0


From fa1a54d50549b90f99283b8bdd4c11ff841e7fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:17 +0000
Subject: [PATCH 30/30] fix: read the non-ASCII names and passwords that the
 client's basic authentication sends

---
 dask-gateway-server/dask_gateway_server/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dask-gateway-server/dask_gateway_server/auth.py b/dask-gateway-server/dask_gateway_server/auth.py
index 95a4c88..28486c5 100644
--- a/dask-gateway-server/dask_gateway_server/auth.py
+++ b/dask-gateway-server/dask_gateway_server/auth.py
@@ -199,7 +199,7 @@ class SimpleAuthenticator(Authenticator):
         if auth_type != "Basic":
             raise unauthorized("Basic")
 
-        auth_key = base64.b64decode(auth_key).decode("ascii")
+        auth_key = base64.b64decode(auth_key).decode("latin1")
         user, password = auth_key.split(":", 1)
 
         if self.password and password != self.password:
-- 
2.43.0

