From e65675d75a5d94aee89c2d9e30245e7ea2d93d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 01/21] fix: report errors without reason or position (e.g.
 timeouts) as diagnostics

VerificationService._failure_diagnostics dereferenced error.reason and the
error's source position unconditionally, so a verification timeout escaped
from verify() as an AttributeError.
---
 src/nagini_translation/service.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index cbafa6e..7391e14 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -467,16 +467,27 @@ class VerificationService:
                 file_name = pos.file_name
             except Exception:
                 file_name = path
+            if error.reason is None:
+                # E.g. a timeout, which has neither a reason nor a position.
+                diag = self._point_diagnostic(file_name, error.string(False, False),
+                                              error.identifier)
+                if diag not in diagnostics:
+                    diagnostics.append(diag)
+                continue
             vias = [(str(reason), str(p))
                     for reason, p in (error.reason.vias or error._vias or [])]
             try:
                 reason_pos = (error.reason.position.line, error.reason.position.column)
             except Exception:
                 reason_pos = None
+            try:
+                span = (pos.line, pos.column, pos.line_end, pos.column_end)
+            except Exception:
+                span = (1, 0, 1, 0)
             diag = Diagnostic(
                 file=file_name,
-                start_line=pos.line, start_col=pos.column,
-                end_line=pos.line_end, end_col=pos.column_end,
+                start_line=span[0], start_col=span[1],
+                end_line=span[2], end_col=span[3],
                 message=error.message,
                 code=error.full_id,
                 reason=error.reason.string(False),
-- 
2.43.0


From e80f27d4bd4ad924b932c31dbf4f6551b7a5e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 02/21] fix: cancel runs in every phase, and report only
 cancelled runs as cancelled

A run could only be cancelled between its submission and its result: a
cancellation during the translation was lost, and a newer run with the same
token hid the older one. Any failure while awaiting a result (a crashed job, a
full server) was reported as a cancellation. Keep a record per run instead.
cancel() and shutdown() also reach a ViperServer that is no longer used for
new requests.
---
 src/nagini_translation/service.py | 95 ++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 34 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 7391e14..23d8860 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -110,6 +110,14 @@ class VerifyResult:
         return result
 
 
+class _Run:
+    """A verification that is in flight, so that it can be cancelled."""
+
+    def __init__(self):
+        self.job_id = None          # VerJobId, once submitted
+        self.cancelled = False
+
+
 class VerificationService:
     """
     Long-lived, in-process Nagini verification service.
@@ -161,7 +169,7 @@ class VerificationService:
         # error conversion). The slow Viper verification runs *outside* this
         # lock, so multiple verifications proceed concurrently.
         self._state_lock = threading.Lock()
-        # Maps a caller-chosen token to the in-flight VerJobId, for precise
+        # Maps a caller-chosen token (or None) to its in-flight runs, for precise
         # per-job cancellation.
         self._jobs = {}
         self._jobs_lock = threading.Lock()
@@ -202,9 +210,23 @@ class VerificationService:
         path = os.path.abspath(path)
         viper_args = list(viper_args) if viper_args else []
         if self._can_run_concurrently(arp):
-            return self._verify_concurrent(path, selected, base_dir, counterexample,
-                                           ignore_global, viper_args,
-                                           include_viper, job_token)
+            start = time.time()
+            run = _Run()
+            with self._jobs_lock:
+                self._jobs.setdefault(job_token, []).append(run)
+            try:
+                result = self._verify_concurrent(path, selected, base_dir, counterexample,
+                                                 ignore_global, viper_args,
+                                                 include_viper, run)
+            finally:
+                with self._jobs_lock:
+                    self._jobs[job_token].remove(run)
+                    if not self._jobs[job_token]:
+                        del self._jobs[job_token]
+            if run.cancelled:
+                return VerifyResult(False, [], time.time() - start, cancelled=True,
+                                    viper_program=result.viper_program)
+            return result
         with self._state_lock:
             return self._verify_serial(path, selected, base_dir, arp, counterexample,
                                        ignore_global, viper_args, include_viper)
@@ -228,17 +250,22 @@ class VerificationService:
 
         With a ``job_token`` that is currently running, stops precisely that
         job; without one, interrupts all running jobs. Does not take the state
-        lock, so it can preempt an in-flight verification.
+        lock, so it can preempt an in-flight verification. A run that has not
+        been submitted yet is cancelled as soon as it would be.
         """
-        if not config.use_viper_server:
-            return
+        with self._jobs_lock:
+            if job_token is not None:
+                runs = list(self._jobs.get(job_token, ()))
+            else:
+                runs = [run for runs in self._jobs.values() for run in runs]
+            for run in runs:
+                run.cancelled = True
+            job_ids = [run.job_id for run in runs if run.job_id is not None]
         try:
             from nagini_translation.viper_server import get_viper_server_manager
             manager = get_viper_server_manager(self.jvm)
             if job_token is not None:
-                with self._jobs_lock:
-                    job_id = self._jobs.get(job_token)
-                if job_id is not None:
+                for job_id in job_ids:
                     manager.cancel_job(job_id)
             else:
                 manager.cancel_all()
@@ -264,12 +291,16 @@ class VerificationService:
                 logging.exception('Error flushing ViperServer cache.')
 
     def shutdown(self) -> None:
-        if config.use_viper_server:
-            try:
-                from nagini_translation.viper_server import get_viper_server_manager
-                get_viper_server_manager(self.jvm).stop()
-            except Exception:
-                logging.exception('Error shutting down ViperServer.')
+        with self._jobs_lock:
+            for runs in self._jobs.values():
+                for run in runs:
+                    run.cancelled = True
+        # Even if the ViperServer is no longer used, it may have been started.
+        try:
+            from nagini_translation.viper_server import get_viper_server_manager
+            get_viper_server_manager(self.jvm).stop()
+        except Exception:
+            logging.exception('Error shutting down ViperServer.')
 
     def current_options(self) -> dict:
         """The effective configuration, as client-facing (camelCase) options."""
@@ -335,7 +366,7 @@ class VerificationService:
 
     def _verify_concurrent(self, path, selected, base_dir, counterexample,
                            ignore_global, viper_args, include_viper,
-                           job_token) -> VerifyResult:
+                           run) -> VerifyResult:
         from nagini_translation.viper_server import (build_carbon_backend_args,
                                                      build_silicon_backend_args,
                                                      get_viper_server_manager)
@@ -374,24 +405,20 @@ class VerificationService:
         else:
             backend_args = build_silicon_backend_args(
                 viper_args, counterexample, self._disable_branch_conditions)
-        job_id = manager.submit(prog, path, backend_args, backend=self._backend)
-        if job_token is not None:
-            with self._jobs_lock:
-                self._jobs[job_token] = job_id
-        try:
-            result = manager.await_result(job_id)
-        except Exception:
-            # Most commonly this is a cancelled job (its actor was stopped).
-            logging.debug('Verification job failed or was cancelled.', exc_info=True)
-            return VerifyResult(False, [], time.time() - start, cancelled=True,
-                                viper_program=viper_text)
-        finally:
-            if job_token is not None:
+        result = None
+        if not run.cancelled:
+            try:
+                job_id = manager.submit(prog, path, backend_args, backend=self._backend)
                 with self._jobs_lock:
-                    # Only remove our own mapping; a newer run may have already
-                    # reused this token (e.g. an editor re-saving the same file).
-                    if self._jobs.get(job_token) is job_id:
-                        del self._jobs[job_token]
+                    run.job_id = job_id
+                if run.cancelled:
+                    # Cancelled before cancel() could know about the job.
+                    manager.cancel_job(job_id)
+                result = manager.await_result(job_id)
+            except Exception:
+                # Most commonly this is a cancelled job (its actor was stopped);
+                # verify() tells whether it is.
+                logging.debug('Verification job failed or was cancelled.', exc_info=True)
 
         duration = time.time() - start
         if result is None:
-- 
2.43.0


From c4df587d857192d5b15a78b6694b864078c1f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 03/21] fix: return a structured result for unexpected errors
 during verification

verify() let exceptions such as IsADirectoryError, internal assertion errors
of the translation, or errors of the direct backend escape to the frontends.
---
 src/nagini_translation/service.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 23d8860..cdfa530 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -209,6 +209,18 @@ class VerificationService:
         """
         path = os.path.abspath(path)
         viper_args = list(viper_args) if viper_args else []
+        start = time.time()
+        try:
+            return self._verify(path, selected, base_dir, arp, counterexample,
+                                ignore_global, viper_args, include_viper, job_token)
+        except Exception as e:
+            logging.exception('Verification could not be completed.')
+            return VerifyResult(False, [self._point_diagnostic(
+                path, 'Internal error: {}: {}'.format(type(e).__name__, e),
+                'internal.error')], time.time() - start)
+
+    def _verify(self, path, selected, base_dir, arp, counterexample, ignore_global,
+                viper_args, include_viper, job_token) -> VerifyResult:
         if self._can_run_concurrently(arp):
             start = time.time()
             run = _Run()
-- 
2.43.0


From 75c243c2e6a990adb342b322c757342669bfce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 04/21] fix: run each verification under one configuration

A request read the backend, its arguments and the SIF mode partly before and
partly after waiting for or leaving the state lock, so a concurrent
reconfigure() made it run under a mixture of two configurations. A
reconfigure() whose resources could not be loaded left the new options in
effect with the old resources.
---
 src/nagini_translation/service.py | 55 +++++++++++++++++--------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index cdfa530..d2c1ddc 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -343,6 +343,22 @@ class VerificationService:
             if options.get('viper_jar_path'):
                 logging.warning('viper_jar_path cannot be changed at runtime; '
                                 'ignoring.')
+            sif, bv_size = self._sif, self._bv_size
+            float_encoding = self._float_encoding
+            if options.get('sif') is not None:
+                sif = options['sif']
+            if options.get('int_bitops_size') is not None:
+                bv_size = options['int_bitops_size']
+            if 'float_encoding' in options:
+                float_encoding = options['float_encoding']
+            if (sif, bv_size, float_encoding) != (self._sif, self._bv_size,
+                                                  self._float_encoding):
+                # May fail, so do this before changing anything.
+                import nagini_translation.main as main_module
+                main_module.sil_programs = load_sil_files(
+                    self.jvm, bv_size, sif, float_encoding)
+                self._sif, self._bv_size = sif, bv_size
+                self._float_encoding = float_encoding
             if options.get('z3_path') is not None:
                 config.z3_path = options['z3_path']
             if options.get('boogie_path') is not None:
@@ -356,23 +372,7 @@ class VerificationService:
             if options.get('disable_branch_conditions') is not None:
                 self._disable_branch_conditions = bool(
                     options['disable_branch_conditions'])
-            reload_needed = False
-            if options.get('sif') is not None and options['sif'] != self._sif:
-                self._sif = options['sif']
-                reload_needed = True
-            if (options.get('int_bitops_size') is not None
-                    and options['int_bitops_size'] != self._bv_size):
-                self._bv_size = options['int_bitops_size']
-                reload_needed = True
-            if ('float_encoding' in options
-                    and options['float_encoding'] != self._float_encoding):
-                self._float_encoding = options['float_encoding']
-                reload_needed = True
-            if reload_needed:
-                import nagini_translation.main as main_module
-                main_module.sil_programs = load_sil_files(
-                    self.jvm, self._bv_size, self._sif, self._float_encoding)
-        return self.current_options()
+            return self.current_options()
 
     # -- internals ----------------------------------------------------------
 
@@ -386,6 +386,18 @@ class VerificationService:
         start = time.time()
         # 1. Translate and snapshot this job's error-mapping state (serialized).
         with self._state_lock:
+            if not self._can_run_concurrently(False):
+                # Reconfigured in the meantime.
+                return self._verify_serial(path, selected, base_dir, False,
+                                           counterexample, ignore_global, viper_args,
+                                           include_viper)
+            # Fix the backend options together with those of the translation.
+            backend = self._backend
+            if backend == 'carbon':
+                backend_args = build_carbon_backend_args(viper_args)
+            else:
+                backend_args = build_silicon_backend_args(
+                    viper_args, counterexample, self._disable_branch_conditions)
             self._reset_obligations()
             try:
                 translated = translate(
@@ -412,15 +424,10 @@ class VerificationService:
             error_manager.clear()
 
         # 2. Submit and await the result lock-free, so jobs overlap in Viper.
-        if self._backend == 'carbon':
-            backend_args = build_carbon_backend_args(viper_args)
-        else:
-            backend_args = build_silicon_backend_args(
-                viper_args, counterexample, self._disable_branch_conditions)
         result = None
         if not run.cancelled:
             try:
-                job_id = manager.submit(prog, path, backend_args, backend=self._backend)
+                job_id = manager.submit(prog, path, backend_args, backend=backend)
                 with self._jobs_lock:
                     run.job_id = job_id
                 if run.cancelled:
@@ -449,7 +456,7 @@ class VerificationService:
                 errors = []
                 while it.hasNext():
                     errors.append(it.next())
-                failure = Failure(errors, self.jvm, modules, self._sif)
+                failure = Failure(errors, self.jvm, modules, sif=False)
                 diagnostics = self._failure_diagnostics(failure, path)
             finally:
                 error_manager.clear()
-- 
2.43.0


From 7ec5f2c9e259179376a9fe76d574e0cf5a4ff874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 05/21] fix: accept the arguments of the LSP verify-method
 command separately

pygls 2 passes the elements of a command's argument list as separate,
typed parameters, so the command always failed.
---
 src/nagini_translation/lsp_server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index a4905e6..47e9e01 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -207,8 +207,7 @@ def code_lens(ls: NaginiLanguageServer, params: t.CodeLensParams) -> List[t.Code
 
 
 @server.command(VERIFY_METHOD_COMMAND)
-async def verify_method(ls: NaginiLanguageServer, args):
-    uri, name = args[0], args[1]
+async def verify_method(ls: NaginiLanguageServer, uri: str, name: str):
     await ls.run_verification(uri, selected={name})
 
 
-- 
2.43.0


From 7dc15da7f34147141297b7dcc6087ae465cb0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 06/21] fix: let the LSP server exit when its output is already
 closed

pygls closes the output streams when the client disconnects, so the final
flush raised and the hard exit was never reached; the remaining backend
threads kept the process alive.
---
 src/nagini_translation/lsp_server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index 47e9e01..8bacdff 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -297,8 +297,13 @@ def main():
                 server.service.shutdown()
         except Exception:
             logging.exception('Error shutting down service.')
-        sys.stdout.flush()
-        sys.stderr.flush()
+        # pygls may already have closed these streams by the time we get here;
+        # flushing a closed stream raises ValueError, so ignore it.
+        for stream in (sys.stdout, sys.stderr):
+            try:
+                stream.flush()
+            except (ValueError, OSError):
+                pass
         os._exit(0)
 
 
-- 
2.43.0


From fe38a77c0013484bdac8c9b2b56abdba6caf760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 07/21] fix: keep stdout of the LSP and MCP servers free of
 other output

Warnings and stack traces printed while verifying (e.g. by the
counterexample extractor) ended up between the protocol messages.
---
 src/nagini_translation/lsp_server.py |  6 +++++-
 src/nagini_translation/mcp_server.py | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index 8bacdff..208c8b4 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -287,8 +287,12 @@ def main():
     # Seed the config from CLI args; the client may override individual entries
     # via initializationOptions. The service is built lazily on first use.
     server.service_kwargs = service_kwargs_from_args(args)
+    # Only protocol messages may be written to stdout; whatever is printed while
+    # verifying (e.g. warnings or stack traces) goes to stderr instead.
+    stdin, stdout = sys.stdin.buffer, sys.stdout.buffer
+    sys.stdout = sys.stderr
     try:
-        server.start_io()
+        server.start_io(stdin, stdout)
     finally:
         # ViperServer/Akka leaves non-daemon threads alive; shut down and force
         # exit so the process actually terminates when the client disconnects.
diff --git a/src/nagini_translation/mcp_server.py b/src/nagini_translation/mcp_server.py
index f5b1463..d766a9e 100644
--- a/src/nagini_translation/mcp_server.py
+++ b/src/nagini_translation/mcp_server.py
@@ -17,6 +17,7 @@ diagnostics, and can cancel runs or flush the cache.
 
 import argparse
 import asyncio
+import contextlib
 import logging
 import os
 import shutil
@@ -32,7 +33,18 @@ from nagini_translation.service import (add_service_arguments, make_service,
                                         options_to_kwargs)
 
 
-mcp = FastMCP('nagini')
+@contextlib.asynccontextmanager
+async def _reserve_stdout(_server):
+    """Reserve stdout for protocol messages while the server runs.
+
+    The stdio transport has wrapped the actual stream already; whatever is
+    printed while verifying (e.g. warnings or stack traces) goes to stderr.
+    """
+    with contextlib.redirect_stdout(sys.stderr):
+        yield {}
+
+
+mcp = FastMCP('nagini', lifespan=_reserve_stdout)
 _service = None
 # Multiple verifications can run at once; the service serializes only the fast
 # translation step internally.
-- 
2.43.0


From cab1bc60e8c863879e38a9c40d6bb712aa2bfe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 08/21] fix: never publish diagnostics of a superseded LSP run

---
 src/nagini_translation/lsp_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index 208c8b4..5cdf938 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -68,6 +68,7 @@ class NaginiLanguageServer(LanguageServer):
         self._executor = ThreadPoolExecutor(max_workers=4,
                                             thread_name_prefix='nagini-verify')
         self._last_diagnostics = {}  # uri -> List[Diagnostic]
+        self._newest_run = {}  # uri -> number of the newest run requested for it
 
     def apply_initialization_options(self, options) -> None:
         """Apply client-provided ``initializationOptions`` to the config.
@@ -99,6 +100,8 @@ class NaginiLanguageServer(LanguageServer):
             return
         # Precisely supersede any in-flight run *of this document*; other
         # documents keep verifying concurrently. The job token is the URI.
+        run = self._newest_run.get(uri, 0) + 1
+        self._newest_run[uri] = run
         if self.service is not None:
             self.service.cancel(job_token=uri)
         self.window_log_message(t.LogMessageParams(
@@ -113,8 +116,9 @@ class NaginiLanguageServer(LanguageServer):
                 type=t.MessageType.Error,
                 message='Nagini: verification service unavailable (see log).'))
             return
-        if result.cancelled:
-            # Superseded by a newer run; keep the existing diagnostics.
+        if result.cancelled or self._newest_run[uri] != run:
+            # Superseded by a newer run (which may not have reached this one in
+            # time to cancel it); keep the existing diagnostics.
             return
         self._last_diagnostics[uri] = result.diagnostics
         self.text_document_publish_diagnostics(t.PublishDiagnosticsParams(
-- 
2.43.0


From 71f2a6a89b7a9314a2a28f7e2f1bb901a0a90454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 09/21] fix: do not exit the process on an internal error of
 mypy

---
 src/nagini_translation/lib/typeinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index 3ddf4cd..ee2a57b 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -308,6 +308,8 @@ class TypeInfo:
         result = mypy.options.Options()
         result.strict_optional = strict_optional
         result.show_traceback = True
+        # Raise internal errors of mypy, which otherwise exits the whole process.
+        result.raise_exceptions = True
         # Emit "file:line:col:end_line:end_col: error: msg" so that reported type
         # errors carry a real source range (start and end) instead of only a
         # line, matching the format Nagini produces for verification errors.
-- 
2.43.0


From bdffed58648c0f48695bf2e5c79ca4328152d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 10/21] fix: keep a snippet on disk exactly as long as its
 verification uses it

Also write snippets as UTF-8 whatever the locale.
---
 src/nagini_translation/mcp_server.py | 41 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/mcp_server.py b/src/nagini_translation/mcp_server.py
index d766a9e..620045b 100644
--- a/src/nagini_translation/mcp_server.py
+++ b/src/nagini_translation/mcp_server.py
@@ -23,6 +23,7 @@ import os
 import shutil
 import sys
 import tempfile
+import threading
 
 from concurrent.futures import ThreadPoolExecutor
 from typing import List, Optional
@@ -30,7 +31,7 @@ from typing import List, Optional
 from mcp.server.fastmcp import FastMCP
 
 from nagini_translation.service import (add_service_arguments, make_service,
-                                        options_to_kwargs)
+                                        options_to_kwargs, VerifyResult)
 
 
 @contextlib.asynccontextmanager
@@ -49,6 +50,9 @@ _service = None
 # Multiple verifications can run at once; the service serializes only the fast
 # translation step internally.
 _executor = ThreadPoolExecutor(max_workers=4, thread_name_prefix='nagini-verify')
+# Directories of the snippets that are being verified.
+_snippet_dirs = set()
+_snippet_lock = threading.Lock()
 
 
 async def _run(fn):
@@ -127,18 +131,28 @@ async def verify_snippet(code: str, counterexample: bool = False,
     Set `ignore_global` to skip verification of top-level statements. The other
     parameters are as in `verify_file`.
     """
-    tmp_dir = tempfile.mkdtemp(prefix='nagini_mcp_')
-    tmp_path = os.path.join(tmp_dir, 'snippet.py')
+    result = await _run(lambda: _verify_snippet(
+        code, counterexample=counterexample, ignore_global=ignore_global,
+        viper_args=viper_args, include_viper=include_viper, job_token=job_token))
+    return result.to_dict()
+
+
+def _verify_snippet(code: str, **kwargs) -> VerifyResult:
+    # Runs in a worker thread as a whole: if the client cancels the request, the
+    # directory has to stay until the verification no longer uses it.
+    tmp_dir = None
     try:
-        with open(tmp_path, 'w') as f:
-            f.write(code)
-        result = await _run(lambda: _service.verify(
-            tmp_path, counterexample=counterexample, base_dir=tmp_dir,
-            ignore_global=ignore_global, viper_args=viper_args,
-            include_viper=include_viper, job_token=job_token))
-        return result.to_dict()
+        with _snippet_lock:
+            tmp_dir = tempfile.mkdtemp(prefix='nagini_mcp_')
+            _snippet_dirs.add(tmp_dir)
+            tmp_path = os.path.join(tmp_dir, 'snippet.py')
+            with open(tmp_path, 'w', encoding='utf-8') as f:
+                f.write(code)
+        return _service.verify(tmp_path, base_dir=tmp_dir, **kwargs)
     finally:
-        shutil.rmtree(tmp_dir, ignore_errors=True)
+        if tmp_dir is not None:
+            shutil.rmtree(tmp_dir, ignore_errors=True)
+            _snippet_dirs.discard(tmp_dir)
 
 
 @mcp.tool()
@@ -185,6 +199,11 @@ def main():
             _service.shutdown()
         except Exception:
             logging.exception('Error shutting down service.')
+        # Verifications that are still running end with this process; the lock is
+        # kept so that no new directories appear.
+        _snippet_lock.acquire()
+        for tmp_dir in list(_snippet_dirs):
+            shutil.rmtree(tmp_dir, ignore_errors=True)
         # The stdio transport may already have closed these streams by the time
         # we get here; flushing a closed stream raises ValueError, so ignore it.
         for stream in (sys.stdout, sys.stderr):
-- 
2.43.0


From 80d77f6902445fc7ef82c94ca65f7d3aee39b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:48 +0000
Subject: [PATCH 11/21] fix: do not block the MCP event loop in configure,
 cancel and flush_cache

---
 src/nagini_translation/mcp_server.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/mcp_server.py b/src/nagini_translation/mcp_server.py
index 620045b..5918847 100644
--- a/src/nagini_translation/mcp_server.py
+++ b/src/nagini_translation/mcp_server.py
@@ -18,6 +18,7 @@ diagnostics, and can cancel runs or flush the cache.
 import argparse
 import asyncio
 import contextlib
+import functools
 import logging
 import os
 import shutil
@@ -59,6 +60,19 @@ async def _run(fn):
     return await asyncio.get_event_loop().run_in_executor(_executor, fn)
 
 
+def _blocking_tool(fn):
+    """Register a tool that may have to wait (for a lock or the backend).
+
+    It runs in a thread of its own, not one of those used for verifying, s.t.
+    the server can serve other requests in the meantime.
+    """
+    @functools.wraps(fn)
+    async def run(*args, **kwargs):
+        return await asyncio.to_thread(fn, *args, **kwargs)
+    mcp.tool()(run)
+    return fn
+
+
 @mcp.tool()
 async def verify_file(path: str, method: Optional[str] = None,
                       counterexample: bool = False,
@@ -155,7 +169,7 @@ def _verify_snippet(code: str, **kwargs) -> VerifyResult:
             _snippet_dirs.discard(tmp_dir)
 
 
-@mcp.tool()
+@_blocking_tool
 def configure(options: dict) -> dict:
     """Change verification options for subsequent requests; returns the effective
     configuration.
@@ -170,14 +184,14 @@ def configure(options: dict) -> dict:
     return _service.reconfigure(**options_to_kwargs(options))
 
 
-@mcp.tool()
+@_blocking_tool
 def cancel(job_token: Optional[str] = None) -> dict:
     """Cancel verification: a specific run if `job_token` is given, else all."""
     _service.cancel(job_token=job_token)
     return {'cancelled': True, 'jobToken': job_token}
 
 
-@mcp.tool()
+@_blocking_tool
 def flush_cache() -> dict:
     """Clear the ViperServer result cache."""
     _service.flush_cache()
-- 
2.43.0


From a234ee32555d68f5655beb7342d25a20e99b587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 12/21] fix: end the process when a run with --viper-server
 fails

---
 src/nagini_translation/main.py | 53 +++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f4b46ad..521f895 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -463,6 +463,23 @@ def main() -> None:
     except JVMStartupError as e:
         print('ERROR: {}'.format(e), file=sys.stderr)
         sys.exit(1)
+    if not config.use_viper_server:
+        sys.exit(0 if _run(args, jvm) else 1)
+    success = False
+    try:
+        success = _run(args, jvm)
+        sys.stdout.flush()
+    except BaseException:
+        success = False
+        traceback.print_exc()
+    finally:
+        _exit_with_viper_server(jvm, 0 if success else 1)
+
+
+def _run(args, jvm: JVM) -> bool:
+    """
+    Runs the server or verifies the given file once.
+    """
     if args.server:
         import zmq
         context = zmq.Context()
@@ -492,23 +509,25 @@ def main() -> None:
             translate_and_verify(file, jvm, args, add_response, arp=args.arp,
                                   base_dir=args.base_dir, selected=selected)
             socket.send_string(response[0])
-    else:
-        success = translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
-        if config.use_viper_server:
-            # Shut the ViperServer (and its actor system) down so the process
-            # can terminate.
-            try:
-                from nagini_translation.viper_server import get_viper_server_manager
-                get_viper_server_manager(jvm).stop()
-            except Exception:
-                logging.exception('Error while stopping ViperServer.')
-            # ViperServer/Akka may leave non-daemon threads alive that would keep
-            # the JVM (and process) from exiting; force a hard exit now that the
-            # result has been printed.
-            sys.stdout.flush()
-            sys.stderr.flush()
-            os._exit(0 if success else 1)
-        sys.exit(0 if success else 1)
+    return translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
+
+
+def _exit_with_viper_server(jvm: JVM, code: int) -> None:
+    """
+    Shuts the ViperServer (and its actor system) down and ends the process.
+    """
+    try:
+        from nagini_translation.viper_server import get_viper_server_manager
+        get_viper_server_manager(jvm).stop()
+        sys.stdout.flush()
+        sys.stderr.flush()
+    except Exception:
+        logging.exception('Error while stopping ViperServer.')
+    finally:
+        # ViperServer/Akka may leave non-daemon threads alive that would keep
+        # the JVM (and process) from exiting; force a hard exit now that the
+        # result has been printed.
+        os._exit(code)
 
 
 def _parse_client_request(request: str) -> Tuple[str, Union[Set[str], None]]:
-- 
2.43.0


From b717d019c01873a82f71afa1ebc0870de9d20dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 13/21] fix: answer socket-server requests that cannot be
 handled instead of dying

---
 src/nagini_translation/main.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 521f895..d1fdf47 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -500,15 +500,23 @@ def _run(args, jvm: JVM) -> bool:
         print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
 
         while True:
-            file, selected = _parse_client_request(socket.recv_string())
+            request = socket.recv()
             response = ['']
 
             def add_response(part):
                 response[0] = response[0] + '\n' + part
 
-            translate_and_verify(file, jvm, args, add_response, arp=args.arp,
-                                  base_dir=args.base_dir, selected=selected)
-            socket.send_string(response[0])
+            # A request that cannot be handled must neither take the server
+            # down nor leave its client without an answer.
+            try:
+                file, selected = _parse_client_request(request.decode('utf-8'))
+                translate_and_verify(file, jvm, args, add_response, arp=args.arp,
+                                     base_dir=args.base_dir, selected=selected)
+            except Exception as e:
+                traceback.print_exc()
+                add_response('Verification failed\nInternal error: {}: {}'.format(
+                    type(e).__name__, e))
+            socket.send(response[0].encode('utf-8', 'replace'))
     return translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
 
 
@@ -542,9 +550,12 @@ def _parse_client_request(request: str) -> Tuple[str, Union[Set[str], None]]:
     except ValueError:
         payload = None
     if isinstance(payload, dict):
+        file = payload.get('file')
         select = payload.get('select')
+        if not isinstance(file, str) or not isinstance(select, (str, type(None))):
+            raise ValueError('Invalid request: ' + request)
         selected = set(select.split(',')) if select else None
-        return payload.get('file'), selected
+        return file, selected
     return request, None
 
 
-- 
2.43.0


From b00f1aee6b8495ca946f5e6eabd9f2c43d631021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 14/21] fix: decide on obligations anew for each request of the
 socket server

---
 src/nagini_translation/lib/config.py | 6 +++++-
 src/nagini_translation/main.py       | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/config.py b/src/nagini_translation/lib/config.py
index 81dc03d..e267b37 100644
--- a/src/nagini_translation/lib/config.py
+++ b/src/nagini_translation/lib/config.py
@@ -51,7 +51,11 @@ class ObligationConfig(SectionConfig):
     @disable_all.setter
     def disable_all(self, val):
         """Disable all obligation related checks."""
-        self._info['disable_all'] = str(val)
+        if val is None:
+            # The default: decided separately for each program.
+            self._info.pop('disable_all', None)
+        else:
+            self._info['disable_all'] = str(val)
 
     @property
     def disable_measure_check(self):
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index d1fdf47..cbf259b 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -499,8 +499,12 @@ def _run(args, jvm: JVM) -> bool:
                                   'fall back to the direct Silicon backend.')
         print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
 
+        disable_obligations = config.obligation_config.disable_all
         while True:
             request = socket.recv()
+            # Translating a program without obligations disables their
+            # encoding; this must not carry over to the next program.
+            config.obligation_config.disable_all = disable_obligations
             response = ['']
 
             def add_response(part):
-- 
2.43.0


From aa831eb73b5f131db83917cca1d9577cff1171e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 15/21] fix: start the ViperServer once and release its threads
 when it does not start

---
 src/nagini_translation/viper_server.py | 58 +++++++++++++++++++-------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/nagini_translation/viper_server.py b/src/nagini_translation/viper_server.py
index d62ce3d..aa22ee1 100644
--- a/src/nagini_translation/viper_server.py
+++ b/src/nagini_translation/viper_server.py
@@ -8,6 +8,7 @@ file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 import jpype
 import logging
+import threading
 
 from typing import List
 
@@ -40,10 +41,29 @@ class ViperServerManager:
         self.server = None
         self.executor = None
         self._started = False
+        # Serializes starting and stopping the server.
+        self._lifecycle_lock = threading.Lock()
+        # Set if the server is stopped while it is starting.
+        self._abandoned = False
+        self._flag_lock = threading.Lock()
 
     def start(self) -> None:
-        if self._started:
-            return
+        with self._lifecycle_lock:
+            if self._started:
+                return
+            self._abandoned = False
+            try:
+                self._start()
+                with self._flag_lock:
+                    if self._abandoned:
+                        raise Exception('ViperServer was stopped while it was starting.')
+                    self._started = True
+            except BaseException:
+                # Do not leave the threads of a half-started server behind.
+                self._terminate_executor()
+                raise
+
+    def _start(self) -> None:
         jvm = self.jvm
         if not jvm.is_known_class(jvm.viper.server.frontends.lsp, 'ViperServerService'):
             raise Exception('ViperServer not found on classpath.')
@@ -67,7 +87,6 @@ class ViperServerManager:
         # its inherited verify/getResultsFuture/flushCache/stop API.
         self.server = jvm.viper.server.frontends.lsp.ViperServerService(cfg, self.executor)
         self._await(self.server.start(), timeout_ms=120000)
-        self._started = True
 
     @property
     def started(self) -> bool:
@@ -150,13 +169,23 @@ class ViperServerManager:
             self._await(self.server.getInterruptFutureList())
 
     def stop(self) -> None:
-        if not self._started:
-            return
-        try:
-            if self.server is not None:
-                self._await(self.server.stop(), timeout_ms=15000)
-        except Exception:
-            logging.exception('Error while stopping ViperServer.')
+        with self._flag_lock:
+            # Do not wait for a server that is starting.
+            self._abandoned = True
+            if not self._started:
+                return
+        with self._lifecycle_lock:
+            if not self._started:
+                return
+            try:
+                if self.server is not None:
+                    self._await(self.server.stop(), timeout_ms=15000)
+            except Exception:
+                logging.exception('Error while stopping ViperServer.')
+            self._terminate_executor()
+            self._started = False
+
+    def _terminate_executor(self) -> None:
         # Terminate the Akka actor system / thread pool, otherwise its
         # non-daemon threads keep the JVM (and hence the process) alive.
         try:
@@ -165,18 +194,19 @@ class ViperServerManager:
                 self.executor.terminate(default)
         except Exception:
             logging.exception('Error while terminating ViperServer executor.')
-        self._started = False
 
 
 _MANAGER = None
+_MANAGER_LOCK = threading.Lock()
 
 
 def get_viper_server_manager(jvm: JVM) -> ViperServerManager:
     """Return the process-wide :class:`ViperServerManager`, creating it lazily."""
     global _MANAGER
-    if _MANAGER is None:
-        _MANAGER = ViperServerManager(jvm)
-    return _MANAGER
+    with _MANAGER_LOCK:
+        if _MANAGER is None:
+            _MANAGER = ViperServerManager(jvm)
+        return _MANAGER
 
 
 class ViperServer:
-- 
2.43.0


From b851ecf30122772f6d2d4d0e24bf75365c283507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:27 +0000
Subject: [PATCH 16/21] fix: run requests concurrently once the ViperServer has
 been enabled or recovered

---
 src/nagini_translation/main.py    | 11 +++++++----
 src/nagini_translation/service.py | 29 ++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index cbf259b..043d86e 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -225,11 +225,12 @@ def collect_modules(analyzer: Analyzer, path: str) -> None:
         task()
 
 def get_verifier(path: str, jvm: JVM, viper_args: List[str], backend=ViperVerifier.silicon,
-                 counterexample=False, disable_branch_conditions=False, arp=False, sif=False):
+                 counterexample=False, disable_branch_conditions=False, arp=False, sif=False,
+                 use_viper_server=True):
     # The in-process ViperServer backend supports both Silicon and Carbon (but
     # not SIF or ARP). On any failure to construct it (e.g. it is not on the
     # classpath), fall back to the corresponding direct backend.
-    if (config.use_viper_server and backend in (ViperVerifier.silicon, ViperVerifier.carbon)
+    if (use_viper_server and config.use_viper_server and backend in (ViperVerifier.silicon, ViperVerifier.carbon)
             and not arp and not sif):
         try:
             from nagini_translation.viper_server import (ViperServer,
@@ -247,13 +248,15 @@ def get_verifier(path: str, jvm: JVM, viper_args: List[str], backend=ViperVerifi
 
 def verify(modules, prog: 'viper.silver.ast.Program', path: str, jvm: JVM, viper_args: List[str],
            backend=ViperVerifier.silicon, arp=False, counterexample=False,
-           sif=False, disable_branch_conditions=False) -> VerificationResult:
+           sif=False, disable_branch_conditions=False,
+           use_viper_server=True) -> VerificationResult:
     """
     Verifies the given Viper program
     """
     try:
         verifier = get_verifier(path, jvm, viper_args, backend, counterexample,
-                                disable_branch_conditions, arp=arp, sif=sif)
+                                disable_branch_conditions, arp=arp, sif=sif,
+                                use_viper_server=use_viper_server)
         vresult = verifier.verify(modules, prog, arp=arp, sif=sif)
         return vresult
     except JException as je:
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index d2c1ddc..4926729 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -173,6 +173,7 @@ class VerificationService:
         # per-job cancellation.
         self._jobs = {}
         self._jobs_lock = threading.Lock()
+        self._shut_down = False
 
         # JVM() routes JVM System.out to System.err and quiets logback, so the
         # JSON-RPC stream of a stdio-based LSP/MCP frontend on stdout stays clean.
@@ -221,6 +222,7 @@ class VerificationService:
 
     def _verify(self, path, selected, base_dir, arp, counterexample, ignore_global,
                 viper_args, include_viper, job_token) -> VerifyResult:
+        self._start_server(arp)
         if self._can_run_concurrently(arp):
             start = time.time()
             run = _Run()
@@ -284,9 +286,28 @@ class VerificationService:
         except Exception:
             logging.exception('Error cancelling verification.')
 
+    def _uses_viper_server(self, arp: bool) -> bool:
+        return not (arp or self._sif or self._backend not in ('silicon', 'carbon')
+                    or not config.use_viper_server)
+
+    def _start_server(self, arp: bool) -> None:
+        """Start the ViperServer if it is to be used but is not running, because it
+        has been enabled since the service was created, or could not be started then.
+        """
+        if self._shut_down or not self._uses_viper_server(arp):
+            return
+        try:
+            from nagini_translation.viper_server import get_viper_server_manager
+            manager = get_viper_server_manager(self.jvm)
+            manager.start()
+            if self._shut_down:
+                manager.stop()
+        except Exception:
+            logging.exception('ViperServer could not be started; verification '
+                              'will use the direct backend.')
+
     def _can_run_concurrently(self, arp: bool) -> bool:
-        if (arp or self._sif or self._backend not in ('silicon', 'carbon')
-                or not config.use_viper_server):
+        if not self._uses_viper_server(arp):
             return False
         try:
             from nagini_translation.viper_server import get_viper_server_manager
@@ -303,6 +324,7 @@ class VerificationService:
                 logging.exception('Error flushing ViperServer cache.')
 
     def shutdown(self) -> None:
+        self._shut_down = True
         with self._jobs_lock:
             for runs in self._jobs.values():
                 for run in runs:
@@ -485,7 +507,8 @@ class VerificationService:
             vresult = verify_program(
                 modules, prog, path, self.jvm, viper_args, backend=backend,
                 arp=arp, counterexample=counterexample, sif=self._sif,
-                disable_branch_conditions=self._disable_branch_conditions)
+                disable_branch_conditions=self._disable_branch_conditions,
+                use_viper_server=False)
             duration = time.time() - start
             if vresult is None:
                 # main.verify swallows JVM exceptions and returns None.
-- 
2.43.0


From 26be7e68569d45a1cd5530f78499fda957a992d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 17/21] fix: type check every analyzed module anew, whatever
 the cache holds

Modules reached by relative imports were looked up under their unresolved
name, so a second run took them from mypy's cache, without the syntax trees
Nagini needs, and rejected a program that the first run had verified. The
loop also overwrote the id being looked up, so that a module was looked up
under the name of another one.
---
 src/nagini_translation/lib/typeinfo.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index ee2a57b..dece1c9 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -364,16 +364,12 @@ class TypeInfo:
                 for i in to_handle:
                     if i in fl:
                         imports_not_handled.remove(i)
-                        for ii in fl[i][0].imports:
-                            ids = []
-                            if isinstance(ii, mypy.build.Import):
-                                ids.extend([id for id, _ in ii.ids])
-                            else:
-                                ids.append(ii.id)
-                            for id in ids:
-                                if id not in IGNORED_IMPORTS:
-                                    imports_not_handled.add(id)
-                                    directly_imported.add(id)
+                        # Let mypy compute the imported modules, s.t. relative imports are resolved and
+                        # submodules are included exactly like in the dependencies we iterate over below.
+                        for _, imported, _ in mgr.all_imported_modules_in_file(fl[i][0]):
+                            if imported not in IGNORED_IMPORTS:
+                                imports_not_handled.add(imported)
+                                directly_imported.add(imported)
                 if id == '__main__' or id == module_name:
                     imports_not_handled.add(id)
                     directly_imported.add(id)
-- 
2.43.0


From 1a853afaf6a30d309b6ca80849d7219b46a8a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:59 +0000
Subject: [PATCH 18/21] fix: type check without the cache when the cache is
 unusable

A truncated or otherwise damaged file in mypy's cache (after a crash or a
power failure) or a full disk made every later run fail with an internal
error or a bogus type error. Type check once more without the cache then.
---
 src/nagini_translation/lib/typeinfo.py | 27 ++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index dece1c9..e580853 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -21,6 +21,9 @@ from typing import List, Optional, Union
 
 logger = logging.getLogger('nagini_translation.lib.typeinfo')
 
+# Part of the error message with which mypy reports that it cannot read its cache.
+BAD_CACHE_MESSAGE = 'Error reading JSON file'
+
 
 def col(node) -> Optional[int]:
     """
@@ -324,6 +327,26 @@ class TypeInfo:
         result.cache_dir = '.mypy_cache_strict' if strict_optional else '.mypy_cache_nonstrict'
         return result
 
+    def _build(self, sources: List[BuildSource], options: mypy.options.Options) -> mypy.build.BuildResult:
+        """
+        Runs mypy on the given sources. If that fails because the files in mypy's
+        cache are damaged or cannot be written, runs mypy again without a cache.
+        """
+        try:
+            result = mypy.build.build(sources, options)
+            bad_cache = any(BAD_CACHE_MESSAGE in m for m in result.errors)
+        except mypy.errors.CompileError as e:
+            bad_cache = any(BAD_CACHE_MESSAGE in m for m in e.messages)
+            if not bad_cache:
+                raise
+        except Exception:
+            bad_cache = True
+        if not bad_cache:
+            return result
+        logger.warning('Could not use the type checking cache %s, type checking without it.', options.cache_dir)
+        options.cache_dir = os.devnull
+        return mypy.build.build(sources, options)
+
     def check(self, filename: str, base_dir: str = None) -> bool:
         """
         Typechecks the given file and collects all type information needed for
@@ -382,13 +405,13 @@ class TypeInfo:
 
             sources = [BuildSource(filename, module_name, None, base_dir=base_dir)]
 
-            res_strict = mypy.build.build(sources, options_strict)
+            res_strict = self._build(sources, options_strict)
 
             if res_strict.errors:
                 # Run mypy a second time with strict optional checking disabled,
                 # s.t. we don't get overapproximated none-related errors.
                 options_non_strict = self._create_options(False)
-                res_non_strict = mypy.build.build(
+                res_non_strict = self._build(
                     [BuildSource(filename, module_name, None, base_dir=base_dir)],
                     options_non_strict
                 )
-- 
2.43.0


From 3add3eafce15cbfe3df53dce73a545b61b0c49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:57 +0000
Subject: [PATCH 19/21] fix: analyze the same contents of each file that were
 type checked

The analyzer read source files a second time, after type checking. If a file
changed in between, the types of one version were combined with the program of
another, leading to internal errors or answers that are right for neither.
---
 src/nagini_translation/analyzer.py     |  4 +---
 src/nagini_translation/lib/typeinfo.py | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 63c5053..02b597b 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -10,7 +10,6 @@ import logging
 import os
 import nagini_contracts.io_builtins
 import nagini_contracts.lock
-import tokenize
 
 from collections import OrderedDict
 from nagini_contracts.contracts import CONTRACT_FUNCS, CONTRACT_WRAPPER_FUNCS, GHOST_BUILTINS
@@ -159,8 +158,7 @@ class Analyzer(ast.NodeVisitor):
             # This is a module that corresponds to a directory, so it has no
             # contents of its own.
             return
-        with tokenize.open(abs_path) as file:
-            text = file.read()
+        text = self.types.read_source(abs_path)
         try:
             # Type comments are needed to extract a program which still type
             # checks; they are ignored everywhere else, since Nagini gets its
diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index e580853..3c92e6a 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -5,11 +5,14 @@ License, v. 2.0. If a copy of the MPL was not distributed with this
 file, You can obtain one at http://mozilla.org/MPL/2.0/.
 """
 
+import io
 import logging
 import mypy.build
 import os
+import tokenize
 
 from mypy.build import BuildSource
+from mypy.fscache import FileSystemCache
 from nagini_translation.lib.constants import IGNORED_IMPORTS, LITERALS
 from nagini_translation.mypy_patches.visitor import TraverserVisitor
 
@@ -300,6 +303,19 @@ class TypeInfo:
         self.type_vars = {}
         self.ghost_names = {}
         self.module_name = None
+        # All source files are read through this, s.t. everything that looks at
+        # a file sees the same contents, even if the file changes in the meantime.
+        self._file_cache = FileSystemCache()
+
+    def read_source(self, abs_path: str) -> str:
+        """
+        Returns the contents of the given file, as they were when it was type checked.
+        """
+        path = next((p for p in self.files.values() if os.path.abspath(p) == abs_path), abs_path)
+        data = self._file_cache.read(path)
+        encoding, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
+        with io.TextIOWrapper(io.BytesIO(data), encoding) as file:
+            return file.read()
 
     def _create_options(self, strict_optional: bool):
         """
@@ -333,7 +349,7 @@ class TypeInfo:
         cache are damaged or cannot be written, runs mypy again without a cache.
         """
         try:
-            result = mypy.build.build(sources, options)
+            result = mypy.build.build(sources, options, fscache=self._file_cache)
             bad_cache = any(BAD_CACHE_MESSAGE in m for m in result.errors)
         except mypy.errors.CompileError as e:
             bad_cache = any(BAD_CACHE_MESSAGE in m for m in e.messages)
@@ -345,7 +361,7 @@ class TypeInfo:
             return result
         logger.warning('Could not use the type checking cache %s, type checking without it.', options.cache_dir)
         options.cache_dir = os.devnull
-        return mypy.build.build(sources, options)
+        return mypy.build.build(sources, options, fscache=self._file_cache)
 
     def check(self, filename: str, base_dir: str = None) -> bool:
         """
-- 
2.43.0


From 3fa078378a752da12648a2477b6088da33bf8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:37 +0000
Subject: [PATCH 20/21] fix: order the classes of a union independently of
 memory addresses

---
 src/nagini_translation/lib/program_nodes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 1490a5b..ec504bf 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -45,7 +45,7 @@ from nagini_translation.lib.views import (
     IOOperationContentDict,
 )
 from typing import Any, Dict, List, Optional, Set, Tuple
-from toposort import toposort_flatten
+from toposort import toposort
 
 
 class ContainerInterface(metaclass=ABCMeta):
@@ -1950,7 +1950,11 @@ def toposort_classes(class_set: Set[PythonClass]) -> List[PythonClass]:
     for type in class_set:
         map[type] = set(type.all_subclasses) & class_set
 
-    return list(toposort_flatten(map, False))
+    result = []
+    for group in toposort(map):
+        # Sets are ordered by memory addresses; use an order that is the same every time.
+        result.extend(sorted(group, key=lambda cls: (cls.name, cls.module.type_prefix)))
+    return result
 
 def chain_if_stmts(guarded_blocks: List[Tuple[Expr, Stmt]],
                    viper, position, info, ctx) -> Stmt:
-- 
2.43.0


From a681dc3ed5080d84d2c3ca34ef9927fb3429cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:00 +0000
Subject: [PATCH 21/21] fix: report an ill-formed global variable instead of
 failing on its message

---
 src/nagini_translation/lib/errors/messages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/errors/messages.py b/src/nagini_translation/lib/errors/messages.py
index 87a15e8..c92a9cd 100644
--- a/src/nagini_translation/lib/errors/messages.py
+++ b/src/nagini_translation/lib/errors/messages.py
@@ -55,8 +55,10 @@ ERRORS = {
     'invariant.not.established':
         lambda n: 'Loop invariant might not hold on entry.',
     'function.not.wellformed':
-        lambda n: ('Function {} might not be '
-                   'well-formed.').format(get_containing_member(n).name),
+        lambda n: (('Function {} might not be '
+                    'well-formed.').format(get_containing_member(n).name)
+                   if get_containing_member(n) is not None
+                   else 'Global variable might not be well-formed.'),
     'predicate.not.wellformed':
         lambda n: ('Predicate {} might not be '
                    'well-formed.').format(get_containing_member(n).name),
-- 
2.43.0

