From 78fa4190b688336cad0ae05cf9b2e256c473054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:57 +0000
Subject: [PATCH 01/45] Add guarded hooks for deterministic simulation

TOYWASM_ENABLE_SIM_HOOKS lets a simulator choose the initial interrupt
check interval and inject restarts at interrupt checks.
It is off by default and changes nothing then.
---
 lib/exec.c      | 10 ++++++++++
 lib/sim_hooks.h | 30 ++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)
 create mode 100644 lib/sim_hooks.h

diff --git a/lib/exec.c b/lib/exec.c
index 77e0eef..6c9c767 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -13,6 +13,7 @@
 #include "leb128.h"
 #include "platform.h"
 #include "restart.h"
+#include "sim_hooks.h"
 #include "suspend.h"
 #include "timeutil.h"
 #include "type.h"
@@ -1077,6 +1078,11 @@ check_interrupt(struct exec_context *ctx)
                 }
         }
 #endif /* defined(TOYWASM_ENABLE_WASM_THREADS) */
+#if defined(TOYWASM_ENABLE_SIM_HOOKS)
+        if (toywasm_sim_hook_restart(ctx)) {
+                return ETOYWASMRESTART;
+        }
+#endif /* defined(TOYWASM_ENABLE_SIM_HOOKS) */
 #if defined(TOYWASM_USE_USER_SCHED)
         if (ctx->sched != NULL && sched_need_resched(ctx->sched)) {
                 xlog_trace("%s: need resched ctx %p", __func__, (void *)ctx);
@@ -1490,6 +1496,10 @@ exec_context_init(struct exec_context *ctx, struct instance *inst,
         report_init(&ctx->report0);
         ctx->report = &ctx->report0;
         ctx->check_interval = CHECK_INTERVAL_DEFAULT;
+#if defined(TOYWASM_ENABLE_SIM_HOOKS)
+        ctx->check_interval =
+                toywasm_sim_hook_check_interval(ctx->check_interval);
+#endif /* defined(TOYWASM_ENABLE_SIM_HOOKS) */
         exec_options_set_defaults(&ctx->options);
 }
 
diff --git a/lib/sim_hooks.h b/lib/sim_hooks.h
new file mode 100644
index 0000000..86497ef
--- /dev/null
+++ b/lib/sim_hooks.h
@@ -0,0 +1,30 @@
+#if !defined(_TOYWASM_SIM_HOOKS_H)
+#define _TOYWASM_SIM_HOOKS_H
+
+/*
+ * hooks for a deterministic simulator.
+ *
+ * they are compiled in only when TOYWASM_ENABLE_SIM_HOOKS is defined.
+ * in that case, the functions here should be provided by the simulator.
+ */
+
+#if defined(TOYWASM_ENABLE_SIM_HOOKS)
+#include <stdbool.h>
+#include <stdint.h>
+
+#include "platform.h"
+
+struct exec_context;
+
+__BEGIN_EXTERN_C
+
+/* the initial value of exec_context::check_interval */
+uint32_t toywasm_sim_hook_check_interval(uint32_t default_interval);
+
+/* if true, check_interrupt requests an artificial restart */
+bool toywasm_sim_hook_restart(struct exec_context *ctx);
+
+__END_EXTERN_C
+#endif /* defined(TOYWASM_ENABLE_SIM_HOOKS) */
+
+#endif /* !defined(_TOYWASM_SIM_HOOKS_H) */
-- 
2.43.0


From dcfa13b6f8ba56eb068d164f4b4720782668a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 02/45] fix: resume threads before retrying a raced shared
 memory growth

When two threads grow the same shared memory, the one that loses the race
starts over while the other threads are still suspended. It then waits for
itself and the whole process hangs. Resume the threads before retrying.
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..02eb9ae 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -490,6 +490,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 46db0aae9d7658f8a8ffe1e1c846e005ea2bb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 03/45] fix: update the size of a grown shared memory before
 resuming threads

Other threads were resumed after the allocation had been extended but before
the size was updated. A memory access in that window sees an allocation
larger than the memory, which is an assertion failure in debug builds.
---
 lib/exec_insn_subr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 02eb9ae..12e1f9b 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -512,6 +512,11 @@ retry:
                                 mi->data = np;
                                 assert(new_size_in_bytes > mi->allocated);
                                 mi->allocated = new_size_in_bytes;
+                                /*
+                                 * update the size before resuming other
+                                 * threads.
+                                 */
+                                mi->size_in_pages = new_size;
                         }
                 }
 #if defined(TOYWASM_ENABLE_WASM_THREADS)
-- 
2.43.0


From 542d8f25c244e46cd95f1a88f25de158c008a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 04/45] fix: bound accesses to preallocated shared memory by
 its size

With TOYWASM_PREALLOC_SHARED_MEMORY the allocation of a shared memory is
larger than the memory until it has grown to its maximum. Accesses were
checked against the allocation, so that out of bounds accesses did not trap,
and an assertion about the two sizes failed in debug builds.
---
 lib/exec_insn_subr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 12e1f9b..a18ef1d 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -44,9 +44,11 @@ int
 memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                         uint32_t size, void **pp, bool *movedp)
 {
+#if !defined(TOYWASM_PREALLOC_SHARED_MEMORY)
         assert(meminst->allocated <=
                (uint64_t)meminst->size_in_pages
                        << memtype_page_shift(meminst->type));
+#endif
         uint32_t ea;
         if (ADD_U32_OVERFLOW(ptr, offset, &ea)) {
                 /*
@@ -72,6 +74,15 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         if (ADD_U32_OVERFLOW(ea, size - 1, &last_byte)) {
                 goto do_trap;
         }
+#if defined(TOYWASM_PREALLOC_SHARED_MEMORY)
+        /*
+         * the allocation of a shared memory can be larger than its size.
+         */
+        if (__predict_false(last_byte >> memtype_page_shift(meminst->type) >=
+                            meminst->size_in_pages)) {
+                goto do_trap;
+        }
+#endif
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
                 uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-- 
2.43.0


From a28ec12dca8d97e3d8e4028b92e681a1b73d0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:29 +0000
Subject: [PATCH 05/45] fix: compute the size of a shared memory in 64 bits

The size in bytes was computed in 32 bits. A 4 GiB shared memory wrapped to
zero and was instantiated without any memory behind it.
---
 lib/instance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..6fac1ec 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,7 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From 91ad60f5a0532e8da80d07dc92e41f3cbaa5ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:16 +0000
Subject: [PATCH 06/45] fix: allow the resuming thread to exit before parked
 threads wake up

After a stop-the-world memory growth, the thread that resumed the others can
exit before they have woken up. Assertions in the parked threads counted on
it still running and aborted debug builds.
---
 lib/suspend.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 8eb4d4a..aef747b 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -24,9 +24,11 @@ parked(struct cluster *c) REQUIRES(c->lock)
         xlog_trace("%s: parked %" PRIu32 " / %" PRIu32, __func__, c->nparked,
                    c->nrunners);
         assert(c->nparked > 0);
-        assert(c->nrunners > c->nparked);
+        /*
+         * Note: the thread which has resumed us might have exited already.
+         */
+        assert(c->nrunners >= c->nparked);
         c->nparked--;
-        assert(c->nrunners != c->nparked + 1);
         assert(c->suspend_state == SUSPEND_STATE_RESUMING);
         if (c->nparked == 0) {
                 c->suspend_state = SUSPEND_STATE_NONE;
-- 
2.43.0


From a79889e1c1dc7636db4186fc0a756d8cdce818d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:05 +0000
Subject: [PATCH 07/45] fix: initialise the address length passed to accept

---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From ebbf6a954c5cdb2cd88b1b6ead1d241e9b666977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:22 +0000
Subject: [PATCH 08/45] fix: undo the thread accounting when a user-scheduled
 thread cannot start

---
 libwasi_threads/wasi_threads.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 2035a46..7076e7f 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -470,15 +470,18 @@ wasi_thread_spawn_common(struct exec_context *ctx,
 #else
         pthread_t t;
         ret = pthread_create(&t, NULL, runner, arg);
+#endif
         if (ret != 0) {
                 toywasm_mutex_lock(&wasi->cluster.lock);
                 idalloc_free(&wasi->tids, tid, wasi->mctx);
                 cluster_remove_thread(&wasi->cluster);
                 toywasm_mutex_unlock(&wasi->cluster.lock);
-                xlog_trace("%s: pthread_create failed with %d", __func__, ret);
+                xlog_trace("%s: thread creation failed with %d", __func__,
+                           ret);
                 goto fail;
         }
 
+#if !defined(TOYWASM_USE_USER_SCHED)
         ret = pthread_detach(t);
         if (ret != 0) {
                 /* log and ignore */
-- 
2.43.0


From c4cb8d8f11c5e027a6171f82e5b96545c712700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:46 +0000
Subject: [PATCH 09/45] fix: initialise the descriptor pointer before looking
 it up

With compilers other than gcc, fd_advise, fd_allocate and
fd_filestat_set_size released an uninitialised pointer when the
descriptor was not open.
---
 libwasi/wasi_abi_fd.c | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..fb2c98a 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,11 +29,8 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -58,11 +55,8 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -85,11 +79,8 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From 0df7680377974537e94e360850378cff0b93f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:46 +0000
Subject: [PATCH 10/45] fix: initialise the path in path_create_directory

The path was released uninitialised when it could not be read or
converted, for example for an absolute path or a bad descriptor.
---
 libwasi/wasi_abi_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..42a6928 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -138,7 +138,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 1ffa84cf05694d328a5411707d02ec95bd474ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:46 +0000
Subject: [PATCH 11/45] fix: do not expand the descriptor table in fd_renumber

The target has to be open already, so there is nothing to make room
for. Expanding it for a number chosen by the guest allocated up to
32 GB, and for 4294967295 the new size wrapped around to zero and the
table was written out of its bounds.
---
 libwasi/wasi_abi_fd.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fb2c98a..0341fbc 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,12 +881,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 90d24e61d44a162d2cd54610494a8561eae98a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:46 +0000
Subject: [PATCH 12/45] fix: leave a descriptor that is renumbered to itself
 open

fd_renumber with the same descriptor twice closed it, or failed an
assertion when assertions are enabled.
---
 libwasi/wasi_abi_fd.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 0341fbc..25384a5 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,6 +881,13 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
+        if (wasifd_from == wasifd_to) {
+                /* nothing to do as far as it's open */
+                ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
+                                               &fdinfo_from);
+                goto fail_locked;
+        }
+
         /* Note: we check "to" first because it can involve a restart */
 
         /*
-- 
2.43.0


From 66d46f622082c18016335b16cb1b0f207673ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:21 +0000
Subject: [PATCH 13/45] fix: close the new host descriptor when it cannot be
 added to the table

path_open and sock_accept lost the host descriptor they had just opened
when growing the descriptor table failed.
---
 libwasi/wasi_abi_path.c | 1 +
 libwasi/wasi_abi_sock.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 42a6928..f96a7ee 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -69,6 +69,7 @@ wasi_path_open(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd;
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo);
                 goto fail;
         }
         fdinfo = NULL;
diff --git a/libwasi/wasi_abi_sock.c b/libwasi/wasi_abi_sock.c
index f5f48eb..1b0f95e 100644
--- a/libwasi/wasi_abi_sock.c
+++ b/libwasi/wasi_abi_sock.c
@@ -67,6 +67,7 @@ retry:
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo_child,
                                     &wasichildfd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo_child);
                 goto fail;
         }
         fdinfo_child = NULL;
-- 
2.43.0


From 82d195255a5ab97443ea250d8234574adf16cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:29 +0000
Subject: [PATCH 14/45] fix: close the host descriptor of a directory only once

closedir() closes the descriptor given to fdopendir(). Closing it before that
means it is closed twice, and the second close can hit an unrelated descriptor
opened by another thread in between.
---
 libwasi/wasi_host_fdop.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..a9e3ada 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -317,16 +317,18 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
 #else
         if (hostfd != -1) {
 #endif
-                ret = close(hostfd);
-                ret = handle_errno(ret);
+                if (fdinfo_host->dir != NULL) {
+                        /* this closes hostfd as well */
+                        ret = wasi_host_dir_close(fdinfo);
+                } else {
+                        ret = close(hostfd);
+                        ret = handle_errno(ret);
+                }
                 if (ret != 0) {
                         xlog_trace("failed to close: host fd %d with errno %d",
                                    hostfd, ret);
                 }
         }
-        if (fdinfo_host->dir != NULL) {
-                wasi_host_dir_close(fdinfo);
-        }
         fdinfo_host->hostfd = -1;
         fdinfo_host->dir = NULL;
         return ret;
-- 
2.43.0


From 6cbdbbafce9f66b4c98305b82b471e08df24bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:47 +0000
Subject: [PATCH 15/45] fix: free an unused descriptor when stdio cannot be set
 up

wasi_fdinfo_release() drops a reference, but the new fdinfo has none yet. The
count wrapped around and the fdinfo was leaked (or an assertion failed).
---
 libwasi/wasi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libwasi/wasi.c b/libwasi/wasi.c
index ee95a84..ddad202 100644
--- a/libwasi/wasi.c
+++ b/libwasi/wasi.c
@@ -117,6 +117,9 @@ wasi_instance_add_hostfd(struct wasi_instance *inst, uint32_t wasmfd,
                 if (ret != 0) {
                         xlog_error("set_nonblocking failed on fd %d with %d",
                                    hostfd, ret);
+                        /* nobody else has a reference yet */
+                        wasi_fdinfo_free(fdinfo);
+                        fdinfo = NULL;
                         goto fail;
                 }
         }
-- 
2.43.0


From 2ae663355dab4b348ea92bfb1f014aa81e787296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:59 +0000
Subject: [PATCH 16/45] fix: report a failing dup when stdio is set up

The instance was populated with an invalid host descriptor instead, and success
was returned.
---
 libwasi/wasi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libwasi/wasi.c b/libwasi/wasi.c
index ddad202..fa121fa 100644
--- a/libwasi/wasi.c
+++ b/libwasi/wasi.c
@@ -132,9 +132,13 @@ wasi_instance_add_hostfd(struct wasi_instance *inst, uint32_t wasmfd,
 #endif
         wasi_fdinfo_to_host(fdinfo)->hostfd = dupfd;
         if (dupfd == -1) {
+                ret = errno;
                 xlog_trace("failed to dup: wasm fd %" PRIu32
                            " host fd %u with errno %d",
-                           wasmfd, hostfd, errno);
+                           wasmfd, hostfd, ret);
+                wasi_fdinfo_free(fdinfo);
+                fdinfo = NULL;
+                goto fail;
         }
         wasi_table_affix(inst, tblidx, wasmfd, fdinfo);
         fdinfo = NULL;
-- 
2.43.0


From 1b56cf830b24dfbcfc13658dee10e4579dc07ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:01 +0000
Subject: [PATCH 17/45] fix: let a non-blocking read of a terminal return data

Terminals are left in blocking mode on the host, so fd_read polls before it
reads. With the non-blocking flag set by the guest, it returned EAGAIN without
polling, even when input was available.
---
 libwasi/wasi_abi_fd.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index 25384a5..8f7a934 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -7,6 +7,7 @@
 
 #include "endian.h"
 #include "nbio.h"
+#include "wasi_host_subr.h"
 #include "wasi_impl.h"
 #include "wasi_poll_subr.h"
 #include "wasi_subr.h"
@@ -313,8 +314,15 @@ wasi_fd_read(struct exec_context *ctx, struct host_instance *hi,
                         /*
                          * perform a poll first to avoid blocking in readv.
                          */
-                        ret = EAGAIN;
-                        goto tty_hack;
+                        struct pollfd pfd = {
+                                .fd = wasi_fdinfo_hostfd(fdinfo),
+                                .events = POLLIN,
+                        };
+                        if (wasi_fdinfo_to_user(fdinfo)->blocking ||
+                            poll(&pfd, 1, 0) != 1) {
+                                ret = EAGAIN;
+                                goto tty_hack;
+                        }
                 }
         }
 retry:
-- 
2.43.0


From 21cc127f63d73a640aee7bba87ba69651c4cb521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:55 +0000
Subject: [PATCH 18/45] fix: convert past times between clocks

convert_timespec refused to convert a time in the past unless the result
would have been negative, which is the opposite of what it should do.
poll_oneoff with a monotonic timeout which has already passed, including
a zero relative timeout, failed with EOVERFLOW because of it.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From 358040a38aca8138391b3c220f0d2fb4075a9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:21 +0000
Subject: [PATCH 19/45] fix: drop the saved restart state when a host call
 fails

When a restarted poll_oneoff failed to allocate memory before looking at
the timeout saved by its previous attempt, the stale state was left in
the context. It tripped an assertion instead of being reported as
an out-of-memory error.
---
 lib/exec.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/exec.c b/lib/exec.c
index 6c9c767..020392b 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -438,6 +438,14 @@ do_host_call(struct exec_context *ctx, const struct funcinst *finst)
         }
         struct cell *p = &VEC_ELEM(ctx->stack, ctx->stack.lsize - nparams);
         ret = finst->u.host.func(ctx, finst->u.host.instance, ft, p, p);
+        if (ret != 0 && !IS_RESTARTABLE(ret)) {
+                /*
+                 * a restarted host function might have failed before
+                 * consuming the saved state. (eg. an allocation failure
+                 * in HOST_FUNC_CONVERT_PARAMS)
+                 */
+                restart_info_clear(ctx);
+        }
         assert(IS_RESTARTABLE(ret) || restart_info_is_none(ctx));
         if (ret != 0) {
                 if (IS_RESTARTABLE(ret)) {
-- 
2.43.0


From 3a23cf134d0128e4fe682fec4008786c7ca2f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:48 +0000
Subject: [PATCH 20/45] fix: read each poll subscription only once

poll_oneoff read the subscriptions again when it produced the events.
If another thread modified them meanwhile, or if the events overlap with
the subscriptions, the number of events reported didn't match the events
stored, and assertions failed. Work on a copy instead.
---
 libwasi/wasi_abi_poll.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libwasi/wasi_abi_poll.c b/libwasi/wasi_abi_poll.c
index 4b5c147..bf49251 100644
--- a/libwasi/wasi_abi_poll.c
+++ b/libwasi/wasi_abi_poll.c
@@ -26,7 +26,7 @@ wasi_poll_oneoff(struct exec_context *ctx, struct host_instance *hi,
         uint32_t nsubscriptions = HOST_FUNC_PARAM(ft, params, 2, i32);
         uint32_t retp = HOST_FUNC_PARAM(ft, params, 3, i32);
         struct pollfd *pollfds = NULL;
-        const struct wasi_subscription *subscriptions;
+        struct wasi_subscription *subscriptions = NULL;
         struct wasi_fdinfo **fdinfos = NULL;
         uint32_t nfdinfos = 0;
         struct wasi_event *events;
@@ -62,7 +62,7 @@ retry:
         if (host_ret != 0) {
                 goto fail;
         }
-        subscriptions = p;
+        const void *in_p = p;
         bool moved = false;
         host_ret = host_func_check_align(ctx, out, WASI_EVENT_ALIGN);
         if (host_ret != 0) {
@@ -77,12 +77,18 @@ retry:
                 goto retry;
         }
         events = p;
+        subscriptions = malloc(insize);
         pollfds = calloc(nsubscriptions, sizeof(*pollfds));
         fdinfos = calloc(nsubscriptions, sizeof(*fdinfos));
-        if (pollfds == NULL || fdinfos == NULL) {
+        if (subscriptions == NULL || pollfds == NULL || fdinfos == NULL) {
                 ret = ENOMEM;
                 goto fail;
         }
+        /*
+         * take a copy because the application can modify the memory
+         * at any time. also, it might overlap with events.
+         */
+        memcpy(subscriptions, in_p, insize);
         uint32_t i;
         int timeout_ms = -1;
         uint64_t timeout_ns;
@@ -246,6 +252,7 @@ fail:
                                      wasi_convert_errno(ret));
         }
         free(pollfds);
+        free(subscriptions);
         if (!IS_RESTARTABLE(host_ret)) {
                 /*
                  * avoid leaving a stale restart state.
-- 
2.43.0


From 2a388fb1be6f8beede1ebf4203e6a55100eae65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:03 +0000
Subject: [PATCH 21/45] fix: measure poll timeouts on their own clock

poll_oneoff converted every timeout to CLOCK_REALTIME. A step of the
system time during the wait then made the timer fire early or late.
Wait on the clock of the subscription instead, and measure relative
timeouts with CLOCK_MONOTONIC.
---
 libwasi/wasi_abi_poll.c  | 39 ++++++++++++++++++---------------------
 libwasi/wasi_poll_subr.c | 31 +++++++++++++++++--------------
 libwasi/wasi_poll_subr.h |  4 +++-
 3 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/libwasi/wasi_abi_poll.c b/libwasi/wasi_abi_poll.c
index bf49251..d188f28 100644
--- a/libwasi/wasi_abi_poll.c
+++ b/libwasi/wasi_abi_poll.c
@@ -90,7 +90,9 @@ retry:
          */
         memcpy(subscriptions, in_p, insize);
         uint32_t i;
-        int timeout_ms = -1;
+        clockid_t timeout_clock_id = CLOCK_MONOTONIC;
+        const struct timespec *timeout = NULL;
+        struct timespec absts;
         uint64_t timeout_ns;
         int nevents = 0;
         for (i = 0; i < nsubscriptions; i++) {
@@ -117,39 +119,33 @@ retry:
                         abstime =
                                 (s->u.clock.flags &
                                  host_to_le16(WASI_SUBCLOCKFLAG_ABSTIME)) != 0;
-                        if (timeout_ms != -1) {
+                        if (timeout != NULL) {
                                 xlog_trace("poll_oneoff: multiple clock "
                                            "subscriptions");
                                 ret = ENOTSUP;
                                 goto fail;
                         }
                         timeout_ns = le64_to_host(s->u.clock.timeout);
-                        struct timespec absts;
                         if (abstime) {
+                                timeout_clock_id = host_clock_id;
                                 ret = timespec_from_ns(&absts, timeout_ns);
                         } else {
+                                /*
+                                 * a relative timeout is not affected by
+                                 * changes of CLOCK_REALTIME.
+                                 */
+                                timeout_clock_id = CLOCK_MONOTONIC;
                                 ret = abstime_from_reltime_ns(
-                                        host_clock_id, &absts, timeout_ns);
-                        }
-                        if (ret != 0) {
-                                goto fail;
-                        }
-                        if (host_clock_id != CLOCK_REALTIME) {
-                                ret = convert_timespec(host_clock_id,
-                                                       CLOCK_REALTIME, &absts,
-                                                       &absts);
-                                if (ret != 0) {
-                                        goto fail;
-                                }
+                                        timeout_clock_id, &absts, timeout_ns);
                         }
-                        ret = abstime_to_reltime_ms_roundup(
-                                CLOCK_REALTIME, &absts, &timeout_ms);
                         if (ret != 0) {
                                 goto fail;
                         }
+                        timeout = &absts;
                         pfd->fd = -1;
-                        xlog_trace("poll_oneoff: pfd[%" PRIu32 "] timer %d ms",
-                                   i, timeout_ms);
+                        xlog_trace("poll_oneoff: pfd[%" PRIu32
+                                   "] timer %" PRIu64 " ns",
+                                   i, timeout_ns);
                         break;
                 case WASI_EVENTTYPE_FD_READ:
                 case WASI_EVENTTYPE_FD_WRITE:
@@ -180,8 +176,9 @@ retry:
         }
         if (nevents == 0) {
                 xlog_trace("poll_oneoff: start polling");
-                host_ret = wasi_poll(ctx, pollfds, nsubscriptions, timeout_ms,
-                                     &ret, &nevents);
+                host_ret = wasi_poll(ctx, pollfds, nsubscriptions,
+                                     timeout_clock_id, timeout, &ret,
+                                     &nevents);
                 if (host_ret != 0) {
                         goto fail;
                 }
diff --git a/libwasi/wasi_poll_subr.c b/libwasi/wasi_poll_subr.c
index 578df17..6f3aaf7 100644
--- a/libwasi/wasi_poll_subr.c
+++ b/libwasi/wasi_poll_subr.c
@@ -13,7 +13,8 @@
 
 int
 wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
-          int timeout_ms, int *retp, int *neventsp)
+          clockid_t clock_id, const struct timespec *timeout, int *retp,
+          int *neventsp)
 {
         const int interval_ms = check_interrupt_interval_ms(ctx);
         const struct timespec *abstimeout;
@@ -68,15 +69,10 @@ wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
         if (restart->restart_type == RESTART_TIMER) {
                 abstimeout = &restart->restart_u.timer.abstimeout;
                 restart->restart_type = RESTART_NONE;
-        } else if (timeout_ms < 0) {
+        } else if (timeout == NULL) {
                 abstimeout = NULL;
         } else {
-                ret = abstime_from_reltime_ms(
-                        CLOCK_REALTIME, &restart->restart_u.timer.abstimeout,
-                        timeout_ms);
-                if (ret != 0) {
-                        goto fail;
-                }
+                restart->restart_u.timer.abstimeout = *timeout;
                 abstimeout = &restart->restart_u.timer.abstimeout;
         }
         assert(restart->restart_type == RESTART_NONE);
@@ -99,7 +95,7 @@ wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
                         next_timeout_ms = interval_ms;
                 } else {
                         struct timespec next;
-                        ret = abstime_from_reltime_ms(CLOCK_REALTIME, &next,
+                        ret = abstime_from_reltime_ms(clock_id, &next,
                                                       interval_ms);
                         if (ret != 0) {
                                 goto fail;
@@ -108,7 +104,7 @@ wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
                                 next_timeout_ms = interval_ms;
                         } else {
                                 ret = abstime_to_reltime_ms_roundup(
-                                        CLOCK_REALTIME, abstimeout,
+                                        clock_id, abstimeout,
                                         &next_timeout_ms);
                                 if (ret != 0) {
                                         goto fail;
@@ -126,9 +122,16 @@ wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
                         ret = 0;
                         break;
                 }
-                if (ret == 0 && next_timeout_ms != interval_ms) {
-                        ret = ETIMEDOUT;
-                        break;
+                if (abstimeout != NULL) {
+                        struct timespec now;
+                        ret = timespec_now(clock_id, &now);
+                        if (ret != 0) {
+                                goto fail;
+                        }
+                        if (timespec_cmp(abstimeout, &now) <= 0) {
+                                ret = ETIMEDOUT;
+                                break;
+                        }
                 }
         }
 fail:
@@ -149,7 +152,7 @@ wait_fd_ready(struct exec_context *ctx, int hostfd, short event, int *retp)
         pfd.fd = hostfd;
         pfd.events = event;
         int nev;
-        int ret = wasi_poll(ctx, &pfd, 1, -1, retp, &nev);
+        int ret = wasi_poll(ctx, &pfd, 1, CLOCK_MONOTONIC, NULL, retp, &nev);
         if (IS_RESTARTABLE(ret)) {
                 xlog_trace("%s: restarting", __func__);
         }
diff --git a/libwasi/wasi_poll_subr.h b/libwasi/wasi_poll_subr.h
index 92d2980..8615ce7 100644
--- a/libwasi/wasi_poll_subr.h
+++ b/libwasi/wasi_poll_subr.h
@@ -1,10 +1,12 @@
 #include <poll.h>
+#include <time.h>
 
 struct exec_context;
 struct wasi_fdinfo;
 
 int wasi_poll(struct exec_context *ctx, struct pollfd *fds, nfds_t nfds,
-              int timeout_ms, int *retp, int *neventsp);
+              clockid_t clock_id, const struct timespec *timeout, int *retp,
+              int *neventsp);
 int wait_fd_ready(struct exec_context *ctx, int hostfd, short event,
                   int *retp);
 bool emulate_blocking(struct exec_context *ctx, struct wasi_fdinfo *fdinfo,
-- 
2.43.0


From 89034ae279444f5dc3a5133240896dc0e7595623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:30 +0000
Subject: [PATCH 22/45] fix: evaluate constant expressions in their own context

table.init with an element segment given as expressions evaluates them
while the calling function is in the middle of an instruction.
Running the expression on the same context let the caller's code run
nested and corrupted the stack. Give the evaluation its own context.
---
 lib/exec.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/exec.c b/lib/exec.c
index 020392b..e329307 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -1459,7 +1459,6 @@ int
 exec_const_expr(const struct expr *expr, enum valtype type, struct val *result,
                 struct exec_context *ctx)
 {
-        uint32_t saved_height = ctx->frames.lsize;
         static const struct localtype no_locals = {
                 .nlocals = 0,
                 .nlocalchunks = 0,
@@ -1471,27 +1470,40 @@ exec_const_expr(const struct expr *expr, enum valtype type, struct val *result,
                         },
 #endif
         };
+        /*
+         * use a separate context because the given context might be
+         * in the middle of an instruction. (table.init)
+         * it also means that the evaluation is not interruptible.
+         * note that a const expr can't have a loop.
+         */
+        struct exec_context ctx0;
+        exec_context_init(&ctx0, ctx->instance, exec_mctx(ctx));
+        ctx0.options = ctx->options;
+        ctx0.report = ctx->report;
         int ret;
         uint32_t csz = valtype_cellsize(type);
         ret = exec_expr(FUNCIDX_INVALID, expr, &no_locals, empty_rt, csz, NULL,
-                        ctx);
+                        &ctx0);
         /*
          * it's very unlikely for a const expr to use a restart.
          * but just in case.
-         * note that a const expr can't have a loop.
          */
         while (IS_RESTARTABLE(ret)) {
                 xlog_trace("%s: restarting execution of a const expr",
                            __func__);
-                ret = exec_expr_continue(ctx);
+                ret = exec_expr_continue(&ctx0);
         }
         if (ret != 0) {
-                return ret;
+                ctx->trapped = ctx0.trapped;
+                ctx->trap = ctx0.trap;
+                goto fail;
         }
         DEFINE_RESULTTYPE(, rt, &type, 1);
-        exec_pop_vals(ctx, &rt, result);
-        assert(ctx->frames.lsize == saved_height);
-        return 0;
+        exec_pop_vals(&ctx0, &rt, result);
+        assert(ctx0.frames.lsize == 0);
+fail:
+        exec_context_clear(&ctx0);
+        return ret;
 }
 
 void
-- 
2.43.0


From c557f42193dd72b7e4d89341159e70d9f4995165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:53 +0000
Subject: [PATCH 23/45] fix: do not leave a dangling pointer in a freed bitmap

When growing a bitmap failed, the caller freed it and the owner freed it
again on its own error path.  That could happen while loading a module
which imports functions.
---
 lib/bitmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bitmap.c b/lib/bitmap.c
index 0c788ad..fcf98db 100644
--- a/lib/bitmap.c
+++ b/lib/bitmap.c
@@ -23,6 +23,7 @@ void
 bitmap_free(struct mem_context *mctx, struct bitmap *b, uint32_t n)
 {
         mem_free(mctx, b->data, HOWMANY(n, 32) * sizeof(uint32_t));
+        b->data = NULL;
 }
 
 void
-- 
2.43.0


From 85789813cf4a5711f068807255bf02a5921f7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:53 +0000
Subject: [PATCH 24/45] fix: do not destroy a shared memory twice on failure

Once a memory instance has been put in the import object, the object owns
it.  If a later shared memory could not be created, the earlier one was
destroyed both through the import object and directly.
---
 lib/shared_memory.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/shared_memory.c b/lib/shared_memory.c
index 8cfa04d..ce50d2b 100644
--- a/lib/shared_memory.c
+++ b/lib/shared_memory.c
@@ -67,6 +67,7 @@ create_satisfying_shared_memories(struct mem_context *mctx,
                 e->name = &im->name;
                 e->type = EXTERNTYPE_MEMORY;
                 e->u.mem = mi;
+                mi = NULL; /* owned by imo */
         }
 
         *imop = imo;
-- 
2.43.0


From 9d7460e33e9081118c13a53f5bd589174e5bea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:29 +0000
Subject: [PATCH 25/45] fix: do not drop tool output when a write is
 interrupted

---
 lib/nbio.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nbio.c b/lib/nbio.c
index 556e004..c77fef2 100644
--- a/lib/nbio.c
+++ b/lib/nbio.c
@@ -83,6 +83,9 @@ nbio_vfprintf(FILE *fp, const char *fmt, va_list ap)
                 ssize_t ssz = write(fd, buf + written, len - written);
                 assert(ssz != 0);
                 if (ssz == -1) {
+                        if (errno == EINTR) {
+                                continue;
+                        }
                         if (is_again(errno)) {
                                 /*
                                  * probably the fd is non-blocking.
-- 
2.43.0


From c641fb43c8b0dda3a4b4b6573b436b4de9ca1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:29 +0000
Subject: [PATCH 26/45] fix: do not crash when the repl state can not be
 allocated

---
 cli/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index 37a5366..5e118b3 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -689,7 +689,9 @@ main(int argc, char **argv)
         exit_status = 0;
 #endif
 fail:
-        toywasm_repl_reset(state);
+        if (state != NULL) {
+                toywasm_repl_reset(state);
+        }
 #if defined(TOYWASM_ENABLE_WASI)
         VEC_FREE(mctx, wasi_envs);
 #endif
-- 
2.43.0


From 16aeb6e43107a05340c89d9d577be4baf1b2b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:29 +0000
Subject: [PATCH 27/45] fix: do not abort when reporting a trap raised before
 any instruction

---
 lib/exec_debug.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/exec_debug.c b/lib/exec_debug.c
index 99453e0..94ea516 100644
--- a/lib/exec_debug.c
+++ b/lib/exec_debug.c
@@ -148,9 +148,12 @@ print_trace(const struct exec_context *ctx)
          *
          * Note: ctx->p can be a bit outdated because we don't always
          * keep it updated, especially on errors.
+         * it isn't set at all if nothing has been executed yet.
          */
-        uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
-        nbio_printf("current pc %06" PRIx32 "\n", pc);
+        if (ctx->p != NULL) {
+                uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
+                nbio_printf("current pc %06" PRIx32 "\n", pc);
+        }
 
         nametable_init(&table);
         while (true) {
-- 
2.43.0


From 457278634d58bd9bff2d844288290936b5b169b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:29 +0000
Subject: [PATCH 28/45] fix: reject 32-bit arguments which are out of range

---
 cli/repl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..8f70f75 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
-- 
2.43.0


From 8522e509c437b0fc6936023626dfef98bbf76f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:47 +0000
Subject: [PATCH 29/45] fix: report a failure to print a result

---
 cli/repl.c | 65 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/cli/repl.c b/cli/repl.c
index 8f70f75..25bfb52 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -987,59 +987,81 @@ repl_print_result(const struct resulttype *rt, const struct val *vals)
         const char *sep = "";
         uint32_t i;
         int ret = 0;
+        bool failed = false;
         if (rt->ntypes == 0) {
-                nbio_printf("Result: <Empty Stack>\n");
+                if (nbio_printf("Result: <Empty Stack>\n") < 0) {
+                        return EIO;
+                }
                 return 0;
         }
-        nbio_printf("Result: ");
+        failed |= nbio_printf("Result: ") < 0;
         for (i = 0; i < rt->ntypes; i++) {
                 enum valtype type = rt->types[i];
                 const struct val *val = &vals[i];
                 switch (type) {
                 case TYPE_i32:
-                        nbio_printf("%s%" PRIu32 ":i32", sep, val->u.i32);
+                        failed |= nbio_printf("%s%" PRIu32 ":i32", sep,
+                                              val->u.i32) < 0;
                         break;
                 case TYPE_f32:
-                        nbio_printf("%s%" PRIu32 ":f32", sep, val->u.i32);
+                        failed |= nbio_printf("%s%" PRIu32 ":f32", sep,
+                                              val->u.i32) < 0;
                         break;
                 case TYPE_i64:
-                        nbio_printf("%s%" PRIu64 ":i64", sep, val->u.i64);
+                        failed |= nbio_printf("%s%" PRIu64 ":i64", sep,
+                                              val->u.i64) < 0;
                         break;
                 case TYPE_f64:
-                        nbio_printf("%s%" PRIu64 ":f64", sep, val->u.i64);
+                        failed |= nbio_printf("%s%" PRIu64 ":f64", sep,
+                                              val->u.i64) < 0;
                         break;
 #if defined(TOYWASM_ENABLE_WASM_SIMD)
                 case TYPE_v128:
-                        nbio_printf("%s%016" PRIx64 "%016" PRIx64 ":v128", sep,
-                                    le64_decode(&val->u.v128.i64[1]),
-                                    le64_decode(&val->u.v128.i64[0]));
+                        failed |=
+                                nbio_printf(
+                                        "%s%016" PRIx64 "%016" PRIx64 ":v128",
+                                        sep, le64_decode(&val->u.v128.i64[1]),
+                                        le64_decode(&val->u.v128.i64[0])) < 0;
                         break;
 #endif
                 case TYPE_funcref:
                         if (val->u.funcref.func == NULL) {
-                                nbio_printf("%snull:funcref", sep);
+                                failed |=
+                                        nbio_printf("%snull:funcref", sep) < 0;
                         } else {
-                                nbio_printf("%s%" PRIuPTR ":funcref", sep,
-                                            (uintptr_t)val->u.funcref.func);
+                                failed |= nbio_printf("%s%" PRIuPTR ":funcref",
+                                                      sep,
+                                                      (uintptr_t)val->u.funcref
+                                                              .func) < 0;
                         }
                         break;
                 case TYPE_externref:
                         if ((uintptr_t)val->u.externref == EXTERNREF_0) {
-                                nbio_printf("%s0:externref", sep);
+                                failed |=
+                                        nbio_printf("%s0:externref", sep) < 0;
                         } else if (val->u.externref == NULL) {
-                                nbio_printf("%snull:externref", sep);
+                                failed |= nbio_printf("%snull:externref",
+                                                      sep) < 0;
                         } else {
-                                nbio_printf("%s%" PRIuPTR ":externref", sep,
-                                            (uintptr_t)val->u.externref);
+                                failed |=
+                                        nbio_printf(
+                                                "%s%" PRIuPTR ":externref",
+                                                sep,
+                                                (uintptr_t)val->u.externref) <
+                                        0;
                         }
                         break;
 #if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
                 case TYPE_exnref:
                         if (val->u.exnref.tag == NULL) {
-                                nbio_printf("%snull:exnref", sep);
+                                failed |=
+                                        nbio_printf("%snull:exnref", sep) < 0;
                         } else {
-                                nbio_printf("%s%" PRIuPTR ":exnref", sep,
-                                            (uintptr_t)val->u.exnref.tag);
+                                failed |=
+                                        nbio_printf(
+                                                "%s%" PRIuPTR ":exnref", sep,
+                                                (uintptr_t)val->u.exnref.tag) <
+                                        0;
                         }
                         break;
 #endif
@@ -1051,7 +1073,10 @@ repl_print_result(const struct resulttype *rt, const struct val *vals)
                 }
                 sep = ", ";
         }
-        nbio_printf("\n");
+        failed |= nbio_printf("\n") < 0;
+        if (failed && ret == 0) {
+                ret = EIO;
+        }
         return ret;
 }
 
-- 
2.43.0


From 60f2b9290bedeae64ebbfdd82f54608d55bef86c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:25 +0000
Subject: [PATCH 30/45] fix: do not crash when memory runs out while reading
 dylink.0

The error path used the structure whose allocation had just failed.
---
 lib/module.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..77b64fc 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2094,9 +2094,11 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         *pp = p;
         return 0;
 fail:
-        clear_dylink(mctx, m->dylink);
-        mem_free(mctx, m->dylink, sizeof(*m->dylink));
-        m->dylink = NULL;
+        if (m->dylink != NULL) {
+                clear_dylink(mctx, m->dylink);
+                mem_free(mctx, m->dylink, sizeof(*m->dylink));
+                m->dylink = NULL;
+        }
         return ret;
 }
 #endif /* defined(TOYWASM_ENABLE_DYLD) */
-- 
2.43.0


From 778679bf761df39ea165a38085aab77e409cb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:25 +0000
Subject: [PATCH 31/45] fix: continue after an unimplemented dylink.0
 subsection

The loop over the subsections ended at the first unimplemented one,
for example WASM_DYLINK_EXPORT_INFO. If more subsections followed,
the module was rejected because the section was not fully read.
---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 77b64fc..c69d72f 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2087,7 +2087,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 3dea1b4a5ae51ef0ca4bbe49f0fc7b57b5048b62 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:25 +0000
Subject: [PATCH 32/45] fix: report a failing init function of a shared library

An init function that called a function which could not be resolved
failed with ENOENT. This was taken for a library without the init
function and the load went on as if it had succeeded.
---
 libdyld/dyld.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..6f25cbf 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -711,15 +711,10 @@ dyld_object_destroy(struct dyld_object *obj)
 }
 
 static int
-dyld_execute_obj_init_func1(struct dyld_object *obj, const struct name *name)
+dyld_execute_obj_init_func1(struct dyld_object *obj, uint32_t funcidx)
 {
         struct module *m = obj->module;
-        uint32_t funcidx;
         int ret;
-        ret = module_find_export(m, name, EXTERNTYPE_FUNC, &funcidx);
-        if (ret != 0) {
-                return ret;
-        }
         const struct functype *ft = module_functype(m, funcidx);
         const struct resulttype *pt = &ft->parameter;
         const struct resulttype *rt = &ft->result;
@@ -754,12 +749,15 @@ dyld_execute_obj_init_func(struct dyld_object *obj, const struct name *names,
         unsigned int i;
         for (i = 0; i < nnames; i++) {
                 const struct name *funcname = &names[i];
-                int ret = dyld_execute_obj_init_func1(obj, funcname);
-                if (ret == ENOENT) {
+                uint32_t funcidx;
+                int ret = module_find_export(obj->module, funcname,
+                                             EXTERNTYPE_FUNC, &funcidx);
+                if (ret != 0) {
                         xlog_trace("dyld: %.*s doesn't have %.*s",
                                    CSTR(obj->name), CSTR(funcname));
                         continue;
                 }
+                ret = dyld_execute_obj_init_func1(obj, funcidx);
                 if (ret != 0) {
                         xlog_error("dyld: %.*s %.*s failed with %d",
                                    CSTR(obj->name), CSTR(funcname), ret);
-- 
2.43.0


From ff3d78b537775e05b09235198d2c53e9826219da Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:57 +0000
Subject: [PATCH 33/45] fix: reject shared libraries which do not fit in the
 address space

The size and the alignment given in dylink.0 were used unchecked.
Large ones overflowed the calculation of the address of the library.
It then overlapped others or ended the process with an assertion.
---
 libdyld/dyld.c | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 6f25cbf..f2c973b 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -146,24 +146,39 @@ static const struct globaltype globaltype_i32_const = {
         .mut = GLOBAL_CONST,
 };
 
-static uint32_t
-align_up(uint32_t v, uint32_t align)
+static uint64_t
+align_up(uint64_t v, uint64_t align)
 {
-        uint32_t mask = align - 1;
+        uint64_t mask = align - 1;
         return (v + mask) & ~mask;
 }
 
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
+/*
+ * calculate_base:
+ *
+ * place sz units at or after oldbase, with the alignment of 1 << palign.
+ */
+static int
+calculate_base(uint32_t oldbase, uint32_t palign, uint32_t sz,
+               uint32_t *alignedp, uint32_t *newbasep)
 {
-        uint32_t align = 1 << palign;
-        return align_up(v, align);
+        if (palign >= 32) {
+                return EINVAL;
+        }
+        uint64_t aligned = align_up(oldbase, (uint64_t)1 << palign);
+        uint64_t newbase = aligned + sz;
+        if (newbase > UINT32_MAX) {
+                return ENOMEM;
+        }
+        *alignedp = (uint32_t)aligned;
+        *newbasep = (uint32_t)newbase;
+        return 0;
 }
 
 static uint32_t
 howmany(uint32_t a, uint32_t b)
 {
-        return (a + b - 1) / b;
+        return (uint32_t)(((uint64_t)a + b - 1) / b);
 }
 
 static uint32_t
@@ -523,9 +538,12 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        uint32_t aligned;
+        uint32_t newbase;
+        int error = calculate_base(oldbase, align, sz, &aligned, &newbase);
+        if (error != 0) {
+                return error;
+        }
         const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
         uint32_t oldnpg = howmany(oldbase, page_size);
         uint32_t newnpg = howmany(newbase, page_size);
@@ -547,9 +565,12 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
         uint32_t oldbase = d->table_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        uint32_t aligned;
+        uint32_t newbase;
+        int error = calculate_base(oldbase, align, sz, &aligned, &newbase);
+        if (error != 0) {
+                return error;
+        }
         if (newbase > oldbase) {
                 uint32_t ret =
                         table_grow(d->tableinst, &val_null, newbase - oldbase);
-- 
2.43.0


From ec83ac62a41c8b48bceaace013d27da26fc0aefb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:52:57 +0000
Subject: [PATCH 34/45] fix: dlopen after the program extended its memory or
 table

The loader assumed that nobody else extends the memory and the table.
After memory.grow or table.grow by the program, it placed libraries
over what the program had got, or ended the process with an assertion.
---
 libdyld/dyld.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index f2c973b..154e957 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -538,14 +538,27 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
+        const uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        const uint32_t page_size = 1 << page_shift;
+        uint32_t oldnpg = howmany(oldbase, page_size);
+        if (oldnpg != d->meminst->size_in_pages) {
+                /*
+                 * the program has extended the memory by itself.
+                 * do not use what it got.
+                 */
+                assert(oldnpg < d->meminst->size_in_pages);
+                oldnpg = d->meminst->size_in_pages;
+                if ((uint64_t)oldnpg << page_shift > UINT32_MAX) {
+                        return ENOMEM;
+                }
+                oldbase = oldnpg << page_shift;
+        }
         uint32_t aligned;
         uint32_t newbase;
         int error = calculate_base(oldbase, align, sz, &aligned, &newbase);
         if (error != 0) {
                 return error;
         }
-        const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
-        uint32_t oldnpg = howmany(oldbase, page_size);
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
         if (newnpg > oldnpg) {
@@ -564,7 +577,11 @@ static int
 dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
-        uint32_t oldbase = d->table_base;
+        /*
+         * note: this is larger than d->table_base if the program has
+         * extended the table by itself. do not use what it got.
+         */
+        uint32_t oldbase = d->tableinst->size;
         uint32_t aligned;
         uint32_t newbase;
         int error = calculate_base(oldbase, align, sz, &aligned, &newbase);
-- 
2.43.0


From 6a53c67a04fe2e580ae69ef67bf3baf47013b143 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:54:17 +0000
Subject: [PATCH 35/45] fix: keep names and handles of libraries loaded with
 dlopen valid

The name of a library was stored in an array which is reallocated by
later loads, and it was freed when the load failed although the object
could still be in the list. Also, a load from an init function of
another library being loaded used the same array element, and so both
got the same handle.

Let the object own its name. Reserve the handle before the load.
---
 libdyld/dyld.c       |  9 ++++-----
 libdyld/dyld_dlfcn.c | 35 ++++++++++++++++++++++++++---------
 libdyld/dyld_impl.h  |  4 ++--
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 154e957..4e98e61 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -745,6 +745,10 @@ dyld_object_destroy(struct dyld_object *obj)
         }
         mem_context_clear(&obj->module_mctx);
         mem_context_clear(&obj->instance_mctx);
+        if (obj->dynname.data != NULL) {
+                mem_free(mctx, (void *)obj->dynname.data, /* discard const */
+                         obj->dynname.nbytes + 1);
+        }
         mem_free(mctx, obj, sizeof(*obj));
 }
 
@@ -1541,11 +1545,6 @@ dyld_clear(struct dyld *d)
                 import_object_destroy(mctx, imp);
         }
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        struct dyld_dynamic_object *it;
-        VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
-                mem_free(mctx, (void *)it->name.data, sz); /* discard const */
-        }
         VEC_FREE(mctx, d->dynobjs);
 #endif
 #if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..e28a040 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -28,8 +28,13 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         int ret;
         ret = dyld_search_and_load_object_from_file(d, name, &obj);
         if (ret != 0) {
+                mem_free(d->mctx, (void *)name->data, /* discard const */
+                         name->nbytes + 1);
                 goto fail;
         }
+        /* obj owns the name from now on */
+        obj->dynname = *name;
+        obj->name = &obj->dynname;
         ret = dyld_resolve_dependencies(d, obj, bindnow);
         if (ret != 0) {
                 goto fail;
@@ -86,8 +91,6 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 user_ret = 1;
                 goto fail;
         }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
 
         char *name_data = mem_alloc(d->mctx, namelen + 1);
         if (name_data == NULL) {
@@ -98,22 +101,32 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         memcpy(name_data, vp, namelen);
         name_data[namelen] = 0;
 
-        struct name *name = &dobj->name;
-        name->data = name_data;
-        name->nbytes = namelen;
-        ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
+        struct name name;
+        name.data = name_data;
+        name.nbytes = namelen;
+
+        /*
+         * reserve the handle because init functions of the object can
+         * call us recursively.
+         */
+        VEC_ELEM(d->dynobjs, idx).obj = NULL;
+        d->dynobjs.lsize++;
+        struct dyld_object *obj;
+        ret = dyld_dynamic_load_object_by_name(d, &name, false, &obj);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
+                if (d->dynobjs.lsize == idx + 1) {
+                        d->dynobjs.lsize--;
+                }
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
+        VEC_ELEM(d->dynobjs, idx).obj = obj;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
-                CSTR(name), handle);
+                CSTR(obj->name), handle);
         uint32_t handle_le = host_to_le32(handle);
         host_ret = host_func_copyout(ctx, dyld_memory(d), &handle_le, retp,
                                      sizeof(handle_le), 4);
@@ -165,6 +178,10 @@ dyld_dlfcn_resolve_symbol(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         const struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
+        if (dobj->obj == NULL) {
+                user_ret = 1;
+                goto fail;
+        }
 
         void *vp;
         host_ret = host_func_getptr(ctx, dyld_memory(d), namep, namelen, &vp);
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index f40922f..e201339 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -20,6 +20,7 @@ struct dyld_plt {
 
 struct dyld_object {
         const struct name *name;
+        struct name dynname; /* backing storage of name for dlopen */
 
         uint32_t memory_base;
         uint32_t table_base;
@@ -53,8 +54,7 @@ struct dyld_object {
 };
 
 struct dyld_dynamic_object {
-        struct name name;
-        struct dyld_object *obj;
+        struct dyld_object *obj; /* NULL: load in progress, or failed */
 };
 
 int dyld_resolve_dependencies(struct dyld *d, struct dyld_object *obj,
-- 
2.43.0


From 9bcf6734c62a91a8b645421d77f591e969b344f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:54:17 +0000
Subject: [PATCH 36/45] fix: clean up after a failed dlopen

The libraries loaded before the failure stayed in the list of objects.
Symbols were resolved to them, and later loads of libraries which need
them used them, although they were not relocated or initialized.

Remove them from the list. Free them unless their code might have been
executed, in which case they are kept until the end as their functions
can be referenced from anywhere.
---
 libdyld/dyld.c       | 55 ++++++++++++++++++++++++++++++++++++++++++++
 libdyld/dyld.h       |  8 +++++++
 libdyld/dyld_dlfcn.c | 21 +++++++++--------
 libdyld/dyld_impl.h  |  2 ++
 4 files changed, 77 insertions(+), 9 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 4e98e61..669a2a9 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -304,6 +304,7 @@ dyld_init(struct dyld *d, struct mem_context *mctx)
 {
         memset(d, 0, sizeof(*d));
         SLIST_HEAD_INIT(&d->objs);
+        SLIST_HEAD_INIT(&d->failed_objs);
         d->table_base = 0;
         d->memory_base = 0;
         dyld_options_set_defaults(&d->opts);
@@ -752,6 +753,56 @@ dyld_object_destroy(struct dyld_object *obj)
         mem_free(mctx, obj, sizeof(*obj));
 }
 
+/*
+ * dyld_clear_table:
+ *
+ * clear the table elements reserved for the object so that the program
+ * can't call functions of the object after its destruction.
+ */
+static void
+dyld_clear_table(struct dyld_object *obj)
+{
+        struct dyld *d = obj->dyld;
+        const struct dylink_mem_info *minfo = &obj->module->dylink->mem_info;
+        uint32_t i;
+        for (i = 0; i < minfo->tablesize; i++) {
+                table_set(d->tableinst, obj->table_base + i, &val_null);
+        }
+        for (i = 0; i < obj->nexports; i++) {
+                table_set(d->tableinst, obj->table_export_base + i, &val_null);
+        }
+}
+
+/*
+ * dyld_remove_objects:
+ *
+ * remove the objects from first to last, inclusive, from the list.
+ *
+ * if destroy is false, they are kept until dyld_clear.
+ * it should be used when some of their code might have been executed.
+ */
+void
+dyld_remove_objects(struct dyld *d, struct dyld_object *first,
+                    struct dyld_object *last, bool destroy)
+{
+        /* Note: the main object is never removed. */
+        struct dyld_object *prev = SLIST_FIRST(&d->objs);
+        while (SLIST_NEXT(prev, q) != first) {
+                prev = SLIST_NEXT(prev, q);
+        }
+        const struct dyld_object *end = SLIST_NEXT(last, q);
+        struct dyld_object *obj;
+        while ((obj = SLIST_NEXT(prev, q)) != end) {
+                SLIST_REMOVE(&d->objs, prev, obj, q);
+                if (destroy) {
+                        dyld_clear_table(obj);
+                        dyld_object_destroy(obj);
+                } else {
+                        SLIST_INSERT_TAIL(&d->failed_objs, obj, q);
+                }
+        }
+}
+
 static int
 dyld_execute_obj_init_func1(struct dyld_object *obj, uint32_t funcidx)
 {
@@ -1531,6 +1582,10 @@ dyld_clear(struct dyld *d)
                 SLIST_REMOVE_HEAD(&d->objs, obj, q);
                 dyld_object_destroy(obj);
         }
+        while ((obj = SLIST_FIRST(&d->failed_objs)) != NULL) {
+                SLIST_REMOVE_HEAD(&d->failed_objs, obj, q);
+                dyld_object_destroy(obj);
+        }
         if (d->pie) {
                 if (d->meminst != NULL) {
                         memory_instance_destroy(mctx, d->meminst);
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 53cce31..7326ca6 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -75,6 +75,14 @@ struct dyld {
 
         SLIST_HEAD(struct dyld_object) objs;
 
+        /*
+         * objects which failed to initialize.
+         *
+         * they are not visible anymore. however, they are kept until
+         * dyld_clear because their functions might be referenced.
+         */
+        SLIST_HEAD(struct dyld_object) failed_objs;
+
         struct dyld_options opts;
 
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index e28a040..71f48d4 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -24,32 +24,35 @@ static int
 dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
                                  bool bindnow, struct dyld_object **objp)
 {
-        struct dyld_object *obj = NULL;
+        struct dyld_object *obj;
+        struct dyld_object *last;
         int ret;
         ret = dyld_search_and_load_object_from_file(d, name, &obj);
         if (ret != 0) {
                 mem_free(d->mctx, (void *)name->data, /* discard const */
                          name->nbytes + 1);
-                goto fail;
+                return ret;
         }
         /* obj owns the name from now on */
         obj->dynname = *name;
         obj->name = &obj->dynname;
         ret = dyld_resolve_dependencies(d, obj, bindnow);
+        last = SLIST_LAST(&d->objs, struct dyld_object, q);
         if (ret != 0) {
-                goto fail;
+                dyld_remove_objects(d, obj, last, true);
+                return ret;
         }
         ret = dyld_execute_all_init_funcs(d, obj);
         if (ret != 0) {
-                goto fail;
+                /*
+                 * Note: objects after "last" are ones loaded by
+                 * the init functions. leave them.
+                 */
+                dyld_remove_objects(d, obj, last, false);
+                return ret;
         }
         *objp = obj;
         return 0;
-fail:
-        if (obj != NULL) {
-                /* TODO: implement cleanup */
-        }
-        return ret;
 }
 
 /*
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index e201339..ba4f0a7 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -59,6 +59,8 @@ struct dyld_dynamic_object {
 
 int dyld_resolve_dependencies(struct dyld *d, struct dyld_object *obj,
                               bool bindnow);
+void dyld_remove_objects(struct dyld *d, struct dyld_object *first,
+                         struct dyld_object *last, bool destroy);
 int dyld_execute_all_init_funcs(struct dyld *d, struct dyld_object *start);
 
 int dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
-- 
2.43.0


From dda70321840f7d8c731d76a5a514f64e21e36d3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 04:54:17 +0000
Subject: [PATCH 37/45] fix: do not leave dangling references in the table
 after a failed dlopen

When a library failed to load after its instantiation had stored its
functions in the shared table, the functions were freed but the program
could still call them via the table.
---
 libdyld/dyld.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 669a2a9..897a6f1 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -1015,6 +1015,9 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
                 xlog_error("instance_create failed with %d: %s", ret,
                            report_getmessage(&report));
                 report_clear(&report);
+                if (pie_or_lib) {
+                        dyld_clear_table(obj);
+                }
                 goto fail;
         }
         report_clear(&report);
@@ -1034,6 +1037,9 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
         }
         ret = dyld_allocate_table_for_obj_exports(d, obj);
         if (ret != 0) {
+                if (pie_or_lib) {
+                        dyld_clear_table(obj);
+                }
                 goto fail;
         }
         SLIST_INSERT_TAIL(&d->objs, obj, q);
-- 
2.43.0


From 58967a09f39206fee28be7cda5e2f5b8eff8e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:19 +0000
Subject: [PATCH 38/45] fix: keep the line buffer of the REPL between commands

The buffer was handed to getline with a capacity of zero each time, which
makes glibc allocate a new one and drop the old one.
---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 25bfb52..1bb46c5 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1561,12 +1561,12 @@ int
 toywasm_repl(struct repl_state *state)
 {
         char *line = NULL;
+        size_t linecap = 0;
         while (true) {
                 int ret;
 
                 nbio_printf("%s> ", state->opts.prompt);
                 fflush(stdout);
-                size_t linecap = 0;
                 ssize_t ssz = nbio_getline(&line, &linecap, stdin);
                 if (ssz == -1) {
                         break;
-- 
2.43.0


From d2b8166df6ed10a1f5a19762dc7289c49a7b401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:05 +0000
Subject: [PATCH 39/45] fix: write empty vectors when saving a module

fwrite with a size of zero returns zero, which was taken for an error.
Saving a module with an empty name or an empty data segment failed.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..3a41c6e 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -50,6 +50,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
+        if (sz == 0) {
+                return;
+        }
         size_t result = fwrite(p, sz, 1, w->fp);
         if (result != 1) {
                 w->error = ferror(w->fp);
-- 
2.43.0


From 075257c3a8a6b6bdff5b68c3b381e383293dde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:05 +0000
Subject: [PATCH 40/45] fix: save tag imports and exports of a module

Saving a module that imports or exports a tag failed an assertion,
or wrote a broken module without assertions.
---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 3a41c6e..92edba7 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -220,6 +220,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -262,6 +267,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From 82946040398c5771d2a7b8f2f4c8540a32bf766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:05 +0000
Subject: [PATCH 41/45] fix: save element segments of expressions

A missing break made the writer fail an assertion after such a segment.
The other assertion did not allow an empty one.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 92edba7..a8ae23c 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -311,7 +311,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_exprs != NULL || e->init_size == 0);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
@@ -391,6 +391,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From 887e2e0952a74ab4758411ff12965922a52dbd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:05 +0000
Subject: [PATCH 42/45] fix: allow unresolved functions for modules without
 function imports

Loading a module that imports no functions with
--allow-unresolved-functions allocated zero bytes, which fails an
assertion.
---
 lib/dummy_host_func.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/dummy_host_func.c b/lib/dummy_host_func.c
index 5310083..9bbf28e 100644
--- a/lib/dummy_host_func.c
+++ b/lib/dummy_host_func.c
@@ -60,10 +60,12 @@ create_satisfying_functions(struct mem_context *mctx, const struct module *m,
         if (ret != 0) {
                 goto fail;
         }
-        fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
-        if (fis == NULL) {
-                ret = ENOMEM;
-                goto fail;
+        if (nfuncs > 0) {
+                fis = mem_zalloc(mctx, nfuncs * sizeof(*fis));
+                if (fis == NULL) {
+                        ret = ENOMEM;
+                        goto fail;
+                }
         }
         imo->dtor = _dtor;
         imo->dtor_arg = fis;
-- 
2.43.0


From a6c9d547632483610e759f67e3e455038b2ec9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:36:05 +0000
Subject: [PATCH 43/45] fix: do not leave WASI with the memory of a module that
 failed to load

When a module could not be initialized, it was unloaded, but the WASI
instance kept pointing at its memory. A module loaded earlier then used
freed memory in its host calls.
---
 cli/repl.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index 1bb46c5..d8e3935 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -606,6 +606,28 @@ set_memory(struct repl_state *state, struct meminst *mem)
 #endif
 }
 
+/*
+ * go back to the memory of the last loaded module.
+ */
+static void
+reset_memory(struct repl_state *state)
+{
+        struct meminst *mem = NULL;
+        if (state->modules.lsize > 0) {
+                struct repl_module_state_u *mod_u =
+                        &VEC_LASTELEM(state->modules);
+#if defined(TOYWASM_ENABLE_DYLD)
+                if (state->opts.enable_dyld) {
+                        mem = dyld_memory(&mod_u->u.dyld);
+                } else
+#endif
+                {
+                        mem = cconv_memory(mod_u->u.repl.inst);
+                }
+        }
+        set_memory(state, mem);
+}
+
 static int
 repl_load_from_buf(struct repl_state *state, const char *modname,
                    struct repl_module_state *mod, bool trap_ok)
@@ -702,6 +724,7 @@ repl_load_from_buf(struct repl_state *state, const char *modname,
         ret = repl_exec_init(state, mod, trap_ok);
         if (ret != 0) {
                 xlog_printf("repl_exec_init failed\n");
+                reset_memory(state);
                 goto fail;
         }
 #if defined(TOYWASM_ENABLE_HEAP_TRACKING)
@@ -715,6 +738,7 @@ repl_load_from_buf(struct repl_state *state, const char *modname,
                 mod->name = strdup(modname);
                 if (mod->name == NULL) {
                         ret = ENOMEM;
+                        reset_memory(state);
                         goto fail;
                 }
         }
@@ -749,6 +773,7 @@ toywasm_repl_load(struct repl_state *state, const char *modname,
                 set_memory(state, dyld_memory(d));
                 ret = dyld_execute_init_funcs(d);
                 if (ret != 0) {
+                        reset_memory(state);
                         dyld_clear(d);
                         return ret;
                 }
-- 
2.43.0


From a2af5ad7e6eed7e31036db458d9fc0dff0a7ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:29:06 +0000
Subject: [PATCH 44/45] fix: ignore repeated subsections of the name section

A name subsection may occur only once.  The check for it never
advanced, so a module with a repeated subsection made a trace leak
the names read first, or fail an assertion.
---
 lib/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/name.c b/lib/name.c
index 4df6a38..177aadd 100644
--- a/lib/name.c
+++ b/lib/name.c
@@ -139,6 +139,7 @@ parse_name_section(struct nametable *table, const struct module *m)
                         ret = EINVAL;
                         goto fail;
                 }
+                prev = (int)name_type;
                 ret = read_leb_u32(&p, ep, &name_payload_len);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From 3926968ff180ea88813e569204c04d4c52235e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:20:54 +0000
Subject: [PATCH 45/45] fix: report a trapping start function as a failed
 thread spawn

The instance for a new thread runs the start function of the module.
When that trapped, thread_spawn passed the internal trap code on as a
host errno, which hit an assertion.
---
 libwasi_threads/wasi_threads.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 7076e7f..fcabd65 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -446,6 +446,10 @@ wasi_thread_spawn_common(struct exec_context *ctx,
                 xlog_trace("%s: instance_create failed with %d: %s", __func__,
                            ret, report_getmessage(&report));
                 report_clear(&report);
+                if (ret == ETOYWASMTRAP) {
+                        /* the callers expect a host errno */
+                        ret = EIO;
+                }
                 goto fail;
         }
         report_clear(&report);
-- 
2.43.0

