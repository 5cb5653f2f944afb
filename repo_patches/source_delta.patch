From 245286e72355d54ca7d99fb412a3a6d9834922d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 01/34] fix: give post-create the pointer that pre-create
 returned

The new thread may already have replaced tn_user_data with the result of
init-thread, or have ended and cleared the node, when pthread_create()
reads it.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..77a4a91 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1166,7 +1166,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From a240dbe58e0edb07f992f0ff3660b55edc48f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 02/34] fix: end the new-thread info of ignored threads with
 pthread_create

The early returns for ignored threads left tn_thread_info pointing to a
dead stack frame, so a later monitor_get_new_thread_info() copied
garbage instead of failing.
---
 src/pthread.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 77a4a91..934b789 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1104,7 +1104,11 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = NULL;
+	}
+	return (ret);
     }
 
     /*
@@ -1131,7 +1135,9 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
-	return (*real_pthread_create)(thread, attr, start_routine, arg);
+	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
+	my_tn->tn_thread_info = NULL;
+	return (ret);
     }
 
     tn = monitor_make_thread_node();
-- 
2.43.0


From 970b5463ed121bea114e15cc482e2bcef4cc1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 03/34] fix: reset the exit state and the thread lock in a
 forked child

A child forked while process exit was under way in the parent (in an
exit handler, in another thread, or after pthread_exit() in main) got no
end callbacks or waited forever in exit(), and its threads did not
start; a child forked while another thread held the thread lock hung on
its first pthread_create().
---
 src/main.c    |  2 ++
 src/pthread.c | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/main.c b/src/main.c
index 34f6708..5baa84f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,6 +267,8 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
+	monitor_main_tn.tn_exit_win = 0;
+	monitor_end_process_cookie = 0;
     }
     else if (val) {
 	/* If already called, then skip the init process callback.
diff --git a/src/pthread.c b/src/pthread.c
index 934b789..8c2bf04 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -356,6 +356,17 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
 	MONITOR_WARN1("pthread_key_delete failed\n");
     }	
     monitor_has_used_threads = 0;
+
+    /*
+     * The child starts over, even if the parent was in the middle of
+     * process exit or another thread held the lock.
+     */
+    main_tn->tn_appl_started = 0;
+    main_tn->tn_fini_started = 0;
+    main_tn->tn_fini_done = 0;
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
+    monitor_thread_lock = (spinlock_t) SPINLOCK_UNLOCKED;
 }
 
 /*
-- 
2.43.0


From 49664fe71ac6e8f6e0068cc4b8a6c8afd0c32ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 04/34] fix: end the process when a forked thread returns in
 the child

In the child of a fork() in a non-main thread, that thread is main.
When its start routine returned (or it called pthread_exit), the cleanup
handler ran fini-thread for the parent's thread node and the process
ended without, or again after, its end callbacks.
---
 src/pthread.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 8c2bf04..5466a64 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -915,7 +915,16 @@ static void
 monitor_pthread_cleanup_routine(void *arg)
 {
     struct monitor_thread_node *tn = arg;
+    struct monitor_thread_node *my_tn = monitor_get_tn();
 
+    /*
+     * If this thread fork()ed, then it is main in the child process,
+     * and the node in arg is the parent's.
+     */
+    if (my_tn != NULL && my_tn->tn_is_main) {
+	monitor_end_process_fcn(MONITOR_EXIT_NORMAL);
+	return;
+    }
     if (tn == NULL) {
 	MONITOR_WARN1("unable to deliver monitor_fini_thread callback: "
 		      "missing cleanup handler argument\n");
-- 
2.43.0


From 4f4434d761cce8545902bac50bf64f5f9d62c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:13 +0000
Subject: [PATCH 05/34] fix: wrap _Exit in statically linked programs

libmonitor_wrap.a has the override for _Exit, but monitor-link did not
pass --wrap=_Exit, so _Exit() ended the process without the end
callbacks.
---
 configure    | 2 +-
 configure.ac | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure b/configure
index d61e8a1..8681949 100755
--- a/configure
+++ b/configure
@@ -13210,7 +13210,7 @@ ac_link='$CC -o conftest$ac_exeext $CFLAGS $CPPFLAGS $LDFLAGS conftest.$ac_ext $
 ac_compiler_gnu=$ac_cv_c_compiler_gnu
 
 
-wrap_list="main exit _exit"
+wrap_list="main exit _exit _Exit"
 
 
 #------------------------------------------------------------
diff --git a/configure.ac b/configure.ac
index 48a5592..a0b7ec1 100644
--- a/configure.ac
+++ b/configure.ac
@@ -71,7 +71,7 @@ AC_CANONICAL_HOST
 
 AC_LANG([C])
 
-AC_SUBST([wrap_list], ["main exit _exit"])
+AC_SUBST([wrap_list], ["main exit _exit _Exit"])
 
 #------------------------------------------------------------
 # SVN Revision
-- 
2.43.0


From 18cae33b7e1f48b3fd0e752f378aec4b5618572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 06/34] fix: let sigaction use the same struct for act and
 oldact

---
 src/signal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..510eb3a 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -811,6 +811,7 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
 		       struct sigaction *oldact)
 {
     struct monitor_signal_entry *mse;
+    struct sigaction new_act;
     char *action;
 
     monitor_signal_init();
@@ -842,6 +843,14 @@ monitor_appl_sigaction(int sig, const struct sigaction *act,
     }
     MONITOR_DEBUG("application sigaction: %d (%s)\n", sig, action);
 
+    /*
+     * Copy act first, the application may use the same struct for act
+     * and oldact.
+     */
+    if (act != NULL) {
+	new_act = *act;
+	act = &new_act;
+    }
     if (oldact != NULL) {
 	*oldact = mse->mse_appl_act;
     }
-- 
2.43.0


From effa69fc5d0d58df3d98eae100cb81f0a5cc4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:29 +0000
Subject: [PATCH 07/34] fix: signal fails with EINVAL for SIG_ERR

---
 src/signal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/signal.c b/src/signal.c
index 510eb3a..05a3c39 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -882,6 +882,11 @@ MONITOR_WRAP_NAME(signal)(int sig, sighandler_fcn_t *handler)
 {
     struct sigaction act, oldact;
 
+    if (handler == SIG_ERR) {
+	errno = EINVAL;
+	return (SIG_ERR);
+    }
+
     act.sa_handler = handler;
     act.sa_flags = 0;
     sigemptyset(&act.sa_mask);
-- 
2.43.0


From 5e8347565cb7693cdd4d87e623c15737eb95141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 08/34] fix: let a thread that loses the exit race inside a
 signal handler be shot down

---
 src/main.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main.c b/src/main.c
index 5baa84f..29f8fee 100644
--- a/src/main.c
+++ b/src/main.c
@@ -335,6 +335,16 @@ monitor_end_process_fcn(int how)
 	 * finished.
 	 */
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
+#ifdef MONITOR_USE_SIGNALS
+	/*
+	 * Inside a signal handler, the shootdown signal is blocked.
+	 * Open it so that this thread gets its fini-thread callback.
+	 */
+	sigset_t set;
+	sigemptyset(&set);
+	sigaddset(&set, monitor_shootdown_signal());
+	(*real_sigprocmask)(SIG_UNBLOCK, &set, NULL);
+#endif
 	while (! monitor_fini_process_done) {
 	    usleep(MONITOR_POLL_USLEEP_TIME);
 	}
-- 
2.43.0


From c23f92d2f81085c92e77dd32717f145ef29b7159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:40 +0000
Subject: [PATCH 09/34] fix: claim the fini-thread callback atomically

---
 src/pthread.c   | 41 ++++++++++++++++++++++++++++-------------
 src/pthread_h.h |  2 +-
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 5466a64..d92e6cd 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -449,6 +449,18 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
     MONITOR_THREAD_UNLOCK;
 }
 
+/*
+ *  A thread can be interrupted by the shootdown signal on its way to
+ *  its fini-thread callback, so claim the callback atomically.
+ *
+ *  Returns: 1 if the caller is the one to run fini-thread, else 0.
+ */
+static inline int
+monitor_claim_fini_thread(struct monitor_thread_node *tn)
+{
+    return (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0);
+}
+
 static void
 monitor_shootdown_handler(int sig)
 {
@@ -477,11 +489,12 @@ monitor_shootdown_handler(int sig)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
-    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		  tn->tn_user_data, tn->tn_tid);
-    monitor_fini_thread(tn->tn_user_data);
-    tn->tn_fini_done = 1;
+    if (monitor_claim_fini_thread(tn)) {
+	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+		      tn->tn_user_data, tn->tn_tid);
+	monitor_fini_thread(tn->tn_user_data);
+	tn->tn_fini_done = 1;
+    }
     (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
@@ -632,8 +645,7 @@ monitor_thread_shootdown(void)
     /*
      * See if we need to run fini_thread from this thread.
      */
-    if (my_tn != NULL && !my_tn->tn_fini_started) {
-	my_tn->tn_fini_started = 1;
+    if (my_tn != NULL && monitor_claim_fini_thread(my_tn)) {
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      my_tn->tn_user_data, my_tn->tn_tid);
 	monitor_fini_thread(my_tn->tn_user_data);
@@ -945,7 +957,9 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
-    tn->tn_fini_started = 1;
+    if (! monitor_claim_fini_thread(tn)) {
+	return;
+    }
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -1288,11 +1302,12 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !tn->tn_block_shootdown)
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
-	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		      tn->tn_user_data, tn->tn_tid);
-	monitor_fini_thread(tn->tn_user_data);
-	tn->tn_fini_done = 1;
+	if (monitor_claim_fini_thread(tn)) {
+	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			  tn->tn_user_data, tn->tn_tid);
+	    monitor_fini_thread(tn->tn_user_data);
+	    tn->tn_fini_done = 1;
+	}
 	(*real_pthread_setcancelstate)(old_state, NULL);
 
 	return 1;
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..58e4016 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -66,7 +66,7 @@ struct monitor_thread_node {
     char   tn_is_main;
     char   tn_ignore_threads;
     volatile char  tn_appl_started;
-    volatile char  tn_fini_started;
+    volatile long  tn_fini_started;
     volatile char  tn_fini_done;
     volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
-- 
2.43.0


From 111be9c5ca75c2c9e6de4c456d6fc992e8af9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 10/34] fix: never return the shootdown signal from sigwait
 during process exit

---
 src/pthread.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index d92e6cd..362bcb7 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1313,6 +1313,13 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	return 1;
     }
 
+    /*
+     * Never show our shootdown signal to the application.
+     */
+    if (sig == shootdown_signal && monitor_in_exit_cleanup) {
+	return 1;
+    }
+
     /*
      * A signal for which the client has installed a handler via
      * monitor_sigaction().
-- 
2.43.0


From 41df27925acc17af68d0d250aa664441f6ede82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:49 +0000
Subject: [PATCH 11/34] fix: subtract the elapsed time when sigtimedwait is
 restarted

---
 src/pthread.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 362bcb7..64f9f5c 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -68,6 +68,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 #include <ucontext.h>
 #include <unistd.h>
 
@@ -1404,6 +1405,8 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
     char buf[MONITOR_SIG_BUF_SIZE];
     siginfo_t my_info, *info_ptr;
     ucontext_t context;
+    const struct timespec *time_ptr = timeout;
+    struct timespec start, now, left;
     int ret, save_errno;
 
     monitor_thread_name_init();
@@ -1412,17 +1415,38 @@ MONITOR_WRAP_NAME(sigtimedwait)(const sigset_t *set, siginfo_t *info,
 	MONITOR_DEBUG("waiting on:%s\n", buf);
     }
 
-    /*
-     * FIXME: if we restart sigtimedwait(), then we should subtract
-     * the elapsed time from the timeout.
-     */
+    if (timeout != NULL) {
+	clock_gettime(CLOCK_MONOTONIC, &start);
+    }
     getcontext(&context);
     info_ptr = (info != NULL) ? info : &my_info;
-    do {
-	ret = real_sigtimedwait(set, info_ptr, timeout);
+    for (;;) {
+	ret = real_sigtimedwait(set, info_ptr, time_ptr);
 	save_errno = errno;
+	if (! monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context)) {
+	    break;
+	}
+	/*
+	 * Subtract the elapsed time from the timeout for the restart.
+	 */
+	if (timeout != NULL) {
+	    clock_gettime(CLOCK_MONOTONIC, &now);
+	    left.tv_sec = timeout->tv_sec - (now.tv_sec - start.tv_sec);
+	    left.tv_nsec = timeout->tv_nsec - (now.tv_nsec - start.tv_nsec);
+	    if (left.tv_nsec < 0) {
+		left.tv_sec--;
+		left.tv_nsec += 1000000000;
+	    } else if (left.tv_nsec >= 1000000000) {
+		left.tv_sec++;
+		left.tv_nsec -= 1000000000;
+	    }
+	    if (left.tv_sec < 0) {
+		left.tv_sec = 0;
+		left.tv_nsec = 0;
+	    }
+	    time_ptr = &left;
+	}
     }
-    while (monitor_sigwait_helper(set, ret, save_errno, info_ptr, &context));
 
     errno = save_errno;
     return ret;
-- 
2.43.0


From eae8045cfa1ad159ce00900387eb8f2b41f10c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 12/34] fix: keep the application's ignored signals ignored
 over exec and system

---
 src/common.h |  1 +
 src/fork.c   | 33 ++++++++++++++++++++++++++++++++-
 src/signal.c | 24 ++++++++++++++++++++++++
 3 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index 2ad0573..65783a3 100644
--- a/src/common.h
+++ b/src/common.h
@@ -173,6 +173,7 @@ void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
 int  monitor_shootdown_signal(void);
+void monitor_exec_signals(int);
 int  monitor_sigwait_handler(int, siginfo_t *, void *);
 void monitor_remove_client_signals(sigset_t *, int);
 int  monitor_sigset_string(char *, int, const sigset_t *);
diff --git a/src/fork.c b/src/fork.c
index a8a7260..381ccda 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -368,7 +368,13 @@ monitor_execv(const char *path, char *const argv[])
 	monitor_end_library_fcn();
 #endif
     }
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(TRUE);
+#endif
     ret = (*real_execv)(path, argv);
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(FALSE);
+#endif
 
     /* We only get here if real_execv fails. */
     if (is_exec) {
@@ -397,7 +403,13 @@ monitor_execvp(const char *file, char *const argv[])
 	monitor_end_library_fcn();
 #endif
     }
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(TRUE);
+#endif
     ret = (*real_execvp)(file, argv);
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(FALSE);
+#endif
 
     /* We only get here if real_execvp fails. */
     if (is_exec) {
@@ -426,7 +438,13 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
 	monitor_end_library_fcn();
 #endif
     }
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(TRUE);
+#endif
     ret = (*real_execve)(path, argv, envp);
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(FALSE);
+#endif
 
     /* We only get here if real_execve fails. */
     if (is_exec) {
@@ -572,6 +590,9 @@ monitor_system(const char *command, int callback)
 	(*real_sigaction)(SIGINT, &old_int, NULL);
 	(*real_sigaction)(SIGQUIT, &old_quit, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
+#ifdef MONITOR_USE_SIGNALS
+	monitor_exec_signals(TRUE);
+#endif
 	arglist[0] = SHELL;
 	arglist[1] = "-c";
 	arglist[2] = (char *)command;
@@ -633,6 +654,8 @@ MONITOR_WRAP_NAME(system)(const char *command)
 int
 monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 {
+    int ret;
+
     monitor_fork_init();
     MONITOR_DEBUG("command = %s\n", path);
 
@@ -643,7 +666,15 @@ monitor_real_execve(const char *path, char *const argv[], char *const envp[])
 	return -1;
     }
 
-    return (*real_execve)(path, argv, monitor_copy_environ(envp));
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(TRUE);
+#endif
+    ret = (*real_execve)(path, argv, monitor_copy_environ(envp));
+#ifdef MONITOR_USE_SIGNALS
+    monitor_exec_signals(FALSE);
+#endif
+
+    return (ret);
 }
 
 /*
diff --git a/src/signal.c b/src/signal.c
index 05a3c39..5e22fee 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -356,6 +356,30 @@ monitor_signal_init(void)
     }
 }
 
+/*
+ *  Exec resets our handlers to default but keeps ignored signals, so
+ *  hand the signals that the application ignores to the kernel before
+ *  exec, and take them back if exec fails.
+ */
+void
+monitor_exec_signals(int before)
+{
+    struct monitor_signal_entry *mse;
+    struct sigaction action;
+    int sig;
+
+    monitor_signal_init();
+    memset(&action, 0, sizeof(action));
+    action.sa_handler = SIG_IGN;
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	mse = &monitor_signal_array[sig];
+	if (!mse->mse_avoid && !mse->mse_invalid
+	    && mse->mse_appl_act.sa_handler == SIG_IGN) {
+	    (*real_sigaction)(sig, (before ? &action : &mse->mse_kern_act), NULL);
+	}
+    }
+}
+
 /*
  *----------------------------------------------------------------------
  *  SHOOTDOWN SIGNAL and helper functions
-- 
2.43.0


From 1b14113e6a59da5a015e26af675b7ad9d31902ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 13/34] fix: look up exec files on PATH as execvp does

---
 src/fork.c | 63 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 381ccda..f8184f6 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -48,6 +48,7 @@
 #include "config.h"
 #include <sys/types.h>
 #include <sys/mman.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #ifdef MONITOR_DYNAMIC
 #include <dlfcn.h>
@@ -249,13 +250,23 @@ monitor_copy_va_args(char ***argv, char ***envp,
  *
  *  Returns: 1 if "file" is executable, else 0.
  */
-#define COLON  ":"
+#define COLON  ':'
 #define SLASH  '/'
+#define DEFAULT_PATH  "/bin:/usr/bin"
+static int
+monitor_is_program(const char *path)
+{
+    struct stat sb;
+
+    return (access(path, X_OK) == 0
+	    && stat(path, &sb) == 0 && S_ISREG(sb.st_mode));
+}
+
 static int
 monitor_is_executable(const char *file)
 {
-    char buf[PATH_MAX], *path;
-    int  file_len, path_len;
+    char buf[PATH_MAX], *path, *end;
+    size_t  file_len, path_len;
 
     if (file == NULL) {
 	MONITOR_DEBUG1("attempt to exec NULL path\n");
@@ -266,28 +277,38 @@ monitor_is_executable(const char *file)
      * otherwise, search for it on PATH.
      */
     if (strchr(file, SLASH) != NULL)
-	return (access(file, X_OK) == 0);
+	return (monitor_is_program(file));
 
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
+
     path = getenv("PATH");
-    path += strspn(path, COLON);
-    while (*path != 0) {
-	path_len = strcspn(path, COLON);
+    if (path == NULL) {
+	path = DEFAULT_PATH;
+    }
+    /*
+     * An empty path element means the current directory.
+     */
+    for (;;) {
+	end = strchr(path, COLON);
+	path_len = (end != NULL) ? end - path : strlen(path);
 	if (path_len + file_len + 2 > PATH_MAX) {
-	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
-			  path_len + file_len + 2, PATH_MAX);
+	    MONITOR_DEBUG("path length %ld exceeds PATH_MAX %d\n",
+			  (long)(path_len + file_len + 2), PATH_MAX);
+	} else {
+	    memcpy(buf, path, path_len);
+	    if (path_len > 0) {
+		buf[path_len++] = SLASH;
+	    }
+	    memcpy(&buf[path_len], file, file_len + 1);
+	    if (monitor_is_program(buf))
+		return (1);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
-	path += path_len;
-	path += strspn(path, COLON);
+	if (end == NULL)
+	    return (0);
+	path = end + 1;
     }
-
-    return (0);
 }
 
 /*
@@ -358,7 +379,7 @@ monitor_execv(const char *path, char *const argv[])
     int ret, is_exec;
 
     monitor_fork_init();
-    is_exec = access(path, X_OK) == 0;
+    is_exec = monitor_is_program(path);
     MONITOR_DEBUG("about to execv, expecting %s, pid: %d, path: %s\n",
 		  (is_exec ? "success" : "failure"),
 		  (int)getpid(), path);
@@ -428,7 +449,7 @@ monitor_execve(const char *path, char *const argv[], char *const envp[])
     int ret, is_exec;
 
     monitor_fork_init();
-    is_exec = access(path, X_OK) == 0;
+    is_exec = monitor_is_program(path);
     MONITOR_DEBUG("about to execve, expecting %s, pid: %d, path: %s\n",
 		  (is_exec ? "success" : "failure"),
 		  (int)getpid(), path);
-- 
2.43.0


From 551ba9f95de1ec001406bdd72c6f99e2cd9219bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 14/34] fix: remove only LD_PRELOAD itself from the environment

---
 src/fork.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index f8184f6..9c94b0e 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -160,7 +160,7 @@ monitor_copy_environ(char *const oldenv[])
     int k, n, prot, flags;
 
     /* Count the size of the old environ array. */
-    for (n = 0; oldenv[n] != NULL; n++) {
+    for (n = 0; oldenv != NULL && oldenv[n] != NULL; n++) {
     }
     n += 2;
 
@@ -188,8 +188,8 @@ monitor_copy_environ(char *const oldenv[])
 
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
-    for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+    for (k = 0; oldenv != NULL && oldenv[k] != NULL; k++) {
+	if (strncmp(oldenv[k], "LD_PRELOAD=", 11) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 851e0249a4e4024d3afbda2ec497288eb9b4f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:07 +0000
Subject: [PATCH 15/34] fix: let system calls overlap without leaving SIGINT
 and SIGQUIT ignored

---
 src/fork.c | 61 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 9c94b0e..44a4474 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -65,6 +65,7 @@
 
 #include "common.h"
 #include "monitor.h"
+#include "spinlock.h"
 
 extern char **environ;
 
@@ -311,6 +312,53 @@ monitor_is_executable(const char *file)
     }
 }
 
+/*
+ *  Ignore SIGINT and SIGQUIT while any thread is inside system(), and
+ *  restore them when the last one leaves.
+ */
+static spinlock_t system_lock = SPINLOCK_UNLOCKED;
+static struct sigaction system_old_int, system_old_quit;
+static int system_count = 0;
+
+static void
+monitor_system_ignore(void)
+{
+    struct sigaction ign_act;
+
+    memset(&ign_act, 0, sizeof(struct sigaction));
+    ign_act.sa_handler = SIG_IGN;
+    spinlock_lock(&system_lock);
+    if (system_count++ == 0) {
+	(*real_sigaction)(SIGINT, &ign_act, &system_old_int);
+	(*real_sigaction)(SIGQUIT, &ign_act, &system_old_quit);
+    }
+    spinlock_unlock(&system_lock);
+}
+
+static void
+monitor_system_restore(void)
+{
+    spinlock_lock(&system_lock);
+    if (--system_count == 0) {
+	(*real_sigaction)(SIGINT, &system_old_int, NULL);
+	(*real_sigaction)(SIGQUIT, &system_old_quit, NULL);
+    }
+    spinlock_unlock(&system_lock);
+}
+
+/*
+ *  In a forked child, no thread is inside system().
+ */
+static void
+monitor_system_reset(void)
+{
+    spinlock_unlock(&system_lock);
+    if (system_count > 0) {
+	system_count = 1;
+	monitor_system_restore();
+    }
+}
+
 /*
  *----------------------------------------------------------------------
  *  FORK and EXEC OVERRIDE FUNCTIONS
@@ -346,6 +394,7 @@ monitor_fork(void)
     }
     else {
 	/* Child process. */
+	monitor_system_reset();
 	MONITOR_DEBUG("application forked, parent = %d\n", (int)getppid());
 	monitor_begin_process_fcn(user_data, TRUE);
     }
@@ -562,7 +611,6 @@ MONITOR_WRAP_NAME(execve)(const char *path, char *const argv[],
 static int
 monitor_system(const char *command, int callback)
 {
-    struct sigaction ign_act, old_int, old_quit;
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
     char *arglist[4];
@@ -585,8 +633,6 @@ monitor_system(const char *command, int callback)
     /*
      * Ignore SIGINT and SIGQUIT, and block SIGCHLD.
      */
-    memset(&ign_act, 0, sizeof(struct sigaction));
-    ign_act.sa_handler = SIG_IGN;
     sigemptyset(&sigchld_set);
     sigaddset(&sigchld_set, SIGCHLD);
 
@@ -594,8 +640,7 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) calling monitor_pre_fork() ...\n", who);
 	user_data = monitor_pre_fork();
     }
-    (*real_sigaction)(SIGINT, &ign_act, &old_int);
-    (*real_sigaction)(SIGQUIT, &ign_act, &old_quit);
+    monitor_system_ignore();
     (*real_sigprocmask)(SIG_BLOCK, &sigchld_set, &old_set);
 
     pid = (*real_fork)();
@@ -608,8 +653,7 @@ monitor_system(const char *command, int callback)
 	/* Child process. */
 	MONITOR_DEBUG("(%s) child process about to exec, parent = %d\n",
 		      who, getppid());
-	(*real_sigaction)(SIGINT, &old_int, NULL);
-	(*real_sigaction)(SIGQUIT, &old_quit, NULL);
+	monitor_system_reset();
 	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 #ifdef MONITOR_USE_SIGNALS
 	monitor_exec_signals(TRUE);
@@ -631,8 +675,7 @@ monitor_system(const char *command, int callback)
 	    }
 	}
     }
-    (*real_sigaction)(SIGINT, &old_int, NULL);
-    (*real_sigaction)(SIGQUIT, &old_quit, NULL);
+    monitor_system_restore();
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 
     if (callback) {
-- 
2.43.0


From 605641afb973a52d13ef2366e5fcc095dbbd6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:52 +0000
Subject: [PATCH 16/34] fix: die of an asynchronous SIGSEGV, SIGBUS or SIGILL
 after the end callbacks

---
 src/signal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 5e22fee..a18e263 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,8 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info->si_code > 0) {
+	    /* For a real segv, etc, we just return and fault again. */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From fec0eb1fc055bcc01720df16c8c7eadeb6903839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 17/34] fix: block signals while holding the thread lock

---
 src/pthread.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 64f9f5c..a6cccb1 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -179,10 +179,25 @@ static malloc_fcn_t  *real_malloc = NULL;
  *  tn_* variables to indicate the thread status and when it has
  *  finished.
  */
-#define MONITOR_THREAD_LOCK     spinlock_lock(&monitor_thread_lock)
 #define MONITOR_THREAD_TRYLOCK  spinlock_trylock(&monitor_thread_lock)
 #define MONITOR_THREAD_UNLOCK   spinlock_unlock(&monitor_thread_lock)
 
+/*
+ *  Also block signals: if a handler ended the process while this
+ *  thread holds the lock, then thread shootdown would deadlock.
+ */
+#define MONITOR_THREAD_LOCK_SIGS(oldset)    do {			\
+	sigset_t full_set;						\
+	sigfillset(&full_set);						\
+	(*real_pthread_sigmask)(SIG_BLOCK, &full_set, oldset);		\
+	spinlock_lock(&monitor_thread_lock);				\
+    } while (0)
+
+#define MONITOR_THREAD_UNLOCK_SIGS(oldset)  do {			\
+	spinlock_unlock(&monitor_thread_lock);				\
+	(*real_pthread_sigmask)(SIG_SETMASK, oldset, NULL);		\
+    } while (0)
+
 static spinlock_t monitor_thread_lock = SPINLOCK_UNLOCKED;
 
 static struct monitor_thread_node monitor_init_tn_array[MONITOR_TN_ARRAY_SIZE];
@@ -378,8 +393,9 @@ static struct monitor_thread_node *
 monitor_make_thread_node(void)
 {
     struct monitor_thread_node *tn;
+    sigset_t old_set;
 
-    MONITOR_THREAD_LOCK;
+    MONITOR_THREAD_LOCK_SIGS(&old_set);
 
     tn = LIST_FIRST(&monitor_free_list);
     if (tn != NULL) {
@@ -407,7 +423,7 @@ monitor_make_thread_node(void)
     tn->tn_magic = MONITOR_TN_MAGIC;
     tn->tn_tid = -1;
 
-    MONITOR_THREAD_UNLOCK;
+    MONITOR_THREAD_UNLOCK_SIGS(&old_set);
     return (tn);
 }
 
@@ -418,23 +434,27 @@ monitor_make_thread_node(void)
 static int
 monitor_link_thread_node(struct monitor_thread_node *tn)
 {
-    MONITOR_THREAD_LOCK;
+    sigset_t old_set;
+
+    MONITOR_THREAD_LOCK_SIGS(&old_set);
 
     if (monitor_in_exit_cleanup) {
-	MONITOR_THREAD_UNLOCK;
+	MONITOR_THREAD_UNLOCK_SIGS(&old_set);
 	return (1);
     }
     tn->tn_tid = ++monitor_thread_num;
     LIST_INSERT_HEAD(&monitor_thread_list, tn, tn_links);
 
-    MONITOR_THREAD_UNLOCK;
+    MONITOR_THREAD_UNLOCK_SIGS(&old_set);
     return (0);
 }
 
 static void
 monitor_unlink_thread_node(struct monitor_thread_node *tn)
 {
-    MONITOR_THREAD_LOCK;
+    sigset_t old_set;
+
+    MONITOR_THREAD_LOCK_SIGS(&old_set);
     /*
      * Don't delete the thread node if in exit cleanup, just mark the
      * node as finished.
@@ -447,7 +467,7 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
     }
-    MONITOR_THREAD_UNLOCK;
+    MONITOR_THREAD_UNLOCK_SIGS(&old_set);
 }
 
 /*
@@ -539,7 +559,7 @@ monitor_thread_shootdown(void)
     struct timeval last, now;
     struct monitor_thread_node *tn, *my_tn, *main_tn;
     struct sigaction my_action;
-    sigset_t empty_set;
+    sigset_t empty_set, old_set;
     pthread_t self;
     int num_started, num_unstarted, last_started;
     int num_finished, num_unfinished, old_state;
@@ -551,9 +571,9 @@ monitor_thread_shootdown(void)
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
 
-    MONITOR_THREAD_LOCK;
+    MONITOR_THREAD_LOCK_SIGS(&old_set);
     monitor_in_exit_cleanup = 1;
-    MONITOR_THREAD_UNLOCK;
+    MONITOR_THREAD_UNLOCK_SIGS(&old_set);
     MONITOR_DEBUG1("(threads)\n");
 
     /*
-- 
2.43.0


From 16a5b5698c34e288523cd360acda7755fcbc57af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 18/34] fix: forget the thread node when it goes back on the
 free list

---
 src/pthread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index a6cccb1..cd8b055 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -463,6 +463,8 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	tn->tn_fini_started = 1;
 	tn->tn_fini_done = 1;
     } else {
+	/* Another thread may reuse the node before this thread is gone. */
+	(*real_pthread_setspecific)(monitor_pthread_key, NULL);
 	LIST_REMOVE(tn, tn_links);
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
-- 
2.43.0


From 39aa8be45e0e30f5a411b045702351ccc9a53996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:49 +0000
Subject: [PATCH 19/34] fix: execvp and execlp end their search of PATH at the
 same errors as the real call

The real execvp goes on to the next element only when the file is not
there or not accessible and fails at once for other errors (ELOOP, an
over-long component).  The search for the executable went on after
those, found a later program and ran the end callbacks although the
exec was bound to fail.
---
 src/fork.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index 44a4474..421e492 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -259,8 +259,13 @@ monitor_is_program(const char *path)
 {
     struct stat sb;
 
-    return (access(path, X_OK) == 0
-	    && stat(path, &sb) == 0 && S_ISREG(sb.st_mode));
+    if (access(path, X_OK) != 0 || stat(path, &sb) != 0)
+	return (0);
+    if (! S_ISREG(sb.st_mode)) {
+	errno = EACCES;
+	return (0);
+    }
+    return (1);
 }
 
 static int
@@ -305,6 +310,12 @@ monitor_is_executable(const char *file)
 	    memcpy(&buf[path_len], file, file_len + 1);
 	    if (monitor_is_program(buf))
 		return (1);
+	    /*
+	     * The real exec tries the next element only for these errors.
+	     */
+	    if (errno != EACCES && errno != ENOENT && errno != ENOTDIR
+		&& errno != ESTALE && errno != ENODEV && errno != ETIMEDOUT)
+		return (0);
 	}
 	if (end == NULL)
 	    return (0);
-- 
2.43.0


From f895e1128aba4c16951ebed3aa2565172b93f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 20/34] fix: end the process by the fatal signal even if
 another blocked signal is pending

---
 src/signal.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index a18e263..2bc7a3e 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -256,6 +256,12 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	action.sa_flags = 0;
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
+	/*
+	 * Open only this signal, or else another pending signal could
+	 * be delivered first and end the process instead.
+	 */
+	sigfillset(&action.sa_mask);
+	sigdelset(&action.sa_mask, sig);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
 	if (mse->mse_noraise && info->si_code > 0) {
 	    /* For a real segv, etc, we just return and fault again. */
@@ -798,7 +804,7 @@ monitor_sigaction(int sig, monitor_sighandler_t *handler,
 
 /*
  *  Client function for generating a core file.  Reset the default
- *  signal handler, clear the signal mask and raise SIGABRT.
+ *  signal handler, open the signal in the mask and raise SIGABRT.
  */
 void
 monitor_real_abort(void)
@@ -813,6 +819,8 @@ monitor_real_abort(void)
     action.sa_flags = 0;
     sigemptyset(&action.sa_mask);
     (*real_sigaction)(SIGABRT, &action, NULL);
+    sigfillset(&action.sa_mask);
+    sigdelset(&action.sa_mask, SIGABRT);
     (*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
     raise(SIGABRT);
 
-- 
2.43.0


From f9d1e86b57416bcbff42d58b7778ffe325748491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 21/34] fix: a handler that exits right after its thread won
 the exit race no longer waits for itself

---
 src/main.c      | 15 ++++++++-------
 src/pthread_h.h |  1 -
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 29f8fee..c565479 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,7 +267,6 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
-	monitor_main_tn.tn_exit_win = 0;
 	monitor_end_process_cookie = 0;
     }
     else if (val) {
@@ -303,17 +302,19 @@ void
 monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
-    long prev;
+    long prev, self;
 
-    prev = compare_and_swap(&monitor_end_process_cookie, 0, 1);
+    /*
+     * Record the winner in the same step: a signal handler in the
+     * winning thread may also try to exit and must not wait for itself.
+     */
+    self = (tn != NULL) ? (long) tn : 1;
+    prev = compare_and_swap(&monitor_end_process_cookie, 0, self);
     if (prev == 0) {
 	/*
 	 * Race winner: use the first thread that starts process exit
 	 * to launch the fini-thread and fini-process callbacks.
 	 */
-	if (tn != NULL) {
-	    tn->tn_exit_win = 1;
-	}
 	MONITOR_DEBUG("calling monitor_begin_process_exit (how = %d) ...\n", how);
 	monitor_begin_process_exit(how);
 
@@ -322,7 +323,7 @@ monitor_end_process_fcn(int how)
 	MONITOR_DEBUG("calling monitor_fini_process (how = %d) ...\n", how);
 	monitor_fini_process(how, monitor_main_tn.tn_user_data);
     }
-    else if (tn != NULL && tn->tn_exit_win) {
+    else if (tn != NULL && prev == self) {
 	/*
 	 * Repeat winner: somehow this thread has started process exit
 	 * again.  Assume the callbacks have had their chance.
diff --git a/src/pthread_h.h b/src/pthread_h.h
index 58e4016..da5c6c4 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -68,7 +68,6 @@ struct monitor_thread_node {
     volatile char  tn_appl_started;
     volatile long  tn_fini_started;
     volatile char  tn_fini_done;
-    volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
 };
 
-- 
2.43.0


From 77a31074e4961d2311afe64cc00135e723312a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 22/34] fix: process exit no longer waits for a thread that
 exits inside its fini-thread callback

---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index c565479..7ca8117 100644
--- a/src/main.c
+++ b/src/main.c
@@ -336,6 +336,13 @@ monitor_end_process_fcn(int how)
 	 * finished.
 	 */
 	MONITOR_DEBUG("delay second thread trying to exit (how = %d)\n", how);
+	/*
+	 * If inside the fini-thread callback, then it won't return, so
+	 * don't let thread shootdown wait for it.
+	 */
+	if (tn != NULL && tn->tn_fini_started) {
+	    tn->tn_fini_done = 1;
+	}
 #ifdef MONITOR_USE_SIGNALS
 	/*
 	 * Inside a signal handler, the shootdown signal is blocked.
-- 
2.43.0


From 5d135b9709cbfb590998c83fb730d3e4c65916b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 23/34] fix: block signals while broadcast holds the thread
 lock

---
 src/pthread.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index cd8b055..590598b 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -811,13 +811,23 @@ int
 monitor_broadcast_signal(int sig)
 {
     struct monitor_thread_node *tn;
+    sigset_t full_set, old_set;
     pthread_t self;
 
     if (! monitor_has_used_threads)
 	return (SUCCESS);
 
-    if (MONITOR_THREAD_TRYLOCK != 0)
+    /*
+     * Block signals: if a handler ended the process while this thread
+     * holds the lock, then thread shootdown would deadlock.
+     */
+    sigfillset(&full_set);
+    (*real_pthread_sigmask)(SIG_BLOCK, &full_set, &old_set);
+
+    if (MONITOR_THREAD_TRYLOCK != 0) {
+	(*real_pthread_sigmask)(SIG_SETMASK, &old_set, NULL);
 	return (FAILURE);
+    }
 
     self = (*real_pthread_self)();
     for (tn = LIST_FIRST(&monitor_thread_list);
@@ -834,7 +844,7 @@ monitor_broadcast_signal(int sig)
     if (tn != NULL && !PTHREAD_EQUAL(self, tn->tn_self))
 	(*real_pthread_kill)(tn->tn_self, sig);
 
-    MONITOR_THREAD_UNLOCK;
+    MONITOR_THREAD_UNLOCK_SIGS(&old_set);
     return (SUCCESS);
 }
 
-- 
2.43.0


From ad0194dd087f47729e1d60dd0c5f18e2f48e97ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 24/34] fix: broadcast no longer signals main twice during
 process exit

---
 src/pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 590598b..57be3de 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -834,7 +834,8 @@ monitor_broadcast_signal(int sig)
 	 tn != NULL;
 	 tn = LIST_NEXT(tn, tn_links)) {
 
-	if (!PTHREAD_EQUAL(self, tn->tn_self) &&
+	/* Main is on the list during exit cleanup, it comes below. */
+	if (!PTHREAD_EQUAL(self, tn->tn_self) && !tn->tn_is_main &&
 	    tn->tn_appl_started && !tn->tn_fini_started) {
 	    (*real_pthread_kill)(tn->tn_self, sig);
 	}
-- 
2.43.0


From c8580824fedbf4778a4720dfdfa4e8bee42aa317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:52 +0000
Subject: [PATCH 25/34] fix: no fini-thread in an exiting thread that has not
 had its init-thread

A signal that ends the process may be delivered to a new thread before
it has called monitor_init_thread().  Process exit then called
monitor_fini_thread() in that thread.
---
 src/pthread.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 57be3de..eda3d90 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -668,7 +668,8 @@ monitor_thread_shootdown(void)
     /*
      * See if we need to run fini_thread from this thread.
      */
-    if (my_tn != NULL && monitor_claim_fini_thread(my_tn)) {
+    if (my_tn != NULL && my_tn->tn_appl_started
+	&& monitor_claim_fini_thread(my_tn)) {
 	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		      my_tn->tn_user_data, my_tn->tn_tid);
 	monitor_fini_thread(my_tn->tn_user_data);
-- 
2.43.0


From e350765f897aea2530c80e5018618b5120373864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:52 +0000
Subject: [PATCH 26/34] fix: a thread that ends without fini-thread leaves the
 thread list

A thread that is cancelled or exits in its init-thread callback, or ends
with shootdown blocked, stayed on the thread list with a stale pthread id:
process exit and broadcast then signalled a dead thread (crash), and a new
thread with the same id lost its own fini-thread.
---
 src/pthread.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index eda3d90..f2caadb 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -982,8 +982,16 @@ monitor_pthread_cleanup_routine(void *arg)
 		      "bad magic in thread node\n");
 	return;
     }
-    if (!tn->tn_appl_started || tn->tn_fini_started || tn->tn_block_shootdown) {
-	/* fini-thread has already run, or else we don't want it to run. */
+    if (tn->tn_fini_started) {
+	/* fini-thread has already run. */
+	return;
+    }
+    if (!tn->tn_appl_started || tn->tn_block_shootdown) {
+	/*
+	 * We don't want fini-thread to run, but the thread is gone, so
+	 * don't leave its node on the list (with a stale tn_self).
+	 */
+	monitor_unlink_thread_node(tn);
 	return;
     }
     if (monitor_fini_thread_done) {
-- 
2.43.0


From a3b412c6f2a0063cdc8a921dd569109f3db35d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:26 +0000
Subject: [PATCH 27/34] fix: fork and system keep errno across the post-fork
 callback

---
 src/fork.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 421e492..1279242 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -388,6 +388,7 @@ monitor_fork(void)
 {
     void *user_data;
     pid_t ret;
+    int save_errno;
 
     monitor_fork_init();
     MONITOR_DEBUG1("calling monitor_pre_fork() ...\n");
@@ -396,12 +397,14 @@ monitor_fork(void)
     ret = (*real_fork)();
     if (ret != 0) {
 	/* Parent process. */
+	save_errno = errno;
 	if (ret < 0) {
 	    MONITOR_DEBUG("real fork failed (%d): %s\n",
 			  errno, strerror(errno));
 	}
 	MONITOR_DEBUG1("calling monitor_post_fork() ...\n");
 	monitor_post_fork(ret, user_data);
+	errno = save_errno;
     }
     else {
 	/* Child process. */
@@ -627,7 +630,7 @@ monitor_system(const char *command, int callback)
     char *arglist[4];
     char *who;
     pid_t pid;
-    int status;
+    int status, save_errno;
 
     monitor_fork_init();
     who = (callback ? "appl" : "client");
@@ -686,6 +689,7 @@ monitor_system(const char *command, int callback)
 	    }
 	}
     }
+    save_errno = errno;
     monitor_system_restore();
     (*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);
 
@@ -693,6 +697,7 @@ monitor_system(const char *command, int callback)
 	MONITOR_DEBUG("(%s) calling monitor_post_fork() ...\n", who);
 	monitor_post_fork(pid, user_data);
     }
+    errno = save_errno;
 
     MONITOR_DEBUG("(%s) status = %d\n", who, status);
     return (status);
-- 
2.43.0


From b99a01021a9b7dfde43d6e633ed6aa8d5865c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:51 +0000
Subject: [PATCH 28/34] fix: a signal that arrives during sigaction sees one
 whole disposition

---
 src/signal.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index 2bc7a3e..a40f971 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -197,7 +197,8 @@ static void
 monitor_signal_handler(int sig, siginfo_t *info, void *context)
 {
     struct monitor_signal_entry *mse;
-    struct sigaction action, *sa;
+    sighandler_fcn_t *handler;
+    struct sigaction action;
     int ret;
 
     if (sig <= 0 || sig >= MONITOR_NSIG ||
@@ -223,15 +224,18 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 
     /*
      * Apply the applicaton's action: ignore, default or handler.
+     *
+     * Note: the application may be in the middle of changing its
+     * action, so look at the handler just once.
      */
-    sa = &mse->mse_appl_act;
-    if (sa == NULL || sa->sa_handler == SIG_IGN) {
+    handler = *(sighandler_fcn_t * volatile *) &mse->mse_appl_act.sa_handler;
+    if (handler == SIG_IGN) {
 	/*
 	 * Ignore the signal.
 	 */
 	return;
     }
-    else if (sa->sa_handler == SIG_DFL) {
+    else if (handler == SIG_DFL) {
 	/*
 	 * Invoke the default action: ignore the signal, stop the
 	 * process, or (by default) terminate the process.
@@ -271,13 +275,10 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
     }
     else {
 	/*
-	 * Invoke the application's handler.
+	 * Invoke the application's handler.  As in the kernel, pass
+	 * all three arguments, sa_flags may belong to another handler.
 	 */
-	if (sa->sa_flags & SA_SIGINFO) {
-	    (*sa->sa_sigaction)(sig, info, context);
-	} else {
-	    (*sa->sa_handler)(sig);
-	}
+	(*(void (*)(int, siginfo_t *, void *)) handler)(sig, info, context);
     }
 }
 
-- 
2.43.0


From 3dddc123efcdd59297efe656cc289940f38ea57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:09 +0000
Subject: [PATCH 29/34] fix: new-thread info is back after a callback inside
 pthread_create creates a thread

---
 src/pthread.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index f2caadb..3e73c58 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1136,7 +1136,7 @@ int
 MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 {
     struct monitor_thread_node *tn, *my_tn;
-    struct monitor_thread_info mti;
+    struct monitor_thread_info mti, *old_mti = NULL;
     pthread_attr_t default_attr;
     int ret, restore, destroy;
     size_t old_size;
@@ -1158,13 +1158,15 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     /*
      * Create a thread info struct for pthread_create() callback
      * function.  Note: this info is only available during the
-     * lifetime of the pthread_create() override.
+     * lifetime of the pthread_create() override.  A callback function
+     * may also create a thread, so put back the outer one after that.
      */
     mti.mti_create_return_addr = __builtin_return_address(0);
     mti.mti_start_routine = (void *) start_routine;
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_mti = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1183,7 +1185,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
 	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
 	if (my_tn != NULL) {
-	    my_tn->tn_thread_info = NULL;
+	    my_tn->tn_thread_info = old_mti;
 	}
 	return (ret);
     }
@@ -1213,7 +1215,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
 	ret = (*real_pthread_create)(thread, attr, start_routine, arg);
-	my_tn->tn_thread_info = NULL;
+	my_tn->tn_thread_info = old_mti;
 	return (ret);
     }
 
@@ -1253,7 +1255,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_mti;
     }
 
     return (ret);
-- 
2.43.0


From e0c38d0ee57dadaa05f00f34cec6d3e592aca13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:32 +0000
Subject: [PATCH 30/34] fix: a thread without a thread node that exits the
 process does not wait for itself

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7ca8117..9eb2d30 100644
--- a/src/main.c
+++ b/src/main.c
@@ -53,6 +53,7 @@
 #ifdef MONITOR_DYNAMIC
 #include <dlfcn.h>
 #endif
+#include <errno.h>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -307,8 +308,10 @@ monitor_end_process_fcn(int how)
     /*
      * Record the winner in the same step: a signal handler in the
      * winning thread may also try to exit and must not wait for itself.
+     * Threads that the client ignores have no thread node, so identify
+     * the thread by the address of its errno.
      */
-    self = (tn != NULL) ? (long) tn : 1;
+    self = (long) &errno;
     prev = compare_and_swap(&monitor_end_process_cookie, 0, self);
     if (prev == 0) {
 	/*
@@ -323,7 +326,7 @@ monitor_end_process_fcn(int how)
 	MONITOR_DEBUG("calling monitor_fini_process (how = %d) ...\n", how);
 	monitor_fini_process(how, monitor_main_tn.tn_user_data);
     }
-    else if (tn != NULL && prev == self) {
+    else if (prev == self) {
 	/*
 	 * Repeat winner: somehow this thread has started process exit
 	 * again.  Assume the callbacks have had their chance.
-- 
2.43.0


From b1ff9a6d9d9e1d180c7019b2a14b19408e77cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:32 +0000
Subject: [PATCH 31/34] fix: a child forked by a thread without a thread node
 starts with a fresh main

---
 src/pthread.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 3e73c58..20883e6 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -349,16 +349,16 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
      * The thread that fork()ed is now the main thread.
      */
     tn = monitor_get_tn();
-    if (tn == NULL) {
-	MONITOR_WARN1("tn should not be NULL here\n");
-    }
-    else if (tn != main_tn) {
+    if (tn != main_tn) {
 	memset(main_tn, 0, sizeof(struct monitor_thread_node));
 	main_tn->tn_magic = MONITOR_TN_MAGIC;
 	main_tn->tn_tid = 0;
-	main_tn->tn_user_data = tn->tn_user_data;
-	main_tn->tn_stack_bottom = tn->tn_stack_bottom;
 	main_tn->tn_is_main = 1;
+	/* A thread that the client ignores has no thread node. */
+	if (tn != NULL) {
+	    main_tn->tn_user_data = tn->tn_user_data;
+	    main_tn->tn_stack_bottom = tn->tn_stack_bottom;
+	}
     }
     /*
      * Free the thread list and the pthread key.  Technically, this
-- 
2.43.0


From 6f8db21885c14ce1fcc1b5e5a7ce3be0f541346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:37 +0000
Subject: [PATCH 32/34] fix: fini-thread is not cut short by a cancel that
 comes after the start routine has returned

---
 src/pthread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 20883e6..b205b02 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1020,6 +1020,7 @@ monitor_begin_thread(void *arg)
 {
     struct monitor_thread_node *tn = arg;
     void *ret;
+    int old_state;
 
     MONITOR_ASM_LABEL(monitor_thread_fence1);
     MONITOR_DEBUG1("\n");
@@ -1068,7 +1069,10 @@ monitor_begin_thread(void *arg)
     ret = (tn->tn_start_routine)(tn->tn_arg);
     MONITOR_ASM_LABEL(monitor_thread_fence3);
 
+    /* It's too late to cancel this thread, don't cut fini-thread short. */
+    (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
     PTHREAD_CLEANUP_POP(1);
+    (*real_pthread_setcancelstate)(old_state, NULL);
 
     MONITOR_ASM_LABEL(monitor_thread_fence4);
     return (ret);
-- 
2.43.0


From 9416f21f2fbf9297823b52be61334801326c7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:54 +0000
Subject: [PATCH 33/34] fix: a thread that runs the process end callbacks is
 not canceled there

---
 src/common.h  |  2 ++
 src/main.c    | 16 ++++++++++++++++
 src/pthread.c | 23 +++++++++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/src/common.h b/src/common.h
index 65783a3..be9e60f 100644
--- a/src/common.h
+++ b/src/common.h
@@ -172,6 +172,8 @@ void monitor_begin_process_fcn(void *, int);
 void monitor_end_process_fcn(int);
 void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
+int  monitor_disable_cancel(void);
+void monitor_restore_cancel(int);
 int  monitor_shootdown_signal(void);
 void monitor_exec_signals(int);
 int  monitor_sigwait_handler(int, siginfo_t *, void *);
diff --git a/src/main.c b/src/main.c
index 9eb2d30..97abac0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -304,6 +304,9 @@ monitor_end_process_fcn(int how)
 {
     struct monitor_thread_node *tn = monitor_get_tn();
     long prev, self;
+    int old_state;
+
+    old_state = monitor_disable_cancel();
 
     /*
      * Record the winner in the same step: a signal handler in the
@@ -364,6 +367,7 @@ monitor_end_process_fcn(int how)
 
     monitor_fini_process_done = 1;
     MONITOR_DEBUG1("resume system exit\n");
+    monitor_restore_cancel(old_state);
 }
 
 /*
@@ -804,3 +808,15 @@ monitor_thread_shootdown(void)
     MONITOR_DEBUG1("(weak)\n");
     return;
 }
+
+int __attribute__ ((weak))
+monitor_disable_cancel(void)
+{
+    return (-1);
+}
+
+void __attribute__ ((weak))
+monitor_restore_cancel(int old_state)
+{
+    return;
+}
diff --git a/src/pthread.c b/src/pthread.c
index b205b02..deb795e 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -551,6 +551,29 @@ monitor_thread_release(void)
 }
 #endif
 
+/*
+ *  Called from main.c at end process time: if the thread that runs the
+ *  end callbacks were canceled there, then the process would never end.
+ */
+int
+monitor_disable_cancel(void)
+{
+    int old_state = -1;
+
+    if (monitor_has_used_threads) {
+	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
+    }
+    return (old_state);
+}
+
+void
+monitor_restore_cancel(int old_state)
+{
+    if (monitor_has_used_threads && old_state >= 0) {
+	(*real_pthread_setcancelstate)(old_state, NULL);
+    }
+}
+
 /*
  *  Called from main.c at end process time for possible thread cleanup.
  *  Note: main doesn't know if application is threaded or not.
-- 
2.43.0


From b4d4bf40ecae08a58f440ab7f945617f873fef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:54 +0000
Subject: [PATCH 34/34] fix: system cleans up if the thread is canceled while
 it waits for the command

---
 src/common.h  |  1 +
 src/fork.c    | 35 ++++++++++++++++++++++++++++++++++-
 src/main.c    |  7 +++++++
 src/pthread.c | 20 ++++++++++++++++++++
 4 files changed, 62 insertions(+), 1 deletion(-)

diff --git a/src/common.h b/src/common.h
index be9e60f..bc73949 100644
--- a/src/common.h
+++ b/src/common.h
@@ -174,6 +174,7 @@ void monitor_end_library_fcn(void);
 void monitor_thread_shootdown(void);
 int  monitor_disable_cancel(void);
 void monitor_restore_cancel(int);
+pid_t monitor_wait_cleanup(pid_t, int *, void (*)(void *), void *);
 int  monitor_shootdown_signal(void);
 void monitor_exec_signals(int);
 int  monitor_sigwait_handler(int, siginfo_t *, void *);
diff --git a/src/fork.c b/src/fork.c
index 1279242..0955e77 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -622,9 +622,37 @@ MONITOR_WRAP_NAME(execve)(const char *path, char *const argv[],
  *  syscall for fork, thus bypassing our override.
  */
 #define SHELL  "/bin/sh"
+
+struct monitor_system_state {
+    sigset_t *old_set;
+    void *user_data;
+    pid_t pid;
+    int  callback;
+};
+
+/*
+ *  As in libc, if the thread is canceled inside system(), then kill
+ *  the command and clean up.
+ */
+static void
+monitor_system_cancel(void *arg)
+{
+    struct monitor_system_state *state = arg;
+
+    kill(state->pid, SIGKILL);
+    while (waitpid(state->pid, NULL, 0) < 0 && errno == EINTR)
+	;
+    monitor_system_restore();
+    (*real_sigprocmask)(SIG_SETMASK, state->old_set, NULL);
+    if (state->callback) {
+	monitor_post_fork(state->pid, state->user_data);
+    }
+}
+
 static int
 monitor_system(const char *command, int callback)
 {
+    struct monitor_system_state state;
     sigset_t sigchld_set, old_set;
     void *user_data = NULL;
     char *arglist[4];
@@ -682,7 +710,12 @@ monitor_system(const char *command, int callback)
     }
     else {
 	/* Parent process. */
-	while (waitpid(pid, &status, 0) < 0) {
+	state.old_set = &old_set;
+	state.user_data = user_data;
+	state.pid = pid;
+	state.callback = callback;
+	while (monitor_wait_cleanup(pid, &status, monitor_system_cancel,
+				    &state) < 0) {
 	    if (errno != EINTR) {
 		status = -1;
 		break;
diff --git a/src/main.c b/src/main.c
index 97abac0..9a46fd8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -49,6 +49,7 @@
 
 #include "config.h"
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <alloca.h>
 #ifdef MONITOR_DYNAMIC
 #include <dlfcn.h>
@@ -820,3 +821,9 @@ monitor_restore_cancel(int old_state)
 {
     return;
 }
+
+pid_t __attribute__ ((weak))
+monitor_wait_cleanup(pid_t pid, int *status, void (*cleanup)(void *), void *arg)
+{
+    return waitpid(pid, status, 0);
+}
diff --git a/src/pthread.c b/src/pthread.c
index deb795e..0b24349 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -58,6 +58,7 @@
 #include "config.h"
 #include <sys/time.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <alloca.h>
 #ifdef MONITOR_DYNAMIC
 #include <dlfcn.h>
@@ -574,6 +575,25 @@ monitor_restore_cancel(int old_state)
     }
 }
 
+/*
+ *  Called from system() in fork.c: waitpid() is a cancellation point,
+ *  so clean up if the thread is canceled there.
+ */
+pid_t
+monitor_wait_cleanup(pid_t pid, int *status, void (*cleanup)(void *), void *arg)
+{
+    pid_t ret;
+
+    if (! monitor_has_used_threads) {
+	return waitpid(pid, status, 0);
+    }
+    PTHREAD_CLEANUP_PUSH(cleanup, arg);
+    ret = waitpid(pid, status, 0);
+    PTHREAD_CLEANUP_POP(0);
+
+    return (ret);
+}
+
 /*
  *  Called from main.c at end process time for possible thread cleanup.
  *  Note: main doesn't know if application is threaded or not.
-- 
2.43.0

