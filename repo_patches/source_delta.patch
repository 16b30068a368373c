From d77a4f5460f8256eb73d9364cfa9082c6fb89171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 01/50] fix: exit event of a fiber stays set so that every exit
 callback and joiner is told

---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..338680c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -333,7 +333,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -342,9 +342,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 2d4520bdc3bc41cf26f509029f260fe45c1cf389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 02/50] fix: release the lock before waking readers when a
 fiber write lock is released

---
 include/kfiber_sync.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..2992ca9 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -195,13 +195,12 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* next = waiter; next; next = next->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
+		/* a woken reader of this selector runs at once and may unlock, so do not hold the lock */
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From 748d80c806d81d59febfe1f92c4a87f85d4a6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 03/50] fix: event objects keep waiting after a spurious wakeup
 and manual-reset ones stay set

---
 include/ksync.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..f4acf90 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,12 +55,9 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	if (cond->ev) {
-		cond->ev = false;
-		kmutex_unlock(&cond->mutex);
-		return;
+	while (!cond->ev) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
 		cond->ev = false;
 	}
@@ -73,7 +70,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
-- 
2.43.0


From f845a47cc3833e60d5cc952fc6d0f6bdb48a4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 04/50] fix: timers of kasync_main's own event loop follow a
 backward step of the clock

---
 src/kselector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..ffc6258 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -139,6 +139,11 @@ void kselector_update_time()
 		if (unlikely(tv.tv_sec < kgl_current_sec)) {
 			int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
 			selector_manager_adjust_time(diff_msec);
+			kselector* selector = kgl_get_tls_selector();
+			if (selector && selector->aysnc_main) {
+				/* not one of the selector manager's */
+				kselector_adjust_time(selector, diff_msec);
+			}
 		}		
 		kgl_current_sec = tv.tv_sec;
 		if (kgl_second_change_hook) {
-- 
2.43.0


From 8b6e3f058d2b958f2374629ff3da3fd5c9380044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 05/50] fix: a tick callback may close another tick of its
 event loop

---
 src/kselector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kselector.c b/src/kselector.c
index ffc6258..ce1bb7e 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -156,6 +156,7 @@ void kselector_update_time()
 int kselector_check_timeout(kselector *selector,int event_number)
 {
 	kgl_list* tick_list,*tick_next_list;
+	kgl_list tick_place;
 	kselector_tick* tick;
 	struct krb_node *block = NULL;
 	struct krb_node *last = NULL;
@@ -276,11 +277,14 @@ int kselector_check_timeout(kselector *selector,int event_number)
 	while (tick_list != &selector->tick) {
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
 		tick_next_list = tick_list->next;
+		/* the callback may close any tick, a place holder keeps where to go on */
+		klist_insert(tick_next_list, &tick_place);
 		int next_event_time = tick->cb(tick->arg, event_number);
 		if (next_event_time > 0 && next_event_time < min_event_time) {
 			min_event_time = next_event_time;
 		}
-		tick_list = tick_next_list;
+		tick_list = tick_place.next;
+		klist_remove(&tick_place);
 	}
 	return min_event_time;
 }
-- 
2.43.0


From 60892c4b6378ff4c8d24a2ac7294d2d5146ac994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 06/50] fix: kfiber_net_writev_full counts empty buffers as
 written

---
 include/kfiber.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..485f77f 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -211,6 +211,11 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
 	while (*bc > 0) {
+		if (buf->iov_len == 0) {
+			buf++;
+			(*bc)--;
+			continue;
+		}
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
-- 
2.43.0


From 128cbf23fd0334ff2f9193e491b125aa93f2394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 07/50] fix: a hang-up watch started after the hang-up was seen
 is reported

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..db2e85d 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -269,6 +269,10 @@ static bool epoll_selector_readhup(kselector *selector, kselectable *st, result_
 			return false;
 		}
 	}
+	if (KBIT_TEST(st->base.st_flags,STF_ERR)) {
+		//the peer's hang-up event(edge triggered) has been consumed
+		kselector_add_list(selector,st,KGL_LIST_READY);
+	}
 	return true;
 #else
 	return false;
-- 
2.43.0


From 106582536d771f07ad444efe95b5e651ac53dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 08/50] fix: a read after a read time-out uses its own buffers

---
 include/kfiber.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 485f77f..076658d 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -261,6 +261,7 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From adc97aea0c3fe700400c7d01cb77b7b907bf21c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 09/50] fix: every read time-out lasts the connection's full
 time-out, not only the first

---
 src/kselector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselector.c b/src/kselector.c
index ce1bb7e..c873344 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -195,6 +195,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				//set read time out
 				klist_append(&selector->list[i], l);
 				st->active_msec = kgl_current_msec;
+				st->base.tmo_left = st->base.tmo;
 				kassert(st->e[OP_READ].result);
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
-- 
2.43.0


From 9df206b88e2f9580bc089812cdc34963adf5f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 10/50] fix: a connect that times out reports an error

---
 src/kepoll_selector.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index db2e85d..bd3db37 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -379,9 +379,10 @@ static int epoll_selector_select(kselector *selector,int tmo) {
 #ifndef NDEBUG
 		//klog(KLOG_DEBUG,"event happened st=[%p] ev=[%d]\n",st,ev);
 #endif
-		//if (KBIT_TEST(ev, EPOLLHUP | EPOLLERR)) {
-		//	KBIT_SET(st->base.st_flags, STF_ERR);
-		//}
+		//a connect ended by shutdown(time out) reports EPOLLERR without EPOLLRDHUP
+		if (KBIT_TEST(ev, EPOLLERR)) {
+			KBIT_SET(st->base.st_flags, STF_ERR);
+		}
 #ifdef EPOLLRDHUP
 		if (KBIT_TEST(ev,EPOLLRDHUP|EPOLLIN)==(EPOLLRDHUP|EPOLLIN)) {
 			KBIT_SET(st->base.st_flags, STF_ERR);
-- 
2.43.0


From 494e44b4d2b7eca65ea2d4510bc5cd29732f439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 11/50] fix: a closing server does not shut down a socket that
 its event loop has just closed

---
 src/kserver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..fb95c64 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -351,17 +351,18 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
-	if (ksocket_opened(ss->st.fd)) {
-		ksocket_close(ss->st.fd);
-		ksocket_init(ss->st.fd);
-	}
 	assert(ss->server);
+	/* kserver_close may shutdown every socket in the list, so leave the list before close the socket */
 	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
 	}
 	kmutex_unlock(&ss->server->ss_lock);
+	if (ksocket_opened(ss->st.fd)) {
+		ksocket_close(ss->st.fd);
+		ksocket_init(ss->st.fd);
+	}
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	if(katom_get((void *)&ss->hold_by_next_shutdown_refs)>0) {
 		//hold by next_shutdown
-- 
2.43.0


From 882935eb291292ae97f85544bfb62a43a30d2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 12/50] fix: accepting on a local socket copies an address of
 the right size

---
 include/kserver.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..8af69f6 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,15 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	/* kconnection_new copies a whole sockaddr_un for a local socket */
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
-- 
2.43.0


From 6dfa9165c2ab358161e66cbd87da1c9788d5fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 13/50] fix: a read that is ready by itself on an unwatched
 connection does not stay marked as waiting

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..e2caaba 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -460,7 +460,7 @@ kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
 	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	if (KBIT_TEST(st->base.st_flags, STF_ET|STF_RREADY2))
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From fb04f8736749a9080a0addf3f5e87594d57e9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 14/50] fix: a TLS read that waits for more early data is not
 the end of the stream

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index e2caaba..becf5a2 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -84,7 +84,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return got > 0 ? got : -1;
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From 998ef4e2814347d0327a47e3a88a17098dadacf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 15/50] fix: shutting down a TLS connection keeps its opaque
 data, other fibers may wait with it

---
 src/kfiber.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 338680c..d53a4f7 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -516,10 +516,9 @@ int kfiber_ssl_shutdown(kconnection * c) {
 		if (c->st.base.selector != NULL) {
 			kfiber* fiber = kfiber_self(&c->st.base);
 			CHECK_FIBER(fiber);
-			c->st.data = NULL;
 			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR)) {
 				fiber->arg = &c->st;
-				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), NULL);
+				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), c->st.data);
 			}
 		}
 		c->st.ssl->shutdown = 1;
-- 
2.43.0


From 52a910948162eb6a4f50938a012276fd74661944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 16/50] fix: shutting down a TLS connection does not disturb a
 write that waits for room

---
 src/kfiber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index d53a4f7..72dae1b 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -516,7 +516,8 @@ int kfiber_ssl_shutdown(kconnection * c) {
 		if (c->st.base.selector != NULL) {
 			kfiber* fiber = kfiber_self(&c->st.base);
 			CHECK_FIBER(fiber);
-			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR)) {
+			/* a write that waits for room leaves no room for the closing alert */
+			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR | STF_WRITE)) {
 				fiber->arg = &c->st;
 				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), c->st.data);
 			}
-- 
2.43.0


From 999303b7c1bf5041cfdb345aede6a1adb1c0ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 17/50] fix: a direct read at the end of a file returns 0 and a
 failed one its error

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..acb5230 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		/* end of the file */
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 05ee7bf7a0788ce6eb708f9079950ee9be45bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 18/50] fix: a connection whose registration with epoll failed
 is not marked as registered

---
 src/kepoll_selector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index bd3db37..3c22794 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -125,6 +125,7 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From b4e956af4771c189e853ed0e02ac426291b67962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 19/50] fix: a waiting read of a datagram connection ends when
 the connection is shut down or times out

---
 src/kselectable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index becf5a2..565eeb8 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -189,6 +189,10 @@ static inline kev_result selectable_udp_read_event(kselectable* st, result_callb
 	switch(errno) {
 	case EAGAIN:
 	case EINTR:
+		if (KBIT_TEST(st->base.st_flags, STF_ERR)) {
+			/* shut down: no event will come any more */
+			return result(st->data, arg, ST_ERR_RESULT);
+		}
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		return kgl_selector_module.read(st->base.selector, st, result, buffer, arg);
 	case ENOMEM:
-- 
2.43.0


From 53958c100f7a9e38e041c2f71457e138166a7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 20/50] fix: a work queue survives a failure to create its
 thread and reports a request nobody will run

---
 src/kasync_worker.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..404d788 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -85,7 +85,7 @@ bool kasync_worker_thread_start(void *param, kasync_worker_callback cb)
 	xfree(p);
 	return false;
 }
-static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
+static bool kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
 {
 	worker->queue++;
 	if (worker->last == NULL) {
@@ -104,15 +104,23 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 		}
 	}
 	if (worker->worker >= worker->max_worker) {
-		return;
+		return true;
 	}
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
+		if (worker->worker == 0) {
+			//no thread will ever take this (only) request
+			kassert(worker->head == rq && worker->last == rq);
+			worker->head = NULL;
+			worker->last = NULL;
+			worker->queue--;
+			return false;
+		}
 	}
-	return;
+	return true;
 }
 bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_callback cb, bool high)
 {
@@ -128,9 +136,12 @@ bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_ca
 	rq->data = data;
 	rq->next = NULL;
 	rq->wait = NULL;
-	kasync_worker_add(worker,rq, high);
+	bool result = kasync_worker_add(worker,rq, high);
 	kmutex_unlock(&worker->lock);
-	return true;
+	if (!result) {
+		kasync_worker_param_destroy(rq);
+	}
+	return result;
 }
 bool kasync_worker_empty(kasync_worker *worker)
 {
@@ -152,8 +163,13 @@ void kasync_worker_start(kasync_worker *worker, void *data, kasync_worker_callba
 		wait = kcond_init(true);
 	}
 	rq->wait = wait;
-	kasync_worker_add(worker, rq, false);
+	bool result = kasync_worker_add(worker, rq, false);
 	kmutex_unlock(&worker->lock);
+	if (!result) {
+		//no thread, run it here
+		kasync_worker_param_destroy(rq);
+		cb(data, 1);
+	}
 	if (wait != NULL) {
 		kcond_wait(wait);
 		kcond_destroy(wait);
-- 
2.43.0


From f1fa13f7f8410b71eab05b65a20c749f0aa6929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 21/50] fix: the address of a lookup stays alive until everyone
 waiting for it was told

---
 src/kaddr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..6fe0659 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -229,9 +229,14 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	kgl_addr *addr2 = NULL;
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
+		//the node may be flushed before all is told
+		kgl_addr_refs(addr2);
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 5d2cc1939863afb27d21797895f8518dc19b4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 22/50] fix: a cached name flushed and asked again during its
 refresh is not removed twice

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 6fe0659..8ed2fba 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -150,6 +150,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//flushed and asked again: the pending lookup will bring the answer
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 53846422793a84aec1615681700278514863d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 23/50] fix: a cname lookup asks for the canonical name only

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 8ed2fba..c90c53c 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From ca686e5b17fb0f902f37417de9413e5908265486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 24/50] fix: filling a socket address does not write into the
 shared lookup result

---
 src/ksocket.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..5218bb6 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -268,15 +268,16 @@ SOCKET ksocket_accept(SOCKET s, sockaddr_i* addr, bool no_block) {
 #endif
 }
 void ksocket_addrinfo_sockaddr(struct addrinfo* ai, uint16_t port, sockaddr_i* addr) {
+	//ai may be shared by threads, do not change it
+	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
+	kgl_memcpy(addr, ai->ai_addr, copy_len);
 	addr->v4.sin_family = ai->ai_family;
 #ifdef KSOCKET_IPV6
 	if (ai->ai_family == PF_INET6) {
-		((struct sockaddr_in6*)ai->ai_addr)->sin6_port = htons(port);
+		addr->v6.sin6_port = htons(port);
 	} else
 #endif
-		((struct sockaddr_in*)ai->ai_addr)->sin_port = htons(port);
-	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
-	kgl_memcpy(addr, ai->ai_addr, copy_len);
+		addr->v4.sin_port = htons(port);
 }
 bool ksocket_getaddr(const char* host, uint16_t port, int ai_family, int ai_flags, sockaddr_i* addr) {
 	struct addrinfo* res;
-- 
2.43.0


From 553b67712e1b6da954bdc99be666dd5fa3a3c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 25/50] fix: a new kasync_main on the same thread does not use
 the freed main fiber of the last

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 72dae1b..e55b3b5 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From 261195b65948bf7071482acf88eb0dc6044818fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 26/50] fix: destroying an event loop gives back its aio
 descriptors and its pending timers

---
 src/kepoll_selector.c |  3 +++
 src/kselector.c       | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 3c22794..e316ea8 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -170,8 +170,11 @@ static void epoll_selector_init(kselector *selector)
 static void epoll_selector_destroy(kselector *selector)
 {
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
+	io_destroy(es->aio_st.aio_ctx);
 	close(es->kdpfd);
+	close(es->aio_st.st.fd);
 	close(es->notice_st.st.fd);
+	kmutex_destroy(&es->notice_st.lock);
 	xfree(es);
 }
 
diff --git a/src/kselector.c b/src/kselector.c
index c873344..713e44b 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -81,6 +81,19 @@ static INLINE struct krb_node *kgl_insert_block_queue(struct krb_root *root, kgl
 }
 void kselector_destroy(kselector *selector)
 {
+	while (selector->block_first) {
+		//timers nobody waits for any more
+		struct krb_node *node = selector->block_first;
+		kgl_block_queue *brq = (kgl_block_queue *)node->data;
+		while (brq) {
+			kgl_block_queue *next = brq->next;
+			xfree(brq);
+			brq = next;
+		}
+		selector->block_first = rb_next(node);
+		rb_erase(node, &selector->block);
+		xfree(node);
+	}
 	kgl_selector_module.destroy(selector);
 	xfree(selector);
 }
-- 
2.43.0


From dca49184446965c7d5a3837746603da3db3950da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 27/50] fix: kasync_main lets the main fiber exit when a tick
 ended it

---
 src/kselector_manager.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..dbda487 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -392,8 +392,11 @@ int kasync_main(kfiber_start_func main, void* arg, int argc)
 	for (;;) {
 		tmo = kselector_check_timeout(selector, kgl_selector_module.select(selector, tmo));
 		if (selector->closed) {
-			assert(klist_empty(&selector->list[KGL_LIST_READY]));
-			break;
+			if (klist_empty(&selector->list[KGL_LIST_READY])) {
+				break;
+			}
+			//a tick ended the main fiber, let it exit
+			tmo = 0;
 		}
 	}
 	int ret_val = selector->ret_val;
-- 
2.43.0


From 3e15fb71180c73451e6da3d0361d68e1e509bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 28/50] fix: event loops added later get the configured
 time-outs

---
 src/kselector_manager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index dbda487..50cb563 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -259,6 +259,7 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		kgl_memcpy(kgl_selectors[i]->timeout, kgl_selectors[0]->timeout, sizeof(kgl_selectors[i]->timeout));
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From 22410ae325050f86dea09ab9f54830f16dda7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 29/50] fix: inserting in front of a partly read buffer does
 not bring read bytes back

---
 src/kbuf.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..82d5ad5 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,6 +36,15 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
+	int readed = (int)(rw_buffer->read_hot - rw_buffer->head->data);
+	if (readed > 0) {
+		//the head is no longer the read hot, keep only what is not read
+		rw_buffer->head->used -= readed;
+		memmove(rw_buffer->head->data, rw_buffer->read_hot, rw_buffer->head->used);
+		if (rw_buffer->head == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot -= readed;
+		}
+	}
 	buf->next = rw_buffer->head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
-- 
2.43.0


From ab420fe27c69987519c97af12d610da3f9309f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 30/50] fix: an empty chunk in a buffer chain does not hide or
 fake data

---
 src/kbuf.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index 82d5ad5..4789109 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -81,13 +81,19 @@ kbuf* krw_newbuff(int chunk_size) {
 	return buf;
 }
 int krw_get_read_buffers(krw_buffer* rw_buffer, LPWSABUF buffer, int buffer_count) {
-	if (rw_buffer->read_hot == NULL) {
+	if (rw_buffer->total_len == 0) {
 		return 0;
 	}
 	kassert(rw_buffer->head);
 	kbuf* tmp = rw_buffer->head;
-	buffer[0].iov_base = rw_buffer->read_hot;
-	buffer[0].iov_len = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
+	char* hot = rw_buffer->read_hot;
+	while (tmp->used == hot - tmp->data) {
+		//skip empty chunk
+		tmp = tmp->next;
+		hot = tmp->data;
+	}
+	buffer[0].iov_base = hot;
+	buffer[0].iov_len = (int)(tmp->used - (hot - tmp->data));
 	int i;
 	for (i = 1; i < buffer_count; i++) {
 		tmp = tmp->next;
@@ -110,26 +116,26 @@ char* krw_get_read_buffer(krw_buffer* rw_buffer, int* len) {
 }
 bool krw_read_success(krw_buffer* rw_buffer, int got) {
 	kassert(rw_buffer->read_hot && rw_buffer->head);
-	while (got > 0) {
+	for (;;) {
 		int hot_left = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
 		int this_len = KGL_MIN(got, hot_left);
 		rw_buffer->read_hot += this_len;
 		got -= this_len;
 		rw_buffer->total_len -= this_len;
-		if (rw_buffer->head->used == rw_buffer->read_hot - rw_buffer->head->data) {
-			kbuf* next = rw_buffer->head->next;
-			xfree(rw_buffer->head->data);
-			xfree(rw_buffer->head);
-			rw_buffer->head = next;
-			if (rw_buffer->head == NULL) {
-				kassert(rw_buffer->total_len == 0);
-				krw_buffer_init(rw_buffer, rw_buffer->chunk_size);
-				return false;
-			}
-			rw_buffer->read_hot = rw_buffer->head->data;
+		if (rw_buffer->head->used != rw_buffer->read_hot - rw_buffer->head->data) {
+			return true;
 		}
+		kbuf* next = rw_buffer->head->next;
+		xfree(rw_buffer->head->data);
+		xfree(rw_buffer->head);
+		rw_buffer->head = next;
+		if (rw_buffer->head == NULL) {
+			kassert(rw_buffer->total_len == 0);
+			krw_buffer_init(rw_buffer, rw_buffer->chunk_size);
+			return false;
+		}
+		rw_buffer->read_hot = rw_buffer->head->data;
 	}
-	return true;
 }
 char* krw_get_write_buffer(krw_buffer* rw_buffer, int* len) {
 	if (rw_buffer->write_hot_buf == NULL) {
-- 
2.43.0


From 0efdd66fb14a78c2aa227a2bfeed39d2a4a327e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 31/50] fix: an array made for no elements can grow

---
 src/kmalloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..a954836 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -286,14 +286,16 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			size_t nalloc = 2 * (a->nalloc > 0 ? a->nalloc : 1);
+
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From 81f7e8be727321fcb6394859b3843fd209310b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 32/50] fix: rbtree_int_cmp orders integers that are far apart

---
 src/krbtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..e173962 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,7 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 52f4029ea885d429601d24fa693454c060a1dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 33/50] fix: equal addresses have equal hashes

---
 include/ksocket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..9bcd061 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -115,6 +115,9 @@ struct ip_addr_s {
 	}
 	unsigned get_hash()
 	{
+		if (sin_family == PF_INET) {
+			return addr32[0];
+		}
 		unsigned h = 0;
 		for (int i = 0; i < 4; i++) {
 			h ^= addr32[i];
-- 
2.43.0


From 614b916aba6cda5cf595c1381e4291598e748943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 34/50] fix: comparing addresses does not overflow

---
 include/ksocket.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 9bcd061..c30afb0 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -154,7 +154,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return (a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr) - (a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr);
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -194,11 +194,11 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return (a->addr32[0] > b->addr32[0]) - (a->addr32[0] < b->addr32[0]);
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-	return (int)*a - (int)*b;
+	return (*a > *b) - (*a < *b);
 #endif
 }
 INLINE int ksocket_addr_len(const sockaddr_i *addr) {
-- 
2.43.0


From 1aae215c5490ce2200599b48959e934d229a1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 35/50] fix: ksocket_is_block tells blocking sockets

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index c30afb0..64f4bc1 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -270,7 +270,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From 0122207bcdeec84fd5b4abc90fdf459ad06d30fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 36/50] fix: a unix socket path that does not fit is refused

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index fb95c64..b683587 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -221,7 +221,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip, &server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index 5218bb6..51a9ac8 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -240,6 +240,10 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 }
 #ifdef KSOCKET_UNIX	
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
+	if (strlen(path) >= sizeof(addr->sun_path)) {
+		errno = ENAMETOOLONG;
+		return -1;
+	}
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
 	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
-- 
2.43.0


From 6bba2d99746f9f51829d646159014c2bbe5352f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 37/50] fix: waiting for a socket works with any descriptor
 number

---
 src/ksocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 51a9ac8..68f81fd 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -312,7 +312,7 @@ bool wait_socket_event(SOCKET sockfd, bool is_write, int tmo) {
 	if (tmo <= 0) {
 		return true;
 	}
-#ifdef HAVE_POLL
+#ifndef _WIN32
 	struct pollfd poll_list;
 	poll_list.fd = sockfd;
 	if (is_write) {
-- 
2.43.0


From d0c210dd1ddc97ed9a2f5f1fbe100615974a57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 38/50] fix: an earlier TLS failure on the thread was taken for
 a failure of the next TLS operation

---
 src/kconnection.c | 1 +
 src/kgl_ssl.c     | 2 ++
 src/kselectable.c | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..6e83001 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -153,6 +153,7 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
+		ERR_clear_error();
 		int n = SSL_read_early_data(ssl->ssl, &buf, 1, &readbytes);
 		//printf("sh=[%p %p] SSL_read_early_data=[%d]\n", sh,ssl->ssl,n);
 		if (n == SSL_READ_EARLY_DATA_FINISH) {
diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..593c3f8 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -804,6 +804,7 @@ kssl_status kgl_ssl_handshake_status(SSL* ssl, int re) {
 	}
 }
 kssl_status kgl_ssl_handshake(SSL* ssl) {
+	ERR_clear_error();
 	int re = SSL_do_handshake(ssl);
 	if (re <= 0) {
 		return kgl_ssl_handshake_status(ssl, re);
@@ -818,6 +819,7 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
diff --git a/src/kselectable.c b/src/kselectable.c
index 565eeb8..a07d94f 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -21,6 +21,8 @@
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
 	int got = 0;
+	/* SSL_get_error looks at the error queue of the thread */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -62,6 +64,7 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -306,6 +309,7 @@ static inline kev_result selectable_event_sendfile(kselectable* st, result_callb
 	if (st->ssl) {
 		assert(kgl_ssl_support_sendfile(st->ssl));
 #if defined(BIO_get_ktls_send)
+		ERR_clear_error();
 		got = SSL_sendfile(st->ssl->ssl, file->st.fd, offset, buffer->iov_len, 0);
 		if (got >= 0) {
 			return result(st->data, arg, got);
-- 
2.43.0


From e8abccb1b15ea4912190c0eacc00ba523a724a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 39/50] fix: with TLS over memory buffers a short read or write
 forgot that the socket was still ready

---
 src/kselectable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index a07d94f..e8434ea 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -391,7 +391,9 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
+#ifndef ENABLE_KSSL_BIO
 		KBIT_CLR(st->base.st_flags, STF_WREADY);
+#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
 #ifdef ENABLE_KSSL_BIO
@@ -445,7 +447,9 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
+#ifndef ENABLE_KSSL_BIO
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
+#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From 830691fd54a2d09977ec3692ce74ceeeaefc5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 40/50] fix: with TLS over memory buffers the closing alert was
 not sent

---
 src/kconnection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kconnection.c b/src/kconnection.c
index 6e83001..63ac475 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -125,9 +125,13 @@ kev_result kselectable_ssl_shutdown(kselectable* st, result_callback cb, void* a
 	kassert(ksocket_opened(st->fd));
 	kssl_status status = kgl_ssl_shutdown(st->ssl->ssl);
 #ifdef ENABLE_KSSL_BIO
-	if (status != ret_error && BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
+	if (BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
+		/* the closing alert */
 		return selectable_write(st, cb, NULL, arg);
 	}
+	if (KBIT_TEST(SSL_get_shutdown(st->ssl->ssl), SSL_SENT_SHUTDOWN)) {
+		return cb(st->data, arg, 1);
+	}
 #endif
 	switch (status) {
 	case SSL_ERROR_WANT_READ:
-- 
2.43.0


From b492aa5f58426df5e2109a9c4a698482a8620aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 41/50] fix: with TLS over memory buffers the answer to early
 data was not sent

---
 src/kconnection.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 63ac475..476c9b4 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -154,6 +154,12 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	kassert(ssl);
 	kssl_status status;
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
+#ifdef ENABLE_KSSL_BIO
+	if (ssl->in_early) {
+		/* the answer to the client's first flight is sent */
+		return cb(st->data, arg, 1);
+	}
+#endif
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
@@ -171,6 +177,11 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 			ssl->in_early = 1;
 			ssl->early_preread = 1;
 			//printf("read early data buf=[%c] arg=[%p]\n",buf,sh->arg);
+#ifdef ENABLE_KSSL_BIO
+			if (BIO_pending(ssl->bio[OP_WRITE].bio) > 0) {
+				return selectable_write(st, cb, NULL, arg);
+			}
+#endif
 			return cb(st->data, arg, 1); 
 		}
 		status = kgl_ssl_handshake_status(ssl->ssl, n);
-- 
2.43.0


From 19efbb5791e6345bd1936dcf4fb0253cf92e09e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 42/50] fix: every TLS server context leaked its certificate

---
 src/kgl_ssl.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 593c3f8..a965619 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -629,14 +629,8 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	/* the context has its own reference */
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From 05255068b8c5d1cfa2310c5212d6f1365dda8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 43/50] fix: a TLS server context with the certificate beside
 the key crashed

---
 src/kgl_ssl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index a965619..7d4fe54 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -747,6 +747,10 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		fprintf(stderr, "cann't init_ctx\n");
 		return NULL;
 	}
+	if (!cert_buffer || *cert_buffer->data == '\0') {
+		/* the certificate is beside the key */
+		cert_buffer = key_buffer;
+	}
 	if (kgl_ssl_certificate(ctx, cert_buffer, key_buffer, NULL) != 0) {
 		SSL_CTX_free(ctx);
 		return NULL;
-- 
2.43.0


From e56b2caa7ca22688ce4ae6807f5220fe1a37f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 44/50] fix: a fiber event already set gave its waiters an
 unrelated value instead of the notice's

A wait, try-wait or callback wait that found the event set returned the
fiber's last result (or 0) as the value of the notice. kfiber_join2 on a
fiber that had ended told the callback 0 instead of the fiber's result.
---
 include/kfiber_internal.h |  1 +
 src/kfiber_sync.c         | 34 ++++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/kfiber_internal.h b/include/kfiber_internal.h
index 4e4890d..58c9db1 100644
--- a/include/kfiber_internal.h
+++ b/include/kfiber_internal.h
@@ -100,6 +100,7 @@ struct _kfiber_cond {
 	kfiber_cond_function* f;
 	kfiber_waiter* waiter;
 	volatile int32_t ev;
+	int got;//the value of the last notice nobody waited for
 };
 typedef struct _kfiber_event_waiter {
 	kgl_base_selectable base;
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..3928eb4 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -38,7 +38,7 @@ kev_result kfiber_cond_wait_callback_ar(kfiber_cond* fc, KOPAQUE data, result_ca
 {
 	if (fc->ev>0) {
 		fc->ev--;
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fc->got);
 		return kev_ok;
 
 	}
@@ -48,7 +48,7 @@ kev_result kfiber_cond_wait_callback_ar(kfiber_cond* fc, KOPAQUE data, result_ca
 kev_result kfiber_cond_wait_callback(kfiber_cond * fc, KOPAQUE data, result_callback notice, void* arg)
 {
 	if (fc->ev>0) {
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fc->got);
 		return kev_ok;		
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -60,8 +60,9 @@ kev_result kfiber_cond_wait_callback_ts_ar(kfiber_cond* fc, KOPAQUE data, result
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		fc->ev--;
+		int got = fc->got;
 		kmutex_unlock(&fcs->lock);
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
 		return kev_ok;
 
 	}
@@ -74,8 +75,9 @@ kev_result kfiber_cond_wait_callback_ts(kfiber_cond* fc, KOPAQUE data, result_ca
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
+		int got = fc->got;
 		kmutex_unlock(&fcs->lock);
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
 		return kev_ok;
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -92,6 +94,7 @@ int kfiber_cond_notice_ts_ar(kfiber_cond* fc,int got)
 		kmutex_unlock(&fcs->lock);
 		kfiber_wakeup_waiter(waiter,got);
 	} else {
+		fc->got = got;
 		fc->ev++;
 		kmutex_unlock(&fcs->lock);
 	}
@@ -104,6 +107,7 @@ int kfiber_cond_notice_ar(kfiber_cond* fc,int got)
 		fc->waiter = waiter->next;
 		kfiber_wakeup_waiter(waiter,got);
 	} else {
+		fc->got = got;
 		fc->ev++;
 	}
 	return 0;
@@ -112,6 +116,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 {
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
+	fc->got = got;
 	fc->ev = 1;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
@@ -122,6 +127,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 
 int kfiber_cond_notice(kfiber_cond* fc,int got)
 {
+	fc->got = got;
 	fc->ev = 1;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
@@ -136,10 +142,10 @@ int kfiber_cond_wait_ts_ar(kfiber_cond* fc, int *got)
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		fc->ev--;
-		kmutex_unlock(&fcs->lock);
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
+		kmutex_unlock(&fcs->lock);
 		return 0;
 	}
 	kfiber_add_waiter(&fc->waiter, fiber, fc);// kgl_get_tls_selector(), & fiber, result_switch_fiber, fiber);
@@ -157,10 +163,10 @@ int kfiber_cond_try_wait_ts_ar(kfiber_cond* fc, int* got) {
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		fc->ev--;
-		kmutex_unlock(&fcs->lock);
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
+		kmutex_unlock(&fcs->lock);
 		return 0;
 	}
 	kmutex_unlock(&fcs->lock);
@@ -172,7 +178,7 @@ int kfiber_cond_try_wait_ar(kfiber_cond* fc, int* got) {
 	if (fc->ev > 0) {
 		fc->ev--;
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -185,7 +191,7 @@ int kfiber_cond_wait_ar(kfiber_cond* fc, int *got)
 	if (fc->ev > 0) {
 		fc->ev--;
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -204,7 +210,7 @@ int kfiber_cond_wait_ts(kfiber_cond* fc, int *got)
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -225,7 +231,7 @@ int kfiber_cond_try_wait_ts(kfiber_cond* fc, int* got) {
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -267,7 +273,7 @@ int kfiber_cond_wait(kfiber_cond* fc, int *got)
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -283,7 +289,7 @@ int kfiber_cond_try_wait(kfiber_cond* fc, int* got) {
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
-- 
2.43.0


From 1a00874ab59872bd332ec846f61e3abd0971fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 45/50] fix: changing a fiber mutex's limit lost the waiters it
 lets in, or let too many in

A raised limit left waiting fibers waiting although there was room, and
below a lowered limit every release still let the next waiter in.
---
 include/kfiber_sync.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 2992ca9..499d1e8 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -74,9 +74,19 @@ INLINE void kfiber_mutex_set_limit(kfiber_mutex* mutex, int limit) {
 	if (limit < 1) {
 		limit = 1;
 	}
+	kfiber_waiter* admitted = NULL;
 	kmutex_lock(&mutex->lock);
 	mutex->limit = limit;
+	while (mutex->worker < limit && mutex->waiter) {
+		/* a waiter the new limit lets in */
+		kfiber_waiter* waiter = mutex->waiter;
+		mutex->waiter = waiter->next;
+		waiter->next = admitted;
+		admitted = waiter;
+		mutex->worker++;
+	}
 	kmutex_unlock(&mutex->lock);
+	kfiber_wakeup_all_waiter(admitted, 0);
 }
 INLINE int kfiber_mutex_get_worker(kfiber_mutex* mutex) {
 	int worker;
@@ -110,7 +120,7 @@ INLINE int kfiber_mutex_unlock(kfiber_mutex* mutex) {
 	assert(mutex->count > 0);
 	mutex->count--;
 	kfiber_waiter* waiter = mutex->waiter;
-	if (waiter == NULL) {
+	if (waiter == NULL || mutex->worker > mutex->limit) {
 		assert(mutex->worker > 0);
 		mutex->worker--;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 7ff24e7d9c68e8042c5b9dffefb88c863699a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 46/50] fix: replacing the TLS context of a server that is
 closed at once used freed memory

The notice sent to a listening socket's event loop could arrive after
that socket was destroyed.
---
 src/kserver.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index b683587..983c4f0 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -15,6 +15,7 @@
 
 #ifdef KSOCKET_SSL
 typedef struct {
+	kserver *server;
 	kserver_selectable *ss;
 	kgl_ssl_ctx *ssl_ctx;
 } kserver_update_ssl_ctx_param;
@@ -433,7 +434,24 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
 	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	//the server may have been closed meanwhile, ss is only destroyed by this selector
+	bool alive = false;
+	kgl_list *pos;
+	kmutex_lock(&param->server->ss_lock);
+	klist_foreach(pos, &param->server->ss) {
+		kserver_selectable *ss = kgl_list_data(pos, kserver_selectable, queue);
+		if (ss == param->ss && ss->st.base.selector == kgl_get_tls_selector()) {
+			alive = true;
+			break;
+		}
+	}
+	kmutex_unlock(&param->server->ss_lock);
+	if (alive) {
+		kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	} else if (param->ssl_ctx) {
+		kgl_release_ssl_ctx(param->ssl_ctx);
+	}
+	kserver_release(param->server);
 	xfree(param);
 	return kev_ok;
 }
@@ -458,6 +476,8 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
 		} else {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
+			kserver_refs(server);
+			param->server = server;
 			param->ss = ss;
 			param->ssl_ctx = ssl_ctx;
 			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
-- 
2.43.0


From f9223e3a1d50402cfa9fdde9aa3596549d8d8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:32 +0000
Subject: [PATCH 47/50] fix: a call asked for with selectable_next_write on a
 hung-up connection left it unable to write

selectable_write_event reported the error of a connection whose peer hung up
without clearing STF_WREADY2, so the next write on it aborted in
selectable_write (and a later readiness event was taken for it).
---
 src/kselectable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index e8434ea..61cf39a 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -496,6 +496,7 @@ kev_result selectable_write_event(kselectable* st)
 #endif
 	KBIT_CLR(st->base.st_flags, STF_WRITE | STF_RDHUP);
 	if (KBIT_TEST(st->base.st_flags, STF_ERR) > 0) {
+		KBIT_CLR(st->base.st_flags, STF_WREADY2);
 		return st->e[OP_WRITE].result(st->data, st->e[OP_WRITE].arg, -1);
 	}
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From b990c415eebcfe05ed761166ff70fc8ea197cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:15 +0000
Subject: [PATCH 48/50] fix: a read or write after the end of a TLS connection
 waited for ever

The ready flag was cleared before the error was looked at, so once the end or
a failure had been reported without a further event to come (end of the TCP
stream without closing alert, altered record) the next call never returned.
With ENABLE_KSSL_BIO the end is noted at the read BIO.
---
 src/kselectable.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 61cf39a..482d679 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -219,9 +219,9 @@ static kev_result selectable_ssl_read(kselectable* st, result_callback result, b
 	ssl_bio->st = st;
 	kassert(result != result_ssl_bio_read);
 	kassert(arg != ssl_bio);
-	if (BIO_pending(ssl_bio->bio) > 0) {
+	if (BIO_pending(ssl_bio->bio) > 0 || BIO_get_shutdown(ssl_bio->bio)) {
 		kassert(!KBIT_TEST(st->base.st_flags, STF_READ));
-		//ssl still have data to read
+		//ssl still have data to read, or its end
 		st->e[OP_READ].arg = arg;
 		st->e[OP_READ].result = result;
 		st->e[OP_READ].buffer = buffer;
@@ -391,14 +391,12 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
-#ifndef ENABLE_KSSL_BIO
-		KBIT_CLR(st->base.st_flags, STF_WREADY);
-#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_write(st, result, buffer, arg);
 #else
+			KBIT_CLR(st->base.st_flags, STF_WREADY);
 			return kgl_selector_module.write(st->base.selector, st, result, buffer, arg);
 #endif
 		}
@@ -441,20 +439,24 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 #endif
 		got = kgl_readv(st->fd, (kgl_iovec*)buffer->iov_base, buffer->iov_len);
 
+#ifdef ENABLE_KSSL_BIO
+	if (selectable_is_ssl_handshake(st) && ((got == 0 && SSL_get_shutdown(st->ssl->ssl)) || (got < 0 && SSL_get_error(st->ssl->ssl, got) != SSL_ERROR_WANT_READ))) {
+		//the end, later reads are told so at once
+		BIO_set_shutdown(st->ssl->bio[OP_READ].bio, 1);
+	}
+#endif
 	if (got >= 0) {
 		return result(st->data, arg, got);
 	}
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
-#ifndef ENABLE_KSSL_BIO
-		KBIT_CLR(st->base.st_flags, STF_RREADY);
-#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_read(st, result, buffer, arg);
 #else
+			KBIT_CLR(st->base.st_flags, STF_RREADY);
 			return kgl_selector_module.read(st->base.selector, st, result, buffer, arg);
 #endif
 		}
-- 
2.43.0


From a8fd510bf84863ab99edffc82748296b95f86a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:42 +0000
Subject: [PATCH 49/50] fix: a pool whose size is no multiple of the alignment
 gave out memory past its end

---
 src/kmalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index a954836..1a7ca8b 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,7 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 6a63cf6242744df46b6ca89f22001b71ed03d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:04 +0000
Subject: [PATCH 50/50] fix: a TLS context set on a closed server was swapped
 while its socket was still accepting on another event loop

---
 src/kserver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index 983c4f0..9b0b101 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -472,7 +472,8 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 		if (ssl_ctx) {
 			kgl_add_ref_ssl_ctx(ssl_ctx);
 		}
-		if (!KBIT_TEST(server->flags,KGL_SERVER_START)) {
+		//a closed server may still be accepting on its selector, only that selector may touch ss->ssl_ctx
+		if (!KBIT_TEST(server->flags,KGL_SERVER_START) && (ss->st.base.selector == NULL || ss->st.base.selector == kgl_get_tls_selector())) {
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
 		} else {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
-- 
2.43.0

