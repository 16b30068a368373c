/* C02 posting work to a selector: every notice posted from any thread is delivered exactly once, on the
 * target selector's thread, with its arguments; notices posted before a selector sleeps wake it; the same
 * holds for timers added from another thread. */
#include "common.h"
GHOST static int got_n[8], got_arg[8], total; GHOST static size_t base_live; GHOST static int64_t last_ms;
static kev_result cb(KOPAQUE data, void *arg, int got) {
	int id = (int)(long)arg; CHECK(id >= 0 && id < 8, "bad argument"); got_n[id]++; got_arg[id] = got; total++;
	CHECK(got_n[id] == 1, "notice %d delivered %d times", id, got_n[id]);
	CHECK((long)data == 1000 + id, "notice %d delivered with wrong data", id);
	CHECK(got == id * 3 + 1, "notice %d delivered with got=%d", id, got);
	CHECK(sel_index() == (id & 1), "notice %d for selector %d ran on selector %d", id, id & 1, sel_index());
	CHECK(kgl_get_tls_selector()->thread_id == pthread_self(), "wrong thread");
	last_ms = kmc_now_us() / 1000; rt_done(); return kev_ok;
}
static void post(int id) { kgl_selector_module.next(SEL(id & 1), (KOPAQUE)(long)(1000 + id), cb, (void *)(long)id, id * 3 + 1); }
static void fin(int n) {
	int64_t t0 = kmc_now_us(); rt_wait(n); CHECK(kmc_now_us() - t0 < 50000, "delivery waited for an unrelated time-out: %lld us", (long long)(kmc_now_us() - t0));
	rt_settle(300); CHECK(total == n, "%d of %d delivered", total, n); kmc_dump_live(); CHECK(kmc_live_allocs() == base_live, "notice memory left behind"); kmc_end();
}
static void *poster(void *a) { int id = (int)(long)a; post(id); post(id + 2); return 0; }
/* two plain threads post two notices each to the same selector */
SCEN(post_2t_same, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) {
	rt_start(2); base_live = kmc_live_allocs(); pthread_t t; pthread_create(&t, 0, poster, (void *)4L); post(0); post(2); fin(4);
}
SCEN(post_2t_cross, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) {
	rt_start(2); base_live = kmc_live_allocs(); pthread_t t; pthread_create(&t, 0, poster, (void *)1L); post(0); post(2); fin(4);
}
/* callbacks that post to the other selector: ping-pong */
static kev_result ping(KOPAQUE data, void *arg, int got) {
	int n = (int)(long)arg; CHECK(sel_index() == (n & 1), "hop %d on selector %d", n, sel_index()); CHECK(got == n && (long)data == n, "hop %d carried %d", n, got); total++; got_n[n]++;
	if (n < 5) kgl_selector_module.next(SEL((n + 1) & 1), (KOPAQUE)(long)(n + 1), ping, (void *)(long)(n + 1), n + 1); else rt_done(); return kev_ok;
}
SCEN(pingpong, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) {
	rt_start(2); base_live = kmc_live_allocs(); kgl_selector_module.next(SEL(0), (KOPAQUE)0L, ping, (void *)0L, 0); rt_wait(1); rt_settle(300);
	for (int i = 0; i < 6; i++) CHECK(got_n[i] == 1, "hop %d ran %d times", i, got_n[i]); CHECK(kmc_live_allocs() == base_live, "notice memory left behind"); kmc_end();
}
/* a callback that posts to its own selector */
static kev_result self_cb(KOPAQUE data, void *arg, int got) { int n = got; got_n[n]++; CHECK(got_n[n] == 1, "ran twice"); if (n < 3) { kgl_selector_module.next(kgl_get_tls_selector(), NULL, self_cb, NULL, n + 1); } else rt_done(); return kev_ok; }
SCEN(self_post, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, KMC_F_EINTR) {
	rt_start(2); base_live = kmc_live_allocs(); kgl_selector_module.next(SEL(1), NULL, self_cb, NULL, 0); post(4); rt_wait(2); rt_settle(300); for (int i = 0; i < 4; i++) CHECK(got_n[i] == 1 || i == 3, "lost"); CHECK(kmc_live_allocs() == base_live, "left behind"); kmc_end();
}
/* timers added from another thread: fire once, on the right selector, not before their time */
GHOST static int64_t due[8]; GHOST static int fired[8];
static kev_result tcb(KOPAQUE data, void *arg, int got) { int id = (int)(long)arg; fired[id]++; CHECK(fired[id] == 1, "timer %d fired %d times", id, fired[id]); CHECK((long)data == 50 + id, "wrong data"); CHECK(sel_index() == (id & 1), "timer of selector %d fired on %d", id & 1, sel_index()); CHECK(kgl_current_msec >= due[id], "timer %d fired %lld ms early", id, (long long)(due[id] - kgl_current_msec)); rt_done(); return kev_ok; }
static void *tadder(void *a) { int id = (int)(long)a; due[id] = kgl_current_msec + 5; kselector_add_timer_ts(SEL(id & 1), tcb, (void *)(long)id, 5, (KOPAQUE)(long)(50 + id)); return 0; }
SCEN(timer_ts, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) {
	rt_start(2); base_live = kmc_live_allocs(); pthread_t t; pthread_create(&t, 0, tadder, (void *)1L); tadder((void *)0L); tadder((void *)3L); rt_wait(3); rt_settle(500); CHECK(kmc_live_allocs() == base_live, "timer memory left behind"); kmc_end();
}
/* notices reach a selector even when its wait is interrupted by signals */
SCEN(post_eintr, B({0,0},{1,1},{2,1}), B({0,0},{1,1},{2,2},{3,1}), 3000, 0, KMC_F_EINTR) {
	rt_start(2); base_live = kmc_live_allocs(); post(0); post(2); post(1); fin(3);
}
/* a crowd of notices and timers */
#define CROWD 1200
GHOST static int cr_n, cr_got[CROWD];
static kev_result cr_cb(KOPAQUE data, void *arg, int got) { int i = (int)(long)arg; CHECK(i >= 0 && i < CROWD && got == i + 5 && (long)data == i * 2, "notice %d carried %d", i, got); CHECK(sel_index() == (i & 1), "notice %d ran on loop %d", i, sel_index()); CHECK(++cr_got[i] == 1, "notice %d delivered twice", i); if (++cr_n == CROWD) rt_done(); return kev_ok; }
static kev_result cr_tm(KOPAQUE data, void *arg, int) { int i = (int)(long)arg; CHECK(i >= 0 && i < CROWD && (long)data == i * 2, "timer %d carried other data", i); CHECK(sel_index() == (i & 1), "timer %d ran on loop %d", i, sel_index()); CHECK(++cr_got[i] == 2, "timer %d ran twice", i); if (++cr_n == 2 * CROWD) rt_done(); return kev_ok; }
static void *cr_t(void *a) { for (int i = (int)(long)a; i < CROWD; i += 2) kgl_selector_module.next(SEL(i & 1), (KOPAQUE)(long)(i * 2), cr_cb, (void *)(long)i, i + 5); return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 9000, 1, 0) {
	rt_start(2); rt_mark(); pthread_t t; pthread_create(&t, 0, cr_t, (void *)1L); pthread_detach(t); cr_t(NULL); rt_wait(1);
	for (int i = 0; i < CROWD; i++) kselector_add_timer_ts(SEL(i & 1), cr_tm, (void *)(long)i, 1 + i % 300, (KOPAQUE)(long)(i * 2));
	rt_wait(2); for (int i = 0; i < CROWD; i++) CHECK(cr_got[i] == 2, "%d: %d", i, cr_got[i]); rt_check_released("crowd"); kmc_end();
}
/* data, arguments and numbers of every size */
GHOST static int va_got[2 * 64];
static kev_result va_cb(KOPAQUE d, void *arg, int got) { int k = *(int *)arg; CHECK(d == WIDE(k), "notice %d: data %p instead of %p", k, d, WIDE(k)); CHECK(got == g_values[k], "a notice of %d was delivered as %d", g_values[k], got); va_got[k]++; rt_done(); return kev_ok; }
static kev_result va_tm(KOPAQUE d, void *arg, int) { int k = *(int *)d; CHECK(arg == WIDE(k), "timer %d: argument %p instead of %p", k, arg, WIDE(k)); va_got[64 + k]++; rt_done(); return kev_ok; }
SCEN(values, B({0,0}), B({0,0},{1,0}), 9000, 1, 0) {
	rt_start(2); rt_mark(); static int ids[NVALUES]; kmc_explore(0);
	for (int i = 0; i < NVALUES; i++) { ids[i] = i; kgl_selector_module.next(SEL(i & 1), WIDE(i), va_cb, &ids[i], g_values[i]); kselector_add_timer_ts(SEL(i & 1), va_tm, WIDE(i), 3, &ids[i]); }
	kmc_explore(1); rt_wait(2 * NVALUES); for (int i = 0; i < NVALUES; i++) CHECK(va_got[i] == 1 && va_got[64 + i] == 1, "%d: %d %d", i, va_got[i], va_got[64 + i]); rt_settle(300); rt_check_released("notices"); kmc_end();
}
