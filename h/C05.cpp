/* fiber events (condition objects): auto-reset events release exactly one wait per notice and store the
 * notices nobody waits for; manual-reset events release everybody, now and later; callback waits, try-wait and
 * waits of plain threads obey the same rules. */
#include "common.h"
GHOST static int woken, noticed, cb_runs, try_ok, try_no, wait_calls; GHOST static int gots[16]; GHOST static unsigned long given; /* values notices were given, a bit each */
#define GIVE(v) (given |= 1UL << (v), (v))
#define CHECK_GOT(g) CHECK((g) >= 0 && (g) < 64 && (given >> (g) & 1), "a wait got the value %d, which no notice was given", (g))
static kfiber_cond *c; static int expect_got, is_manual;
static int waiter_f(void *, int n) {
	for (int i = 0; i < n; i++) { int got = -77; wait_calls++; CHECK(c->f->wait(c, &got) == 0, "wait failed"); woken++; CHECK_GOT(got); if (!is_manual) CHECK(woken <= noticed, "%d waits returned after %d notices", woken, noticed); else CHECK(noticed, "wait returned before the notice"); if (expect_got) gots[woken - 1] = got; }
	rt_done(); return 0;
}
static int waiter_forever(void *, int) { int got = -77; c->f->wait(c, &got); woken++; CHECK_GOT(got); CHECK(woken <= noticed, "%d waits returned after %d notices", woken, noticed); return 0; }
static int notice_f(void *, int n) { for (int i = 0; i < n; i++) { noticed++; c->f->notice(c, GIVE(40 + noticed)); } rt_done(); return 0; }
static void *notice_t(void *a) { notice_f(NULL, (int)(long)a); return 0; }
static kev_result cbk(KOPAQUE d, void *arg, int got) { cb_runs++; CHECK((long)d == 5 && (long)arg == 6, "callback arguments"); CHECK(sel_index() == 1, "callback ran on selector %d", sel_index()); CHECK(noticed, "callback before the notice"); CHECK_GOT(got); rt_done(); return kev_ok; }
static kev_result reg_cb(KOPAQUE d, void *, int n) { for (int i = 0; i < n; i++) c->f->wait_callback(c, (KOPAQUE)5L, cbk, (void *)6L); return kev_ok; }
static void fin(void) { rt_settle(350); c->f->release(c); rt_check_released("event"); kmc_outcome("woken=%d cb=%d", woken, cb_runs); kmc_end(); }
/* 2 waiters on different selectors, 2 notices from a thread and a fiber */
SCEN(ts_auto_2w_2n, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); c = kfiber_cond_init_ts(true); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); kfiber_create2(SEL(1), waiter_f, NULL, 1, 0, NULL); kfiber_create2(SEL(1), notice_f, NULL, 1, 0, NULL); notice_f(NULL, 1); rt_wait(4); CHECK(woken == 2, "woken %d", woken); fin();
}
SCEN(ts_auto_stored, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); c = kfiber_cond_init_ts(true); kfiber_create2(SEL(0), waiter_f, NULL, 3, 0, NULL); pthread_t t; pthread_create(&t, 0, notice_t, (void *)1L); notice_f(NULL, 2); rt_wait(3); CHECK(woken == 3, "woken %d", woken); fin();
}
/* more waiters than notices: exactly as many return as notices were given */
SCEN(ts_auto_exact, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); c = kfiber_cond_init_ts(true); for (int i = 0; i < 3; i++) kfiber_create2(SEL(i), waiter_forever, NULL, 0, 0, NULL); kfiber_create2(SEL(0), notice_f, NULL, 1, 0, NULL); notice_f(NULL, 1); rt_wait(2); rt_settle(350); CHECK(woken == 2, "%d waits returned for 2 notices", woken); kmc_end();
}
SCEN(ts_manual, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); is_manual = 1; c = kfiber_cond_init_ts(false); for (int i = 0; i < 3; i++) kfiber_create2(SEL(i), waiter_f, NULL, 2, 0, NULL); notice_f(NULL, 1); rt_wait(4); CHECK(woken == 6, "woken %d", woken); fin();
}
SCEN(ts_manual_twice, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); is_manual = 1; c = kfiber_cond_init_ts(false); for (int i = 0; i < 2; i++) kfiber_create2(SEL(i), waiter_f, NULL, 2, 0, NULL); kfiber_create2(SEL(1), notice_f, NULL, 1, 0, NULL); notice_f(NULL, 1); rt_wait(4); CHECK(woken == 4, "woken %d", woken); fin();
}
/* the value given to notice reaches the waiter it releases (waiter known to be waiting) */
SCEN(ts_got, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); expect_got = 1; c = kfiber_cond_init_ts(true); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); kmc_explore(0); usleep(1000); kmc_explore(1); kfiber_create2(SEL(1), notice_f, NULL, 1, 0, NULL); rt_wait(2); CHECK(gots[0] == 41, "waiter got %d instead of 41", gots[0]); kmc_end();
}
SCEN(ts_cb_auto, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); c = kfiber_cond_init_ts(true); kgl_selector_module.next(SEL(1), NULL, reg_cb, NULL, 2); pthread_t t; pthread_create(&t, 0, notice_t, (void *)1L); notice_f(NULL, 1); rt_wait(4); CHECK(cb_runs == 2, "callbacks %d", cb_runs); fin();
}
SCEN(ts_cb_manual, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); is_manual = 1; c = kfiber_cond_init_ts(false); kgl_selector_module.next(SEL(1), NULL, reg_cb, NULL, 2); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); notice_f(NULL, 1); rt_wait(4); CHECK(cb_runs == 2 && woken == 1, "callbacks %d", cb_runs); fin();
}
/* try-wait: succeeds exactly as often as stored notices exist */
static int trier(void *, int n) { for (int i = 0; i < n; i++) { int pre = noticed - try_ok; int got = -77, r = c->f->try_wait(c, &got); if (r == 0) { try_ok++; CHECK_GOT(got); CHECK(try_ok <= noticed, "try-wait succeeded without a notice"); } else try_no++; (void)pre; } rt_done(); return 0; }
static int trier_last(void *, int) { while (c->f->try_wait(c, NULL) == 0) try_ok++; rt_done(); return 0; }
SCEN(ts_try, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); c = kfiber_cond_init_ts(true); kfiber_create2(SEL(0), trier, NULL, 2, 0, NULL); kfiber_create2(SEL(1), trier, NULL, 2, 0, NULL); notice_f(NULL, 2); rt_wait(3); kfiber_create2(SEL(0), trier_last, NULL, 0, 0, NULL); rt_wait(4); CHECK(try_ok == 2, "%d try-waits succeeded for 2 notices", try_ok); fin();
}
static int trier_m(void *, int n) { int ok = 0; for (int i = 0; i < n; i++) { int before = noticed == 2; int got = -77, r = c->f->try_wait(c, &got); if (r == 0) { ok = 1; CHECK(got == 33, "try-wait got %d, the notice gave 33", got); CHECK(noticed, "early"); } else CHECK(!ok && !before, "manual event lost its set state"); } rt_done(); return 0; }
static int notice_mark(void *, int) { noticed = 1; c->f->notice(c, 33); noticed = 2; rt_done(); return 0; }
SCEN(ts_try_manual, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); c = kfiber_cond_init_ts(false); kfiber_create2(SEL(0), trier_m, NULL, 3, 0, NULL); kfiber_create2(SEL(1), trier_m, NULL, 3, 0, NULL); notice_mark(0, 0); rt_wait(3); fin();
}
/* single-selector flavour */
static int w1(void *, int n) { return waiter_f(0, n); }
static int seq_auto(void *, int) { /* runs on one selector */
	kfiber_create(w1, NULL, 1, 0, NULL); CHECK(woken == 0, "woken early"); noticed++; c->f->notice(c, GIVE(9)); CHECK(woken == 1, "not released"); noticed += 2; c->f->notice(c, 1); c->f->notice(c, 1); int g = -77, h = -77; CHECK(c->f->wait(c, &g) == 0 && c->f->try_wait(c, &h) == 0 && c->f->try_wait(c, NULL) == -1, "stored notices"); CHECK(g == 1 && h == 1, "stored notices of value 1 gave %d and %d", g, h); c->f->notice(c, 2); CHECK(c->f->wait(c, &g) == 0 && g == 2, "stored notice of value 2 gave %d", g); rt_done(); return 0;
}
SCEN(st_auto, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { rt_start(1); rt_mark(); c = kfiber_cond_init(true); kfiber_create2(SEL(0), seq_auto, NULL, 1, 0, NULL); rt_wait(2); fin(); }
static int seq_man(void *, int) {
	CHECK(c->f->try_wait(c, NULL) == -1, "set too early"); kfiber_create(w1, NULL, 2, 0, NULL); kfiber_create(w1, NULL, 2, 0, NULL); CHECK(woken == 0, "woken early"); noticed++; c->f->notice(c, GIVE(9)); CHECK(woken == 4, "not everybody released: %d", woken); int g = -77, h = -77; CHECK(c->f->wait(c, NULL) == 0 && c->f->try_wait(c, &h) == 0 && c->f->wait(c, &g) == 0, "not set any more"); CHECK(g == 9 && h == 9, "an event set with value 9 gave %d and %d", g, h); rt_done(); return 0;
}
SCEN(st_manual, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { rt_start(1); rt_mark(); is_manual = 1; c = kfiber_cond_init(false); kfiber_create2(SEL(0), seq_man, NULL, 1, 0, NULL); rt_wait(3); fin(); }
static kev_result reg2(KOPAQUE, void *, int) { c->f->wait_callback(c, (KOPAQUE)5L, cbk, (void *)6L); c->f->wait_callback(c, (KOPAQUE)5L, cbk, (void *)6L); kfiber_create(w1, NULL, 1, 0, NULL); return kev_ok; }
static kev_result not1(KOPAQUE, void *, int n) { notice_f(0, n); return kev_ok; }
SCEN(st_cb_auto, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { rt_start(2); rt_mark(); c = kfiber_cond_init(true); kgl_selector_module.next(SEL(1), NULL, reg2, NULL, 0); kgl_selector_module.next(SEL(1), NULL, not1, NULL, 2); kgl_selector_module.next(SEL(1), NULL, not1, NULL, 1); rt_wait(5); CHECK(cb_runs == 2 && woken == 1, "cb %d woken %d", cb_runs, woken); fin(); }
SCEN(st_cb_manual, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { rt_start(2); rt_mark(); is_manual = 1; c = kfiber_cond_init(false); kgl_selector_module.next(SEL(1), NULL, reg2, NULL, 0); kgl_selector_module.next(SEL(1), NULL, not1, NULL, 1); kgl_selector_module.next(SEL(1), NULL, reg2, NULL, 0); rt_wait(7); CHECK(cb_runs == 4 && woken == 2, "cb %d woken %d", cb_runs, woken); fin(); }
/* plain threads wait for fibers */
static void *sync_waiter(void *a) { int got = 0; c->f->wait(c, &got); woken++; CHECK(woken <= noticed || is_manual, "too many"); CHECK(noticed, "returned before the notice"); if (expect_got) CHECK(got == expect_got, "thread got %d", got); rt_done(); return 0; }
SCEN(sync_auto_1w, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,1}), 3000, 0, KMC_F_SPURIOUS) { rt_start(1); expect_got = 41; c = kfiber_cond_init_sync(true); kfiber_create2(SEL(0), notice_f, NULL, 1, 0, NULL); sync_waiter(0); rt_wait(2); rt_settle(100); CHECK(c->f->try_wait(c, NULL) == -1, "event still set"); c->f->release(c); kmc_end(); }
SCEN(sync_auto_spurious, B({0,0},{1,1},{2,1}), B({2,1},{3,1},{3,2}), 3000, 0, KMC_F_SPURIOUS) { rt_start(1); expect_got = 41; c = kfiber_cond_init_sync(true); kfiber_create2(SEL(0), notice_f, NULL, 1, 0, NULL); sync_waiter(0); rt_wait(2); c->f->release(c); kmc_end(); }
SCEN(sync_auto_exact, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{3,1}), 3000, 0, KMC_F_SPURIOUS) { rt_start(1); c = kfiber_cond_init_sync(true); pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, sync_waiter, 0); kfiber_create2(SEL(0), notice_f, NULL, 1, 0, NULL); rt_wait(2); rt_settle(300); CHECK(woken == 1, "%d waits returned for one notice", woken); kmc_end(); }
SCEN(sync_manual_2w, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{3,1}), 3000, 0, KMC_F_SPURIOUS) { rt_start(1); is_manual = 1; c = kfiber_cond_init_sync(false); pthread_t t[2]; for (int i = 0; i < 2; i++) pthread_create(&t[i], 0, sync_waiter, 0); kfiber_create2(SEL(0), notice_f, NULL, 1, 0, NULL); rt_wait(3); CHECK(woken == 2, "woken %d", woken); sync_waiter(0); rt_settle(50); CHECK(c->f->try_wait(c, NULL) == 0, "manual event not set any more"); CHECK(c->f->try_wait(c, NULL) == 0, "manual event not set any more"); kmc_end(); }
/* a crowd of waits and of notices */
#define CROWD 300
GHOST static int cr_n;
static int cr_w(void *arg, int) { kfiber_cond *k = (kfiber_cond *)arg; int got = -77; CHECK(k->f->wait(k, &got) == 0 && got == 9, "wait gave %d", got); cr_n++; return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) {
	rt_start(2); rt_mark(); kmc_explore(0);
	for (int kind = 0; kind < 2; kind++) { /* automatic, manual */
		kfiber_cond *k = kfiber_cond_init_ts(kind == 0); cr_n = 0;
		if (kind == 0) { for (int i = 0; i < 20; i++) k->f->notice(k, 9); }
		for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1), cr_w, k, 0, 4096, NULL);
		usleep(20000); CHECK(cr_n == (kind ? 0 : 20), "%d waits returned", cr_n);
		if (kind == 0) { for (int i = 20; i < CROWD - 1; i++) k->f->notice(k, 9); usleep(20000); CHECK(cr_n == CROWD - 1, "%d waits returned after %d notices", cr_n, CROWD - 1); k->f->notice(k, 9); for (int i = 0; i < CROWD; i++) k->f->notice(k, 9); usleep(20000); CHECK(cr_n == CROWD, "%d waits returned", cr_n); for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(0), cr_w, k, 0, 4096, NULL); usleep(20000); CHECK(cr_n == 2 * CROWD, "%d of %d notices kept", cr_n - CROWD, CROWD); }
		else { k->f->notice(k, 9); usleep(20000); CHECK(cr_n == CROWD, "%d of %d waits released", cr_n, CROWD); }
		k->f->release(k); usleep(400000);
	}
	rt_check_released("crowd"); kmc_end();
}
/* values of every size, waited for before and after the notice */
GHOST static int va_k, va_n; static kfiber_cond *va_c;
static int va_wait(void *, int) { int got = -77; CHECK(va_c->f->wait(va_c, &got) == 0 && got == g_values[va_k], "a notice of %d was waited for and gave %d", g_values[va_k], got); va_n++; return 0; }
static kev_result va_cb(KOPAQUE d, void *arg, int got) { CHECK(got == g_values[va_k], "a notice of %d gave a callback %d", g_values[va_k], got); CHECK(d == WIDE(va_k) && arg == (void *)&va_k, "callback arguments"); va_n++; return kev_ok; }
static int va_main(void *, int kind) { /* kind: bit 0 automatic, bit 1 for several threads */
	for (va_k = 0; va_k < NVALUES; va_k++) {
		int got = -77, v = g_values[va_k]; va_c = kind & 2 ? kfiber_cond_init_ts(kind & 1) : kfiber_cond_init(kind & 1); va_n = 0;
		kfiber_create(va_wait, NULL, 0, 4096, NULL); kfiber_msleep(1); va_c->f->notice(va_c, v); kfiber_msleep(1); CHECK(va_n == 1, "a wait did not return"); if (!(kind & 1)) { va_c->f->release(va_c); va_c = kind & 2 ? kfiber_cond_init_ts(false) : kfiber_cond_init(false); }
		va_c->f->wait_callback(va_c, WIDE(va_k), va_cb, &va_k); va_c->f->notice(va_c, v); kfiber_msleep(1); CHECK(va_n == 2, "a callback did not run"); if (!(kind & 1)) { va_c->f->release(va_c); va_c = kind & 2 ? kfiber_cond_init_ts(false) : kfiber_cond_init(false); }
		va_c->f->notice(va_c, v); CHECK(va_c->f->try_wait(va_c, &got) == 0 && got == v, "a notice of %d was tried for and gave %d", v, got);
		if (kind & 1) va_c->f->notice(va_c, v); va_wait(NULL, 0); if (kind & 1) va_c->f->notice(va_c, v); va_c->f->wait_callback(va_c, WIDE(va_k), va_cb, &va_k); kfiber_msleep(1); CHECK(va_n == 4, "%d of 4 waits", va_n);
		va_c->f->release(va_c);
	}
	rt_done(); return 0;
}
SCEN(values, B({0,0}), B({0,0}), 60000, 1, KMC_F_SEQ) {
	rt_start(1); rt_mark(); int kind = kmc_choose(6);
	if (kind < 4) { kfiber_create2(SEL(0), va_main, NULL, kind, 0, NULL); rt_wait(1); }
	else for (int i = 0; i < NVALUES; i++) { int got = -77; va_c = kfiber_cond_init_sync(kind & 1); va_c->f->notice(va_c, g_values[i]); CHECK(va_c->f->wait(va_c, &got) == 0 && got == g_values[i], "a notice of %d gave a thread %d", g_values[i], got); if (kind & 1) va_c->f->notice(va_c, g_values[i]); got = -77; CHECK(va_c->f->try_wait(va_c, &got) == 0 && got == g_values[i], "a notice of %d was tried for by a thread and gave %d", g_values[i], got); va_c->f->release(va_c); }
	rt_settle(100); rt_check_released("events"); kmc_outcome("%d", kind); kmc_end();
}
/* waits (or notices) settled first, then notices, waits and tries arrive together from several threads and loops */
static kev_result reg0(KOPAQUE, void *, int) { c->f->wait_callback(c, (KOPAQUE)5L, cbk, (void *)6L); rt_done(); return kev_ok; }
static int left(void) { int d = g_done, t = try_ok; kfiber_create2(SEL(0), trier_last, NULL, 0, 0, NULL); rt_wait(d + 1); return try_ok - t; }
static void settle(void) { kmc_explore(0); usleep(3000); kmc_explore(1); }
static void thr(void *(*f)(void *), long n) { pthread_t t; CHECK(pthread_create(&t, 0, f, (void *)n) == 0, "thread"); pthread_detach(t); }
#define LATE(id, auto_) SCEN(id, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 1, 0) { rt_start(2); rt_mark(); is_manual = !(auto_); c = kfiber_cond_init_ts(auto_);
LATE(late_nn, true) kmc_explore(0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); kfiber_create2(SEL(1), waiter_f, NULL, 1, 0, NULL); kgl_selector_module.next(SEL(1), NULL, reg0, NULL, 0); rt_wait(1); settle(); thr(notice_t, 1); thr(notice_t, 1); notice_f(NULL, 1); rt_wait(7); CHECK(woken == 2 && cb_runs == 1, "woken %d callbacks %d", woken, cb_runs); CHECK(!left(), "a notice counted twice"); fin(); }
LATE(late_nnw, true) kmc_explore(0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); settle(); thr(notice_t, 1); thr(notice_t, 1); kfiber_create2(SEL(1), waiter_f, NULL, 1, 0, NULL); rt_wait(4); CHECK(woken == 2, "woken %d", woken); CHECK(!left(), "a notice counted twice"); fin(); }
LATE(late_ncb, true) kmc_explore(0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); settle(); thr(notice_t, 1); kgl_selector_module.next(SEL(1), NULL, reg0, NULL, 0); notice_f(NULL, 1); rt_wait(5); CHECK(woken == 1 && cb_runs == 1, "woken %d callbacks %d", woken, cb_runs); CHECK(!left(), "a notice counted twice"); fin(); }
LATE(late_stored, true) kmc_explore(0); notice_f(NULL, 2); settle(); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); kfiber_create2(SEL(1), waiter_f, NULL, 1, 0, NULL); kgl_selector_module.next(SEL(1), NULL, reg0, NULL, 0); notice_f(NULL, 1); rt_wait(6); CHECK(woken == 2 && cb_runs == 1, "woken %d callbacks %d", woken, cb_runs); CHECK(!left(), "a notice counted twice"); fin(); }
LATE(late_stored_try, true) kmc_explore(0); notice_f(NULL, 2); settle(); kfiber_create2(SEL(0), trier, NULL, 2, 0, NULL); kfiber_create2(SEL(1), trier, NULL, 2, 0, NULL); thr(notice_t, 1); rt_wait(4); settle(); left(); CHECK(try_ok == 3, "%d of 3 notices", try_ok); fin(); }
LATE(late_manual, false) kmc_explore(0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); kgl_selector_module.next(SEL(1), NULL, reg0, NULL, 0); rt_wait(1); settle(); thr(notice_t, 1); thr(notice_t, 1); kfiber_create2(SEL(1), waiter_f, NULL, 1, 0, NULL); rt_wait(6); CHECK(woken == 2 && cb_runs == 1, "woken %d callbacks %d", woken, cb_runs); fin(); }
LATE(late_manual_cb, false) kmc_explore(0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); settle(); thr(notice_t, 1); kgl_selector_module.next(SEL(1), NULL, reg0, NULL, 0); kfiber_create2(SEL(0), waiter_f, NULL, 1, 0, NULL); rt_wait(5); CHECK(woken == 2 && cb_runs == 1, "woken %d callbacks %d", woken, cb_runs); fin(); }
/* who waits for an event used once releases it as soon as the wait is over, while the notice may still be on its way out */
static int ls_wait(void *, int) { int got = -77; CHECK(c->f->wait(c, &got) == 0, "wait"); CHECK_GOT(got); woken++; c->f->release(c); rt_done(); return 0; }
static void *ls_wait_t(void *) { int got = -77; CHECK(c->f->wait(c, &got) == 0, "wait"); woken++; c->f->release(c); rt_done(); return 0; }
static kev_result ls_cb(KOPAQUE, void *, int got) { CHECK_GOT(got); woken++; c->f->release(c); rt_done(); return kev_ok; }
static kev_result ls_reg(KOPAQUE, void *, int) { c->f->wait_callback(c, NULL, ls_cb, NULL); return kev_ok; }
static void once(int kind, int who) { /* kind: auto, manual, for threads; who: fiber, callback, thread */
	rt_start(2); rt_mark(); is_manual = kind & 1; c = kind & 2 ? kfiber_cond_init_sync(!is_manual) : kfiber_cond_init_ts(!is_manual);
	if (who == 0) kfiber_create2(SEL(0), ls_wait, NULL, 0, 0, NULL); else if (who == 1) kgl_selector_module.next(SEL(0), NULL, ls_reg, NULL, 0); else thr(ls_wait_t, 0);
	int from = kmc_choose(2); if (from) kfiber_create2(SEL(1), notice_f, NULL, 1, 0, NULL); else notice_f(NULL, 1); rt_wait(2); rt_settle(50); CHECK(woken == 1, "woken %d times", woken); rt_check_released("event"); kmc_outcome("%d", from); kmc_end();
}
#define ONCE(id, k, w) SCEN(id, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 3000, 0, 0) { once(k, w); }
ONCE(once_auto, 0, 0) ONCE(once_auto_cb, 0, 1) ONCE(once_manual, 1, 0) ONCE(once_manual_cb, 1, 1) ONCE(once_sync_auto, 2, 2) ONCE(once_sync_manual, 3, 2)
