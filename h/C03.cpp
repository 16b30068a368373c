/* fiber mutex: at most `limit` holders, nobody lost, try-lock bound, everything idle at the end.
 * Fibers on several event loops (and several fibers per loop) contend; every interleaving within the bound. */
#include "common.h"
GHOST static int in_cs, max_in, entered, rejected, hi, calls; GHOST static int shared_v;
static kfiber_mutex *mx; static int iters, yields, tmax;
static int body(void *arg, int limit) {
	for (int i = 0; i < iters; i++) {
		int pre = hi++, c0 = ++calls;
		if (tmax) {
			if (kfiber_mutex_try_lock(mx, tmax) != 0) {
				hi--; rejected++;
				CHECK(!(pre < tmax && c0 == calls), "try-lock refused although only %d of %d admitted", pre, tmax);
				continue;
			}
		} else CHECK(kfiber_mutex_lock(mx) == 0, "lock failed");
		in_cs++; entered++; if (in_cs > max_in) max_in = in_cs;
		CHECK(in_cs <= limit, "%d fibers inside a section limited to %d", in_cs, limit);
		int v = shared_v;
		if (yields) fiber_yield(); else kmc_yield();
		if (limit == 1) CHECK(v == shared_v, "another holder changed the protected data");
		shared_v = v + 1;
		in_cs--;
		kfiber_mutex_unlock(mx); hi--;
	}
	rt_done();
	return 0;
}
static void go(int sels, int nf, int limit, int it, int y, int tm) {
	rt_start(sels); rt_mark(); mx = limit == 1 ? kfiber_mutex_init() : kfiber_mutex_init2(limit); iters = it; yields = y; tmax = tm;
	CHECK(kfiber_mutex_get_limit(mx) == limit, "limit");
	for (int i = 0; i < nf; i++) kfiber_create2(SEL(i), body, NULL, limit, 0, NULL);
	rt_wait(nf);
	if (!tm) CHECK(entered == nf * it, "only %d of %d lock calls returned", entered, nf * it);
	else CHECK(entered + rejected == nf * it && entered >= (tm < nf ? tm : nf), "entered %d rejected %d", entered, rejected);
	if (limit == 1) CHECK(shared_v == entered, "protected counter %d after %d sections", shared_v, entered);
	CHECK(kfiber_mutex_get_count(mx) == 0 && kfiber_mutex_get_worker(mx) == 0, "count %d workers %d left", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx));
	kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_outcome("entered=%d rejected=%d max=%d", entered, rejected, max_in);
	kmc_end();
}
SCEN(mutex_2x2, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 1, 1, 0, 0); }
SCEN(mutex_2sel_2iter, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { go(2, 2, 1, 2, 0, 0); }
SCEN(mutex_3sel, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(3, 3, 1, 1, 0, 0); }
SCEN(mutex_samesel_yield, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 1, 1, 1, 0); }
SCEN(limit2, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 2, 1, 1, 0); }
SCEN(limit2_3sel, B({0,0},{1,0},{2,0}), B({2,0},{3,0}), 3000, 0, 0) { go(3, 4, 2, 1, 0, 0); }
SCEN(trylock_1, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 1, 1, 0, 1); }
SCEN(trylock_2, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 1, 1, 1, 2); }
SCEN(trylock_limit2, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, 4, 2, 1, 1, 3); }
/* the limit is changed while fibers hold and wait: a raised limit lets waiting fibers in at once, a lowered one
 * (below the number of holders) lets nobody in until enough have released; below 1 means 1 */
GHOST static int lim_now, may_leave; /* what the harness last set; holders stay inside until may_leave */
static int lbody(void *, int) {
	CHECK(kfiber_mutex_lock(mx) == 0, "lock failed");
	in_cs++; entered++; if (in_cs > max_in) max_in = in_cs;
	while (may_leave <= 0) kfiber_msleep(1);
	may_leave--; in_cs--; int c = kfiber_mutex_get_count(mx); CHECK(c > 0, "count %d while the mutex is held", c); kfiber_mutex_unlock(mx); rt_done(); return 0;
}
static void lsleep(int ms) { kmc_explore(0); usleep(ms * 1000); kmc_explore(1); }
SCEN(limit_raised, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 6000, 1, 0) {
	int nf = 4; rt_start(2); rt_mark(); mx = kfiber_mutex_init(); for (int i = 0; i < nf; i++) kfiber_create2(SEL(i), lbody, NULL, 0, 0, NULL);
	lsleep(300); CHECK(in_cs == 1 && kfiber_mutex_get_worker(mx) == 1 && kfiber_mutex_get_count(mx) == nf, "%d inside, worker %d count %d, the limit is 1", in_cs, kfiber_mutex_get_worker(mx), kfiber_mutex_get_count(mx));
	int to = 2 + kmc_choose(3); kfiber_mutex_set_limit(mx, to); CHECK(kfiber_mutex_get_limit(mx) == to, "limit"); lsleep(300);
	CHECK(in_cs == (to < nf ? to : nf), "%d inside after the limit was raised to %d", in_cs, to);
	may_leave = nf; rt_wait(nf); CHECK(entered == nf && max_in <= (to < nf ? to : nf), "entered %d, at most %d at once", entered, max_in);
	CHECK(kfiber_mutex_get_count(mx) == 0 && kfiber_mutex_get_worker(mx) == 0, "count %d workers %d left", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx));
	kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_outcome("to=%d max=%d", to, max_in); kmc_end();
}
SCEN(limit_lowered, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 6000, 1, 0) {
	int nf = 5; rt_start(2); rt_mark(); mx = kfiber_mutex_init2(3); for (int i = 0; i < nf; i++) kfiber_create2(SEL(i), lbody, NULL, 0, 0, NULL);
	lsleep(300); CHECK(in_cs == 3, "%d inside, the limit is 3", in_cs);
	int to = (int)kmc_choose(4) - 1, eff = to < 1 ? 1 : to; kfiber_mutex_set_limit(mx, to); CHECK(kfiber_mutex_get_limit(mx) == eff, "limit %d after set_limit(%d)", kfiber_mutex_get_limit(mx), to);
	for (int left = 1; left <= nf; left++) { may_leave = 1; lsleep(300); int held = nf - left, inside = held < 3 - left ? held : 3 - left > eff ? 3 - left : held < eff ? held : eff; CHECK(in_cs == inside, "%d inside after %d left, the limit is %d", in_cs, left, eff); }
	rt_wait(nf); CHECK(entered == nf, "entered %d", entered);
	CHECK(kfiber_mutex_get_count(mx) == 0 && kfiber_mutex_get_worker(mx) == 0, "count %d workers %d left", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx));
	kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_outcome("to=%d", to); kmc_end();
}
/* ... changed by a thread while they come and go */
static int cbody(void *, int n) {
	for (int i = 0; i < n; i++) { CHECK(kfiber_mutex_lock(mx) == 0, "lock failed"); in_cs++; entered++; CHECK(in_cs <= lim_now, "%d fibers inside, the limit was never above %d", in_cs, lim_now); kmc_yield(); in_cs--; kfiber_mutex_unlock(mx); }
	rt_done(); return 0;
}
SCEN(limit_changed_meanwhile, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) {
	rt_start(2); rt_mark(); lim_now = 2; mx = kfiber_mutex_init(); for (int i = 0; i < 4; i++) kfiber_create2(SEL(i), cbody, NULL, 1, 0, NULL);
	kfiber_mutex_set_limit(mx, 2); kfiber_mutex_set_limit(mx, 1); rt_wait(4); CHECK(entered == 4, "entered %d", entered);
	CHECK(kfiber_mutex_get_count(mx) == 0 && kfiber_mutex_get_worker(mx) == 0, "count %d workers %d left", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx));
	kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_outcome("max=%d", max_in); kmc_end();
}
/* every short sequence of lock, try-lock, release and limit changes, against a count of who holds and who waits */
GHOST static kfiber *hf[32]; GHOST static int hn, href_, hget; GHOST static char hobj;
static int hbody(void *, int tm) {
	int r = tm ? kfiber_mutex_try_lock(mx, tm) : kfiber_mutex_lock(mx);
	if (r != 0) { CHECK(tm, "lock failed"); href_++; rt_done(); return 0; }
	hget++; in_cs++; hf[hn++] = kfiber_self2(); __kfiber_wait(kfiber_self2(), &hobj); in_cs--; kfiber_mutex_unlock(mx); rt_done(); return 0;
}
static void hist(int n, int sels) {
	rt_start(sels); kmc_explore(0); usleep(150000); rt_mark(); kmc_explore(1); mx = kfiber_mutex_init(); int count = 0, worker = 0, limit = 1, made = 0, refused = 0, first = 0; char h[20] = "";
	for (int i = 0; i <= n || count; i++) {
		int o = i < n ? (int)kmc_choose(7) : 4; /* at the end everybody releases */ if (i < 19) { h[i] = "L123U>="[o]; h[i + 1] = 0; }
		if (o < 4) { kfiber_create2(SEL(made++), hbody, NULL, o, 0, NULL); if (o && count >= o) refused++; else { count++; if (worker < limit) worker++; } }
		else if (o == 4) { if (first < hn) { kfiber *f = hf[first++]; count--; if (count < worker || worker > limit) worker--; kfiber_wakeup_ts(f, &hobj, 0); } }
		else { limit = o - 4; kfiber_mutex_set_limit(mx, limit); if (worker < limit) worker = count < limit ? count : limit; }
		kmc_explore(0); usleep(2000); kmc_explore(1);
		CHECK(in_cs == worker && href_ == refused, "%d inside, %d expected; %d refused, %d expected (%s)", in_cs, worker, href_, refused, h);
		CHECK(kfiber_mutex_get_count(mx) == count && kfiber_mutex_get_worker(mx) == worker, "count %d worker %d, %d and %d expected (%s)", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx), count, worker, h);
	}
	rt_wait(made); kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_outcome("%d %d", hget, href_); kmc_end();
}
SCEN(history6, B({0,0}), B({-1,-1}), 6000, 1, KMC_F_SEQ) { hist(6, 1); }
SCEN(history6_2sel, B({0,0}), B({-1,-1}), 6000, 1, KMC_F_SEQ) { hist(6, 2); }
SCEN(history8, B({-1,-1}), B({0,0}), 6000, 1, KMC_F_SEQ) { hist(8, 1); }
SCEN(history8_2sel, B({-1,-1}), B({0,0}), 6000, 1, KMC_F_SEQ) { hist(8, 2); }
/* a crowd: more waiters than any small counter holds; then everybody let in at once */
#define CROWD 300
GHOST static int cr_in, cr_got, cr_max;
static int cr_body(void *arg, int) { CHECK(kfiber_mutex_lock(mx) == 0, "lock failed"); cr_got++; cr_in++; if (cr_in > cr_max) cr_max = cr_in; CHECK(cr_in <= (int)(long)arg, "%d holders of %d", cr_in, (int)(long)arg); kfiber_msleep(arg == (void *)1L ? 0 : 30); cr_in--; kfiber_mutex_unlock(mx); rt_done(); return 0; }
static int cr_main(void *, int) {
	CHECK(kfiber_mutex_try_lock(mx, 1) == 0, "try-lock of a free mutex");
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1), cr_body, (void *)1L, 0, 4096, NULL);
	kfiber_msleep(50); CHECK(cr_got == 0, "%d got in", cr_got); CHECK(kfiber_mutex_try_lock(mx, CROWD + 1) != 0, "try-lock admitted beyond its number"); kfiber_mutex_unlock(mx); while (g_done < CROWD) kfiber_msleep(10); CHECK(cr_got == CROWD && cr_max == 1, "%d got in, %d at once", cr_got, cr_max);
	CHECK(kfiber_mutex_try_lock(mx, 1) == 0, "not free at the end"); for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1), cr_body, (void *)(long)CROWD, 0, 4096, NULL);
	kfiber_msleep(5); CHECK(cr_got == CROWD, "%d got in", cr_got); kfiber_mutex_set_limit(mx, CROWD + 1); kfiber_msleep(5); CHECK(cr_max == CROWD, "%d of %d let in by the raised limit", cr_max, CROWD); while (g_done < 2 * CROWD) kfiber_msleep(10);
	kfiber_mutex_unlock(mx); rt_done(); return 0;
}
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 200000, 1, 0) {
	rt_start(2); rt_mark(); mx = kfiber_mutex_init(); kfiber_create2(SEL(0), cr_main, NULL, 0, 0, NULL); rt_wait(2 * CROWD + 1);
	rt_settle(50); kfiber_mutex_destroy(mx); rt_check_released("crowd"); kmc_end();
}
/* limits of every size: as many holders get in as there are, up to the limit */
GHOST static int ml_in, ml_limit; static int ml_body(void *, int) { CHECK(kfiber_mutex_lock(mx) == 0, "lock failed"); ml_in++; CHECK(ml_in <= ml_limit, "%d holders of %d", ml_in, ml_limit); kfiber_msleep(2); ml_in--; kfiber_mutex_unlock(mx); return 0; }
static int ml_main(void *, int) {
	static const int L[] = { 1, 2, 3, 127, 128, 130, 255, 256, 257, 32767, 32768, 32770, 65535, 65536, 65537, 16777216, 2147483647 };
	for (int i = 0; i < 17; i++) for (int again = 0; again < 2; again++) { /* raised with nobody in, and while one waits */
		ml_limit = L[i]; int want = L[i] < 6 ? L[i] : 6; kfiber_mutex_set_limit(mx, again ? 1 : L[i]); for (int k = 0; k < 6; k++) kfiber_create(ml_body, NULL, 0, 4096, NULL); if (again) { CHECK(ml_in == 1, "%d holders of 1", ml_in); kfiber_mutex_set_limit(mx, L[i]); kfiber_msleep(1); }
		CHECK(ml_in == want, "%d of 6 fibers got in, the limit is %d", ml_in, L[i]); CHECK(kfiber_mutex_get_limit(mx) == L[i], "limit %d instead of %d", kfiber_mutex_get_limit(mx), L[i]); CHECK(kfiber_mutex_get_worker(mx) == want, "%d holders counted", kfiber_mutex_get_worker(mx)); CHECK((kfiber_mutex_try_lock(mx, L[i]) == 0) == (L[i] > want), "try-lock of %d with %d inside", L[i], want); if (L[i] > want) kfiber_mutex_unlock(mx);
		for (int k = 0; k < 30; k++) kfiber_msleep(2); CHECK(ml_in == 0 && kfiber_mutex_get_worker(mx) == 0, "%d left inside", ml_in);
	}
	kfiber_mutex_set_limit(mx, 1); rt_done(); return 0;
}
SCEN(limits, B({0,0}), B({0,0}), 200000, 1, 0) { rt_start(1); rt_mark(); mx = kfiber_mutex_init(); kfiber_create2(SEL(0), ml_main, NULL, 0, 0, NULL); rt_wait(1); rt_settle(50); kfiber_mutex_destroy(mx); rt_check_released("mutex"); kmc_end(); }
/* holders and waiters are there already; holders release while others arrive and the limit changes */
GHOST static int lt_held; static int lt_long; static kfiber_cond *leave; static int lt_at(void *p) { return lt_held >= (int)(long)p; }
static void lt_in(void) { in_cs++; entered++; if (in_cs > max_in) max_in = in_cs; CHECK(in_cs <= lim_now, "%d fibers inside, the limit was never above %d", in_cs, lim_now); }
static int lt_hold(void *, int) { int got; CHECK(kfiber_mutex_lock(mx) == 0, "lock failed"); lt_in(); lt_held++; leave->f->wait(leave, &got); in_cs--; kfiber_mutex_unlock(mx); rt_done(); return 0; }
static int lt_come(void *, int tm) { if (tm && kfiber_mutex_try_lock(mx, tm) != 0) { rejected++; rt_done(); return 0; } if (!tm) CHECK(kfiber_mutex_lock(mx) == 0, "lock failed"); lt_in(); int v = shared_v; if (lt_long) fiber_yield(); else kmc_yield(); if (lim_now == 1) CHECK(v == shared_v, "another holder changed the protected data"); shared_v = v + 1; in_cs--; kfiber_mutex_unlock(mx); rt_done(); return 0; }
static void late(int holders, int waiters, int arrivals, int tm, int lim, int to) {
	rt_start(3); kmc_explore(0); rt_mark(); lim_now = to > lim ? to : lim; mx = kfiber_mutex_init2(lim); leave = kfiber_cond_init_ts(false);
	for (int i = 0; i < holders; i++) kfiber_create2(SEL(i), lt_hold, NULL, 0, 0, NULL); kmc_wait_until(lt_at, (void *)(long)holders);
	for (int i = 0; i < waiters; i++) { kfiber_create2(SEL(1), lt_come, NULL, 0, 0, NULL); usleep(1000); }
	CHECK(in_cs == holders, "%d of %d inside", in_cs, holders); kmc_explore(1); if (!lt_long) leave->f->notice(leave, 1); for (int i = 0; i < arrivals; i++) kfiber_create2(SEL(2), lt_come, NULL, tm, 0, NULL); if (to) kfiber_mutex_set_limit(mx, to); if (lt_long) leave->f->notice(leave, 1);
	int n = holders + waiters + arrivals; rt_wait(n); CHECK(entered + rejected == n && (tm || !rejected), "entered %d", entered); CHECK(kfiber_mutex_get_count(mx) == 0 && kfiber_mutex_get_worker(mx) == 0, "count %d workers %d left", kfiber_mutex_get_count(mx), kfiber_mutex_get_worker(mx));
	CHECK(kfiber_mutex_get_limit(mx) == (to ? to : lim), "limit %d", kfiber_mutex_get_limit(mx)); rt_settle(100); kfiber_mutex_destroy(mx); leave->f->release(leave); rt_check_released("mutex"); kmc_outcome("max=%d rej=%d", max_in, rejected); kmc_end();
}
SCEN(late_1_1_1, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late(1, 1, 1, 0, 1, 0); }
SCEN(late_1_1_try, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late(1, 1, 1, 1, 1, 0); }
SCEN(late_raised, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late(1, 2, 0, 0, 1, 2); }
SCEN(late_raised_more, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 3000, 0, 0) { late(1, 3, 1, 0, 1, 3); }
SCEN(late_lowered, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 3000, 0, 0) { late(2, 2, 1, 0, 2, 1); }
SCEN(late_limit2, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 3000, 0, 0) { late(2, 1, 1, 0, 2, 0); }
SCEN(late_raised_long, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 3000, 0, 0) { lt_long = 1; late(1, 1, 1, 0, 1, 2); }
SCEN(late_raised_long3, B({0,0},{1,0},{2,0}), B({3,0}), 3000, 0, 0) { lt_long = 1; late(1, 2, 2, 0, 1, 3); }
SCEN(late_lowered_long, B({0,0},{1,0},{2,0}), B({3,0}), 3000, 0, 0) { lt_long = 1; late(2, 2, 1, 0, 2, 1); }
/* the last to hold it destroys it as soon as it has let go, while the one before may still be on its way out of its unlock */
GHOST static int ls_in, ls_gone, ls_n; static int ls_user(void *, int) { CHECK(kfiber_mutex_lock(mx) == 0, "lock"); CHECK(!ls_gone, "locked after it was destroyed"); bool last = ++ls_in == ls_n; kfiber_mutex_unlock(mx); if (last) { kfiber_mutex_destroy(mx); ls_gone = 1; } rt_done(); return 0; }
static void last(int sels, int n) { rt_start(sels); rt_mark(); mx = kfiber_mutex_init(); ls_n = n; for (int i = 0; i < n; i++) kfiber_create2(SEL(i % sels), ls_user, NULL, 0, 0, NULL); rt_wait(n); rt_settle(50); CHECK(ls_gone == 1, "destroyed %d times", ls_gone); rt_check_released("mutex"); kmc_end(); }
SCEN(last_destroys, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 0, 0) { last(2, 2); }
SCEN(last_destroys_3, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 20000, 0, 0) { last(3, 3); }
SCEN(last_destroys_2on1, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 0, 0) { last(2, 4); }
