/* fiber read/write lock: one writer or any number of readers, everybody eventually gets in, no reader
 * overtakes a waiting writer, the lock is free when all have left. */
#include "common.h"
GHOST static int readers, writers, wdone, rdone, wwaiting, maxr; GHOST static int data;
static kfiber_rwlock *rw; static int iters, yields;
static void pause_(void) { if (yields) fiber_yield(); else kmc_yield(); }
static int rd(void *, int) {
	for (int i = 0; i < iters; i++) {
		CHECK(kfiber_rwlock_rlock(rw) == 0, "rlock failed");
		readers++; if (readers > maxr) maxr = readers; CHECK(writers == 0, "reader inside together with a writer");
		int v = data; pause_(); CHECK(v == data && writers == 0, "data changed under a reader");
		readers--; rdone++; kfiber_rwlock_runlock(rw);
	}
	rt_done(); return 0;
}
static int wr(void *, int) {
	for (int i = 0; i < iters; i++) {
		CHECK(kfiber_rwlock_wlock(rw) == 0, "wlock failed");
		writers++; CHECK(writers == 1 && readers == 0, "writer inside with %d writers %d readers", writers, readers);
		int v = data; pause_(); CHECK(v == data && writers == 1 && readers == 0, "writer not alone"); data = v + 1;
		writers--; wdone++; kfiber_rwlock_wunlock(rw);
	}
	rt_done(); return 0;
}
static void go(int sels, const char *who, int it, int y) {
	rt_start(sels); rt_mark(); rw = kfiber_rwlock_init(); iters = it; yields = y; int n = (int)strlen(who), nw = 0;
	for (int i = 0; i < n; i++) { if (who[i] == 'w') nw++; kfiber_create2(SEL(i), who[i] == 'w' ? wr : rd, NULL, 0, 0, NULL); }
	rt_wait(n);
	CHECK(wdone == nw * it && rdone == (n - nw) * it && data == wdone, "writers %d readers %d data %d", wdone, rdone, data);
	rt_settle(100); kfiber_rwlock_destroy(rw); rt_check_released("rwlock"); kmc_outcome("maxr=%d", maxr); kmc_end();
}
SCEN(wr_rd_2sel, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, "wr", 2, 0); }
SCEN(wrrw, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, "wrrw", 1, 0); }
SCEN(wrrr_yield, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, "wrrr", 1, 1); }
SCEN(rwrw_yield, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(2, "rwrw", 1, 1); }
SCEN(wwr_3sel, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(3, "wwr", 1, 0); }
SCEN(rrw_3sel, B({0,0},{1,0},{2,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(3, "rrw", 1, 0); }
SCEN(wrr_same_sel, B({0,0},{1,0},{2,0},{3,0}), B({2,0},{3,0},{4,0}), 3000, 0, 0) { go(1, "wrr", 1, 1); }
SCEN(wrwr_2iter, B({0,0},{1,0},{2,0}), B({2,0},{3,0}), 3000, 0, 0) { go(2, "wrwr", 2, 1); }
/* a reader that arrives while a writer waits does not overtake it */
GHOST static int stage, order[4], no;
static int r_first(void *, int) { kfiber_rwlock_rlock(rw); stage = 1; while (stage < 3) kfiber_msleep(1); kfiber_rwlock_runlock(rw); rt_done(); return 0; }
static int w_second(void *, int) { while (stage < 1) kfiber_msleep(1); stage = 2; kfiber_rwlock_wlock(rw); order[no++] = 'w'; kfiber_rwlock_wunlock(rw); rt_done(); return 0; }
static int r_third(void *, int) { while (stage < 2) kfiber_msleep(1); stage = 3; kfiber_rwlock_rlock(rw); order[no++] = 'r'; kfiber_rwlock_runlock(rw); rt_done(); return 0; }
SCEN(writer_not_overtaken, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) {
	rt_start(1); rt_mark(); rw = kfiber_rwlock_init(); kfiber_create2(SEL(0), r_first, NULL, 0, 0, NULL); kfiber_create2(SEL(0), w_second, NULL, 0, 0, NULL); kfiber_create2(SEL(0), r_third, NULL, 0, 0, NULL);
	rt_wait(3); CHECK(no == 2 && order[0] == 'w' && order[1] == 'r', "reader overtook a waiting writer"); rt_settle(100); kfiber_rwlock_destroy(rw); rt_check_released("rwlock"); kmc_end();
}
/* a crowd of readers at once, then a crowd of writers behind them */
#define CROWD 300
GHOST static int cr_r, cr_w, cr_rn, cr_wn, cr_mr;
static int cr_rd(void *, int) { CHECK(kfiber_rwlock_rlock(rw) == 0, "rlock failed"); cr_r++; cr_rn++; if (cr_r > cr_mr) cr_mr = cr_r; CHECK(cr_w == 0, "reader beside a writer"); kfiber_msleep(30); CHECK(cr_w == 0, "writer beside readers"); cr_r--; kfiber_rwlock_runlock(rw); rt_done(); return 0; }
static int cr_wr(void *, int) { CHECK(kfiber_rwlock_wlock(rw) == 0, "wlock failed"); cr_w++; cr_wn++; CHECK(cr_w == 1 && cr_r == 0, "writer beside %d readers, %d writers", cr_r, cr_w - 1); fiber_yield(); CHECK(cr_w == 1 && cr_r == 0, "writer not alone"); cr_w--; kfiber_rwlock_wunlock(rw); rt_done(); return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) {
	rt_start(2); rt_mark(); rw = kfiber_rwlock_init(); kmc_explore(0);
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1), cr_rd, NULL, 0, 4096, NULL);
	usleep(5000); CHECK(cr_r == CROWD, "%d of %d readers in", cr_r, CROWD);
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1), cr_wr, NULL, 0, 4096, NULL);
	usleep(2000); CHECK(cr_wn == 0, "a writer got in"); rt_wait(2 * CROWD); CHECK(cr_rn == CROWD && cr_wn == CROWD, "%d readers %d writers", cr_rn, cr_wn);
	rt_settle(100); kfiber_rwlock_destroy(rw); rt_check_released("crowd"); kmc_end();
}
/* holders and waiters are there already; the holders release while others arrive */
GHOST static int held; static kfiber_cond *leave; static int holder_at(void *p) { return held >= (int)(long)p; }
static int rd_hold(void *, int) { int got; CHECK(kfiber_rwlock_rlock(rw) == 0, "rlock failed"); readers++; CHECK(writers == 0, "reader inside together with a writer"); held++; leave->f->wait(leave, &got); CHECK(writers == 0, "writer beside a reader"); readers--; rdone++; kfiber_rwlock_runlock(rw); rt_done(); return 0; }
static int wr_hold(void *, int) { int got; CHECK(kfiber_rwlock_wlock(rw) == 0, "wlock failed"); writers++; CHECK(writers == 1 && readers == 0, "writer not alone"); held++; leave->f->wait(leave, &got); CHECK(writers == 1 && readers == 0, "writer not alone"); data++; writers--; wdone++; kfiber_rwlock_wunlock(rw); rt_done(); return 0; }
static void late(const char *holders, const char *waiters, const char *arrivals) {
	rt_start(3); kmc_explore(0); rt_mark(); rw = kfiber_rwlock_init(); leave = kfiber_cond_init_ts(false); iters = 1; int n = 0, nw = 0; const char *p;
	for (p = holders; *p; p++, n++) nw += *p == 'w', kfiber_create2(SEL(p - holders), *p == 'w' ? wr_hold : rd_hold, NULL, 0, 0, NULL);
	kmc_wait_until(holder_at, (void *)(long)n);
	for (p = waiters; *p; p++, n++) nw += *p == 'w', kfiber_create2(SEL(1), *p == 'w' ? wr : rd, NULL, 0, 0, NULL), usleep(1000);
	usleep(1000); kmc_explore(1); leave->f->notice(leave, 1);
	for (p = arrivals; *p; p++, n++) nw += *p == 'w', kfiber_create2(SEL(2), *p == 'w' ? wr : rd, NULL, 0, 0, NULL);
	rt_wait(n); CHECK(wdone == nw && rdone == n - nw && data == wdone, "%d of %d writers, %d of %d readers, data %d", wdone, nw, rdone, n - nw, data);
	rt_settle(100); kfiber_rwlock_destroy(rw); leave->f->release(leave); rt_check_released("rwlock"); kmc_outcome("maxr=%d", maxr); kmc_end();
}
SCEN(late_w_w_w, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("w", "w", "w"); }
SCEN(late_w_ww_r, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("w", "ww", "r"); }
SCEN(late_w_r_wr, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("w", "r", "wr"); }
SCEN(late_r_w_w, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("r", "w", "w"); }
SCEN(late_rr_w_r, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("rr", "w", "r"); }
SCEN(late_rr_wr_w, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0}), 3000, 0, 0) { late("rr", "wr", "w"); }
SCEN(late_w_rw_r, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { late("w", "rw", "r"); }
/* a writer that knows itself the last destroys the lock as soon as it has let go, while those before may still be on their way out of their unlock */
GHOST static int ls_in, ls_gone, ls_n; static int ls_w(void *, int) { kfiber_rwlock_wlock(rw); CHECK(!ls_gone, "locked after it was destroyed"); bool last = ++ls_in == ls_n; kfiber_rwlock_wunlock(rw); if (last) { kfiber_rwlock_destroy(rw); ls_gone = 1; } rt_done(); return 0; }
static int ls_r(void *, int) { kfiber_rwlock_rlock(rw); CHECK(!ls_gone, "locked after it was destroyed"); ls_in++; kfiber_rwlock_runlock(rw); rt_done(); return 0; }
static void last(int r, int w) { rt_start(3); rt_mark(); rw = kfiber_rwlock_init(); ls_n = r + w; for (int i = 0; i < r + w; i++) kfiber_create2(SEL(i % 3), i < r ? ls_r : ls_w, NULL, 0, 0, NULL); rt_wait(r + w); rt_settle(50); if (!ls_gone) kfiber_rwlock_destroy(rw); rt_check_released("rwlock"); kmc_outcome("%d", ls_gone); kmc_end(); }
SCEN(last_destroys_ww, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 0, 0) { last(0, 2); }
SCEN(last_destroys_rw, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 0, 0) { last(1, 1); }
SCEN(last_destroys_rrw, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 20000, 0, 0) { last(2, 1); }
SCEN(last_destroys_rww, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 20000, 0, 0) { last(1, 2); }
