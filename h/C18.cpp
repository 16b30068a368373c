/* work queue (kasync_worker): every accepted request runs once, at most max_worker at a time, waiting ones in order (urgent first) */
#include "common.h"
#define NR 24
GHOST static int ran[NR], accepted, finished, running, peak, order[NR], nord, hold[NR]; GHOST static int maxw;
static int all_fin(void *) { return finished >= accepted; }
static int unheld(void *p) { return !hold[(int)(long)p]; }
static kev_result job(void *d, int msec) { int id = (int)(long)d - 50; CHECK(id >= 0 && id < NR, "wrong data"); CHECK(msec >= 0, "reported as not run"); CHECK(++ran[id] == 1, "request %d ran %d times", id, ran[id]); order[nord++] = id; running++; if (running > peak) peak = running; CHECK(running <= maxw, "%d requests run at once, limit %d", running, maxw); kmc_yield(); if (hold[id]) kmc_wait_until(unheld, (void *)(long)id); running--; finished++; return kev_ok; }
static kasync_worker *w;
static void begin(int mw, int mq) { kmc_explore(0); kthread_init(); rt_mark(); maxw = mw; w = kasync_worker_init(mw, mq); kmc_explore(1); }
static bool tr(int id, bool high) { accepted++; bool ok = kasync_worker_try_start(w, (void *)(long)(id + 50), job, high); if (!ok) accepted--; return ok; }
static void st(int id) { accepted++; kasync_worker_start(w, (void *)(long)(id + 50), job); }
static void finish(bool rel) { kmc_wait_until(all_fin, 0); kmc_explore(0); usleep(1000); if (rel) { CHECK(kasync_worker_empty(w), "not empty after everything ran"); CHECK(!kasync_worker_will_wait(w), "still no worker free"); kasync_worker_release(w); } kthread_close_all_free(); rt_check_released("work queue"); kmc_outcome("%d", peak); kmc_end(); }
/* producers on several threads; the queue is released while requests wait */
static int per, useStart, early; static void *prod(void *a) { int s = (int)(long)a; for (int i = 0; i < per; i++) { if (useStart) st(s * 8 + i); else CHECK(tr(s * 8 + i, i & 1), "refused"); } kasync_worker_release(w); rt_done(); return 0; }
static void burst(int producers, int n, int mw, int us, int mq) { begin(mw, mq); per = n; useStart = us; for (int i = 0; i < producers; i++) { kasync_worker_refs(w); pthread_t t; pthread_create(&t, 0, prod, (void *)(long)i); pthread_detach(t); } if (early) kasync_worker_release(w); rt_wait(producers); for (int s = 0; s < producers; s++) kmc_wait_until(all_fin, 0); for (int s = 0; s < producers; s++) for (int i = 0; i < n; i++) CHECK(ran[s * 8 + i] == 1, "request %d ran %d times", s * 8 + i, ran[s * 8 + i]); finish(!early); }
SCEN(burst_w1, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { burst(2, 2, 1, 0, 0); }
SCEN(burst_w2, B({0,0},{1,0},{2,0}), B({3,0}), 200000, 0, 0) { burst(2, 2, 2, 0, 0); }
SCEN(burst_w3, B({0,0},{1,0},{2,0}), B({3,0}), 200000, 0, 0) { burst(1, 4, 3, 0, 0); }
SCEN(release_early, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { early = 1; burst(2, 2, 1, 0, 0); }
SCEN(start_waits, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { burst(2, 2, 1, 1, 1); }
SCEN(start_waits_spurious, B({0,0},{1,1}), B({2,1},{2,2}), 200000, 0, KMC_F_SPURIOUS) { burst(1, 4, 1, 1, 1); }
/* the limit changes; requests submit requests */
static kev_result nestjob(void *d, int msec) { int id = (int)(long)d; CHECK(++ran[id] == 1, "request %d ran %d times", id, ran[id]); running++; CHECK(running <= maxw, "%d run at once, limit %d", running, maxw); if (id < 3) { accepted++; CHECK(kasync_worker_try_start(w, (void *)(long)(id + 1), nestjob, false), "refused"); } kmc_yield(); running--; finished++; return kev_ok; }
SCEN(nested, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { begin(2, 0); accepted = 1; CHECK(kasync_worker_try_start(w, (void *)0L, nestjob, false), "refused"); CHECK(tr(10, true), "refused"); kmc_wait_until(all_fin, 0); for (int i = 0; i < 4; i++) CHECK(ran[i] == 1, "request %d ran %d times", i, ran[i]); finish(true); }
/* no thread can be created */
SCEN(fails, B({0,0},{0,1},{1,1},{1,2},{2,2}), B({2,3},{3,3}), 200000, 0, KMC_F_THREADFAIL) { begin(2, 0); bool ok[4]; for (int i = 0; i < 4; i++) { ok[i] = tr(i, i == 2); if (i == 1) kmc_wait_until(all_fin, 0); } kmc_wait_until(all_fin, 0); kmc_explore(0); usleep(100); for (int i = 0; i < 4; i++) CHECK(ran[i] == ok[i], "request %d ran %d times, accepted %d", i, ran[i], ok[i]); finish(true); }
SCEN(fails_start, B({0,0},{0,1},{1,1},{1,2},{2,2}), B({2,3},{3,3}), 200000, 0, KMC_F_THREADFAIL) { begin(2, 1); for (int i = 0; i < 4; i++) { st(i); if (i == 1) kmc_wait_until(all_fin, 0); } kmc_wait_until(all_fin, 0); for (int i = 0; i < 4; i++) CHECK(ran[i] == 1, "request %d ran %d times", i, ran[i]); finish(true); }
/* every history against a model: which run, which wait and in what order, which are refused */
GHOST static int blk_back; static void *blk(void *a) { st((int)(long)a); blk_back++; return 0; }
static void history(int n, int mw, int mq) {
	begin(mw, mq); int next = 0, run[NR], nr = 0, q[NR], nq = 0; bool qb[NR]; char h[20]; int back = 0;
	for (int i = 0; i < n; i++) {
		int o = kmc_choose(5); h[i] = "thsEe"[o]; h[i + 1] = 0;
		if (o < 2) { hold[next] = 1; bool ok = tr(next, o == 1); CHECK(ok == !(mq > 0 && nq > mq), "request %s with %d waiting, limit %d (%s)", ok ? "accepted" : "refused", nq, mq, h); if (ok) { if (nr < mw) run[nr++] = next; else if (o == 1) { memmove(q + 1, q, sizeof(int) * nq); memmove(qb + 1, qb, nq); q[0] = next; qb[0] = 0; nq++; } else { q[nq] = next; qb[nq++] = 0; } } next++; }
		else if (o == 2) { hold[next] = 1; pthread_t t; pthread_create(&t, 0, blk, (void *)(long)next); pthread_detach(t); rt_settle(1); kmc_explore(1); if (nr < mw) { run[nr++] = next; back++; } else { bool b = mq > 0 && nq > mq; q[nq] = next; qb[nq++] = b; if (!b) back++; } next++; }
		else if (nr) { int k = o == 3 ? 0 : nr - 1; hold[run[k]] = 0; for (int j = k; j + 1 < nr; j++) run[j] = run[j + 1]; nr--; if (nq) { run[nr++] = q[0]; if (qb[0]) back++; memmove(q, q + 1, sizeof(int) * (nq - 1)); memmove(qb, qb + 1, nq - 1); nq--; } }
		rt_settle(1); kmc_explore(1);
		CHECK(running == nr, "%d requests run, %d expected (%s)", running, nr, h);
		for (int j = 0; j < nr; j++) CHECK(ran[run[j]] == 1, "request %d does not run though it is its turn (%s)", run[j], h);
		for (int j = 0; j < nq; j++) CHECK(ran[q[j]] == 0, "request %d runs before its turn (%s)", q[j], h);
		CHECK(kasync_worker_empty(w) == (nq == 0), "empty() wrong with %d waiting (%s)", nq, h); CHECK(kasync_worker_will_wait(w) == (nr >= mw), "will_wait() wrong with %d running (%s)", nr, h);
		CHECK(blk_back == back, "%d calls returned, %d expected (%s)", blk_back, back, h);
	}
	for (int i = 0; i < NR; i++) hold[i] = 0; finish(true);
}
SCEN(history_1_0, B({0,0}), B({0,0}), 900000, 0, KMC_F_SEQ) { history(7, 1, 0); }
SCEN(history_1_1, B({0,0}), B({0,0}), 900000, 0, KMC_F_SEQ) { history(7, 1, 1); }
SCEN(history_2_1, B({0,0}), B({0,0}), 900000, 0, KMC_F_SEQ) { history(8, 2, 1); }
SCEN(history_long, B({-1,-1}), B({0,0}), 900000, 0, KMC_F_SEQ) { history(9, 2, 2); }
/* one function on a thread of its own */
GHOST static int ts; static kev_result tsf(void *d, int msec) { CHECK((long)d == 77, "wrong data"); ts++; rt_done(); return kev_ok; }
SCEN(thread_start, B({0,0},{1,1},{2,2}), B({3,2}), 200000, 0, KMC_F_THREADFAIL) { begin(1, 0); int ok = 0; for (int i = 0; i < 2; i++) ok += kasync_worker_thread_start((void *)77L, tsf); rt_wait(ok); kmc_explore(0); usleep(100); CHECK(ts == ok, "ran %d times, %d accepted", ts, ok); finish(true); }
/* a crowd of requests waits behind two long ones */
#define CROWD 600
GHOST static int cr_ran[CROWD], cr_hold, cr_run, cr_seq;
static int cr_all(void *) { return finished >= accepted; } static int cr_open(void *) { return !cr_hold; }
static kev_result cr_job(void *d, int msec) { int id = (int)(long)d; CHECK(id >= 0 && id < CROWD && ++cr_ran[id] == 1, "request %d ran twice", id); CHECK(++cr_run <= 2, "%d run at once, limit 2", cr_run); if (cr_hold) kmc_wait_until(cr_open, 0); else if (id < CROWD - 50) { CHECK(id >= cr_seq - 2, "request %d runs after %d", id, cr_seq); if (id > cr_seq) cr_seq = id; } else CHECK(cr_seq <= 4, "an urgent request waited for %d others", cr_seq); cr_run--; finished++; return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{1,0}), 200000, 1, 0) {
	begin(2, 0); cr_hold = 1; for (int i = 0; i < CROWD; i++) { accepted++; CHECK(kasync_worker_try_start(w, (void *)(long)i, cr_job, i >= CROWD - 50), "refused"); if (i < 2) usleep(1000); }
	usleep(1000); CHECK(cr_run == 2, "%d run", cr_run); cr_hold = 0; kmc_wait_until(cr_all, 0); for (int i = 0; i < CROWD; i++) CHECK(cr_ran[i] == 1, "request %d ran %d times", i, cr_ran[i]); finish(true);
}
/* running, waiting and blocked requests settled first; then runners end, requests arrive, and the queue is let go of, together */
static void *one(void *a) { int id = (int)(long)a & 31; if (id >= 16) st(id); else CHECK(tr(id, id & 1), "refused"); kasync_worker_release(w); rt_done(); return 0; }
static void arrive(int id) { kasync_worker_refs(w); pthread_t t; CHECK(pthread_create(&t, 0, one, (void *)(long)id) == 0, "thread"); pthread_detach(t); }
static void late(int mw, int mq, int runs, int waits, int blocked, int free_, int arr, bool early_) {
	begin(mw, mq); kmc_explore(0); int id = 0; for (int i = 0; i < runs; i++) { hold[id] = 1; CHECK(tr(id++, false), "refused"); usleep(1000); } for (int i = 0; i < waits; i++) CHECK(tr(id++, false), "refused"); usleep(1000); for (int i = 0; i < blocked; i++) arrive(16 + i); usleep(1000); CHECK(running == (runs < mw ? runs : mw), "%d run", running);
	kmc_explore(1); for (int i = 0; i < free_; i++) hold[i] = 0; for (int i = 0; i < arr; i++) arrive(i || mq ? 20 : 10); if (early_) kasync_worker_release(w); rt_wait(blocked + arr); kmc_explore(0); for (int i = 0; i < runs; i++) hold[i] = 0; kmc_wait_until(all_fin, 0); for (int i = 0; i < NR; i++) CHECK(ran[i] == (i < id || (i >= 16 && i < 16 + blocked) || (arr > 0 && i == (mq ? 20 : 10)) || (arr > 1 && i == 20)), "request %d ran %d times", i, ran[i]); finish(!early_);
}
#define LATE(id, ...) SCEN(id, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 200000, 1, 0) { late(__VA_ARGS__); }
LATE(late_end_arrive, 1, 0, 1, 1, 0, 1, 2, false)
LATE(late_ends_arrive, 2, 0, 2, 1, 0, 2, 1, false)
LATE(late_blocked, 1, 1, 1, 2, 1, 1, 1, false)
LATE(late_blocked2, 1, 1, 1, 2, 2, 1, 0, true)
LATE(late_release, 2, 0, 2, 0, 0, 2, 1, true)
LATE(late_idle, 2, 0, 1, 0, 0, 1, 2, true)
