// ENGINE: -DMAXT=60 -DREGION_MB=16
/* work queue with many workers: exactly as many requests run at once as the limit says, the others in order as workers become free */
#include "common.h"
#define N 120
GHOST static int ran[N], nran, hold[N], running, maxw, fin; static kasync_worker *w;
static int unheld(void *p) { return !hold[(long)p]; }
static kev_result job(void *d, int msec) { long i = (long)d; CHECK(msec >= 0, "reported as not run"); CHECK(++ran[i] == 1, "request %ld ran %d times", i, ran[i]); CHECK(i == nran, "request %ld ran as number %d", i, nran); nran++; running++; CHECK(running <= maxw, "%d run at once, limit %d", running, maxw); kmc_wait_until(unheld, (void *)i); running--; fin++; return kev_ok; }
SCEN(many_workers, B({0,0}), B({0,0}), 9000000, 0, 0) {
	kmc_explore(0); kthread_init(); rt_mark(); static const int W[] = { 15, 16, 17, 31, 33, 50, 56 };
	for (int k = 0; k < 7; k++) {
		maxw = W[k]; w = kasync_worker_init(maxw, 0); nran = fin = 0; int n = maxw + 60; for (long i = 0; i < n; i++) ran[i] = 0, hold[i] = 1;
		for (long i = 0; i < n; i++) { CHECK(kasync_worker_will_wait(w) == (i >= maxw), "will_wait() wrong with %ld", i); CHECK(kasync_worker_try_start(w, (void *)i, job, false), "refused"); rt_settle(1); CHECK(running == (i < maxw ? i + 1 : maxw), "%d run, %ld were asked for, limit %d", running, i + 1, maxw); }
		for (int i = 0; i < n; i++) { hold[i] = 0; rt_settle(1); int left = n - i - 1, want = left < maxw ? left : maxw; CHECK(running == want && fin == i + 1, "%d run instead of %d after %d ended", running, want, i + 1); }
		kasync_worker_release(w);
	}
	usleep(1000); kthread_close_all_free(); rt_check_released("work queue"); kmc_end();
}
