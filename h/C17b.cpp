// ENGINE: -DMAXT=60 -DREGION_MB=16
/* thread pool with many threads: none of a crowd of functions waits behind another, all threads are used again, counts and flush agree */
#include "common.h"
#define N 56
GHOST static int ran[N], hold[N], fin; GHOST static pthread_t who[N];
static int unheld(void *p) { return !hold[(long)p]; } static int fin_at(void *p) { return fin >= (int)(long)p; }
static KTHREAD_FUNCTION task(void *p) { long i = (long)p; ran[i]++; CHECK(ran[i] == 1, "function %ld ran %d times", i, ran[i]); who[i] = pthread_self(); kmc_wait_until(unheld, (void *)i); fin++; KTHREAD_RETURN; }
static void counts(int w, int f, const char *at) { int a, b; kthread_get_count(&a, &b); CHECK(a == w && b == f, "%s: %d working and %d free threads, %d and %d expected", at, a, b, w, f); }
static void go(int n) { for (long i = 0; i < n; i++) { ran[i] = 0; hold[i] = 1; } fin = 0; for (long i = 0; i < n; i++) { CHECK(kthread_pool_start(task, (void *)i), "start"); rt_settle(5); CHECK(ran[i] == 1, "function %ld waits behind another", i); } }
static void end(int n) { for (int i = 0; i < n; i++) hold[i] = 0; kmc_wait_until(fin_at, (void *)(long)n); rt_settle(10); }
SCEN(many_threads, B({0,0}), B({0,0}), 9000000, 0, 0) {
	kmc_explore(0); kthread_init(); rt_mark(); size_t base = kmc_live_allocs();
	for (int n = 4; n <= N; n += 13) { go(n); counts(n, 0, "all at work"); end(n); counts(0, n, "all free"); }
	go(N); counts(N, 0, "again"); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) CHECK(who[i] != who[j], "two functions at once on one thread"); end(N); counts(0, N, "again free"); CHECK(kmc_live_allocs() == base + N, "%d threads exist for %d functions", (int)(kmc_live_allocs() - base), N);
	usleep(62000000); kthread_flush(40); rt_settle(10); counts(0, 40, "flush down to 40"); kthread_flush(3); rt_settle(10); counts(0, 3, "flush down to 3");
	kthread_close_all_free(); rt_check_released("thread pool"); counts(0, 0, "at the end"); kmc_end();
}
