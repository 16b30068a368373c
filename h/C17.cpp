/* thread pool: every function accepted runs exactly once with its argument; ended threads wait to be reused, for at most a minute
 * (kthread_flush) or until all are dismissed; counts are right; nothing is lost in any schedule */
#include "common.h"
GHOST static int ran[32], fin[32], hold[32], accepted, finished; GHOST static pthread_t who[32]; GHOST static int nthr; GHOST static pthread_t thr[32];
static int all_fin(void *) { return finished >= accepted; }
static int unheld(void *p) { return !hold[(int)(long)p]; }
static KTHREAD_FUNCTION task(void *p) { int id = (int)(long)p - 7; CHECK(id >= 0 && id < 32, "wrong argument %d", id + 7); ran[id]++; CHECK(ran[id] == 1, "function %d ran %d times", id, ran[id]); who[id] = pthread_self(); int f = 0; for (int i = 0; i < nthr; i++) if (thr[i] == who[id]) f = 1; if (!f) thr[nthr++] = who[id]; kmc_yield(); if (hold[id]) kmc_wait_until(unheld, (void *)(long)id); fin[id] = 1; finished++; KTHREAD_RETURN; }
static bool start(int id) { bool ok = kthread_pool_start(task, (void *)(long)(id + 7)); if (ok) accepted++; return ok; }
static void counts(int w, int f, const char *at) { int a, b; kthread_get_count(&a, &b); CHECK(a == w && b == f, "%s: %d working and %d free threads, %d and %d expected", at, a, b, w, f); }
static void begin(void) { kmc_explore(0); kthread_init(); kmc_explore(1); rt_mark(); }
static void quiet(void) { kmc_wait_until(all_fin, 0); rt_settle(10); }
static void end_all(int maxthr) {
	quiet(); int a, b; kthread_get_count(&a, &b); CHECK(a == 0, "%d threads still counted as working", a); CHECK(b <= maxthr && b == nthr, "%d free threads, %d were used, at most %d needed", b, nthr, maxthr);
	kthread_close_all_free(); rt_check_released("thread pool"); counts(0, 0, "at the end"); kmc_outcome("%d", b); kmc_end();
}
/* several threads submit at once */
static int per; static void *starter(void *a) { int s = (int)(long)a; for (int i = 0; i < per; i++) CHECK(start(s * 8 + i), "start failed"); rt_done(); return 0; }
static void burst(int starters, int n) { begin(); per = n; for (int i = 0; i < starters; i++) { pthread_t t; pthread_create(&t, 0, starter, (void *)(long)i); pthread_detach(t); } rt_wait(starters); for (int s = 0; s < starters; s++) quiet(); for (int s = 0; s < starters; s++) for (int i = 0; i < n; i++) CHECK(ran[s * 8 + i] == 1, "function %d ran %d times", s * 8 + i, ran[s * 8 + i]); end_all(starters * n); }
SCEN(burst_2x2, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 200000, 0, 0) { burst(2, 2); }
SCEN(burst_3x1, B({0,0},{1,0},{2,0}), B({3,0}), 200000, 0, 0) { burst(3, 1); }
SCEN(burst_1x3, B({0,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { burst(1, 3); }
/* functions submit functions; a thread becomes free while others look for one */
GHOST static int chain; static KTHREAD_FUNCTION nest(void *p) { int d = (int)(long)p; ran[d]++; finished++; if (d < chain) { accepted++; CHECK(kthread_pool_start(nest, (void *)(long)(d + 1)), "start"); } int f = 0; for (int i = 0; i < nthr; i++) if (thr[i] == pthread_self()) f = 1; if (!f) thr[nthr++] = pthread_self(); KTHREAD_RETURN; }
SCEN(nested, B({0,0},{2,0},{3,0}), B({4,0},{5,0}), 200000, 0, 0) { begin(); chain = 4; accepted++; CHECK(kthread_pool_start(nest, (void *)1L), "start"); CHECK(start(20), "start"); quiet(); for (int i = 1; i <= 4; i++) CHECK(ran[i] == 1, "function %d ran %d times", i, ran[i]); CHECK(ran[20] == 1, "function ran %d times", ran[20]); end_all(5); }
/* dismissing free threads while others are started and end */
static void *closer(void *a) { if ((long)a) kthread_close_all_free(); else kthread_flush(0); kmc_yield(); if ((long)a) kthread_close_all_free(); rt_done(); return 0; }
static void close_race(int fl) { begin(); int age = fl ? 0 : 1; CHECK(start(0) && start(1), "start"); quiet(); if (age) { kmc_explore(0); usleep(62000000); } kmc_explore(1); pthread_t t; pthread_create(&t, 0, closer, (void *)(long)fl); pthread_detach(t); CHECK(start(2), "start"); kmc_yield(); CHECK(start(3), "start"); rt_wait(1); quiet(); for (int i = 0; i < 4; i++) CHECK(ran[i] == 1, "function %d ran %d times", i, ran[i]); quiet(); int a, b; kthread_get_count(&a, &b); CHECK(a == 0, "%d working", a); kthread_close_all_free(); rt_check_released("thread pool"); counts(0, 0, "end"); kmc_outcome("%d %d", b, nthr); kmc_end(); }
SCEN(close_race, B({0,0},{2,0},{3,0}), B({4,0}), 400000, 0, 0) { close_race(1); }
SCEN(flush_race, B({0,0},{2,0},{3,0}), B({4,0}), 400000, 0, 0) { close_race(0); }
/* creating a thread fails: reported, the function does not run, the pool goes on */
SCEN(fails, B({0,0},{0,1},{1,1},{2,2}), B({2,3},{3,3}), 200000, 0, KMC_F_THREADFAIL) { begin(); bool ok[4]; for (int i = 0; i < 4; i++) { ok[i] = start(i); if (i == 1) quiet(); } kmc_explore(0); quiet(); for (int i = 0; i < 4; i++) CHECK(ran[i] == (ok[i] ? 1 : 0), "function %d ran %d times, start returned %d", i, ran[i], ok[i]); end_all(4); }
/* every history of starting, ending, ageing, flushing and dismissing: a model of the free threads decides what is left */
static void history(int n) {
	begin(); int next = 0, running[16], nr = 0; int64_t freeat[16]; int nf = 0; char h[16]; int total = 0;
	for (int i = 0; i < n; i++) {
		int o = kmc_choose(7); h[i] = "seEtfgc"[o]; h[i + 1] = 0; int before = nf + nr;
		switch (o) {
		case 0: { pthread_t was[32]; hold[next] = 1; CHECK(start(next), "start"); rt_settle(10); kmc_explore(1); CHECK(ran[next] == 1, "a started function did not run (%s)", h); running[nr++] = next++; if (nf) nf--; else total++; } break;
		case 1: case 2: if (nr) { int k = o == 1 ? 0 : nr - 1; hold[running[k]] = 0; for (int j = k; j + 1 < nr; j++) running[j] = running[j + 1]; nr--; rt_settle(10); kmc_explore(1); freeat[nf++] = kmc_now_us(); } break;
		case 3: rt_settle(40000); kmc_explore(1); break;
		case 4: case 5: { int min = o == 4 ? 0 : 1; kthread_flush(min); int k = 0; while (nf - k > min && kmc_now_us() - freeat[k] > 62000000) k++; CHECK(nf <= k || nf - k <= min || kmc_now_us() - freeat[k] < 60000000, "unclear age"); memmove(freeat, freeat + k, sizeof(int64_t) * (nf - k)); nf -= k; total -= k; } break;
		case 6: kthread_close_all_free(); total -= nf; nf = 0; break;
		}
		rt_settle(10); kmc_explore(1); counts(nr, nf, h); CHECK(kmc_live_allocs() == g_base_live + total, "%d threads exist, %d expected (%s)", (int)(kmc_live_allocs() - g_base_live), total, h);
	}
	for (int i = 0; i < nr; i++) hold[running[i]] = 0; quiet(); counts(0, nf + nr, "end"); kthread_close_all_free(); rt_check_released("thread pool"); kmc_outcome("%d", nr); kmc_end();
}
SCEN(history6, B({0,0}), B({-1,-1}), 900000, 0, KMC_F_SEQ) { history(6); }
SCEN(history7, B({0,0}), B({-1,-1}), 900000, 0, KMC_F_SEQ) { history(7); }
SCEN(history8, B({-1,-1}), B({0,0}), 900000, 0, KMC_F_SEQ) { history(8); }
/* a crowd: one function after the other uses one thread, again and again; then as many threads as there can be, all of them used again */
SCEN(crowd, B({0,0}), B({0,0},{1,0}), 9000000, 0, 0) {
	begin(); kmc_explore(0); size_t one = 0;
	for (int i = 0; i < 300; i++) { ran[0] = 0; nthr = 0; CHECK(start(0), "start"); quiet(); CHECK(ran[0] == 1, "function %d did not run", i); counts(0, 1, "one after the other"); if (!i) one = kmc_live_allocs(); CHECK(kmc_live_allocs() == one, "%d pieces of memory after %d functions, %d after one", (int)kmc_live_allocs(), i + 1, (int)one); }
	for (int round = 0; round < 3; round++) { for (int i = 0; i < 12; i++) { ran[i] = 0; hold[i] = 1; CHECK(start(i), "start"); rt_settle(5); CHECK(ran[i] == 1, "function %d waits behind another", i); } counts(12, 0, "all at once"); for (int i = 0; i < 12; i++) { hold[(i * 5) % 12] = 0; rt_settle(1); } quiet(); counts(0, 12, "all at once"); CHECK(nthr == 12, "%d threads ran 12 functions at once", nthr); }
	usleep(62000000); kthread_flush(5); counts(0, 5, "flush"); nthr = 5; kmc_explore(1); end_all(12);
}
/* plain threads: each start runs its function once */
GHOST static int pran[4]; static KTHREAD_FUNCTION plainf(void *p) { pran[(long)p]++; rt_done(); KTHREAD_RETURN; }
SCEN(plain, B({0,0},{1,1},{3,0}), B({4,1}), 9000, 0, KMC_F_THREADFAIL) { begin(); int ok = 0, r[3]; for (int i = 0; i < 3; i++) ok += r[i] = kthread_start(plainf, (void *)(long)i); rt_wait(ok); kmc_explore(0); for (int i = 0; i < 3; i++) CHECK(pran[i] == r[i], "function %d ran %d times", i, pran[i]); rt_check_released("threads"); kmc_end(); }
/* arguments of every size; threads free for hours and for days; whatever minimum is given */
GHOST static int va_n; static KTHREAD_FUNCTION va_f(void *p) { CHECK(p == WIDE(va_n), "function got %p instead of %p", p, WIDE(va_n)); va_n++; finished++; KTHREAD_RETURN; }
SCEN(values, B({0,0}), B({0,0}), 2000000000, 0, KMC_F_SEQ) {
	begin(); kmc_explore(0); for (int i = 0; i < NVALUES; i++) { accepted++; CHECK(i & 1 ? kthread_start(va_f, WIDE(i)) : kthread_pool_start(va_f, WIDE(i)), "start"); quiet(); } CHECK(va_n == NVALUES, "%d functions ran", va_n); kthread_close_all_free(); rt_settle(10); nthr = 0;
	static const int secs[] = { 30, 58, 62, 125, 3590, 3610, 3650, 7220, 43210, 65540, 86405, 90000 }; static const int mins[] = { 0, 1, 3, 4, 255, 256, 65536, 2147483647 };
	kmc_explore(1); int s = secs[kmc_choose(12)], m = mins[kmc_choose(8)]; kmc_explore(0);
	for (int i = 0; i < 4; i++) { hold[i] = 1; CHECK(start(i), "start"); } rt_settle(10); for (int i = 0; i < 4; i++) hold[i] = 0; quiet(); counts(0, 4, "at first");
	for (int i = 0; i < s; i += 10) usleep((s - i < 10 ? s - i : 10) * 1000000); kthread_flush(m); rt_settle(10); int left = s < 60 || m > 4 ? 4 : m; counts(0, left, "after the flush"); CHECK(kmc_live_allocs() == g_base_live + left, "%d threads exist", (int)(kmc_live_allocs() - g_base_live)); nthr = left; end_all(4);
}
/* free and running threads settled first; then runners end, functions arrive from several threads, free threads are dismissed, together */
static void *one(void *a) { CHECK(start((int)(long)a), "start failed"); rt_done(); return 0; }
static void late(int frees, int runs, int ends, int arr, int dismiss) {
	begin(); kmc_explore(0); for (int i = 0; i < frees + runs; i++) { hold[i] = 1; CHECK(start(i), "start"); } rt_settle(5); for (int i = 0; i < frees; i++) hold[i] = 0; rt_settle(5); counts(runs, frees, "at first"); if (dismiss == 2) usleep(62000000);
	kmc_explore(1); for (int i = 0; i < ends; i++) hold[frees + i] = 0; pthread_t t; for (int i = 0; i < arr; i++) { pthread_create(&t, 0, one, (void *)(long)(16 + i)); pthread_detach(t); } if (dismiss == 1) kthread_close_all_free(); if (dismiss == 2) kthread_flush(frees > 1); CHECK(start(20), "start failed"); rt_wait(arr); kmc_explore(0); for (int i = 0; i < runs; i++) hold[frees + i] = 0; quiet();
	for (int i = 0; i < 32; i++) CHECK(ran[i] == (i < frees + runs || (i >= 16 && i < 16 + arr) || i == 20), "function %d ran %d times", i, ran[i]); int a, b; kthread_get_count(&a, &b); CHECK(a == 0 && b <= frees + runs + arr + 1, "%d working, %d free", a, b); kthread_close_all_free(); rt_check_released("thread pool"); counts(0, 0, "at the end"); kmc_outcome("%d", b); kmc_end();
}
#define LATE(id, ...) SCEN(id, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 400000, 1, 0) { late(__VA_ARGS__); }
LATE(late_one_free, 1, 1, 0, 2, 0)
LATE(late_ends, 1, 1, 1, 2, 0)
LATE(late_dismiss, 2, 1, 1, 1, 1)
LATE(late_flush, 2, 1, 1, 1, 2)
LATE(late_flush_one, 1, 1, 1, 1, 2)
