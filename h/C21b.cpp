// ENGINE: -DMAXT=60 -DREGION_MB=16
/* many event loops, started: each runs its own work on its own thread, passes work on to the next one, and gets its share of new work */
#include "common.h"
GHOST static int nl, inits[64], seen[64], laps; GHOST static pthread_t thr[64];
static kev_result onready(KOPAQUE, void *, int) { int i = kgl_get_tls_selector()->sid; inits[i]++; thr[i] = pthread_self(); return kev_ok; }
static kev_result pass(KOPAQUE, void *arg, int got) { int i = got % nl; CHECK(kgl_get_tls_selector() == SEL(i) && arg == (void *)SEL(i), "work for loop %d runs on another", i); CHECK(pthread_equal(pthread_self(), thr[i]), "loop %d on two threads", i); seen[i]++; if (got + 1 < laps * nl) kgl_selector_module.next(SEL((i + 1) % nl), NULL, pass, SEL((i + 1) % nl), got + 1); else rt_done(); return kev_ok; }
static int sleeper(void *a, int n) { for (int i = 0; i < 3; i++) { kfiber_msleep(3 + n % 5); CHECK(kgl_get_tls_selector() == SEL(n), "continued on another loop"); } rt_done(); return n + 7; }
static int joiner(void *a, int n) { kfiber *f[64]; for (int i = 0; i < nl; i++) CHECK(kfiber_create2(SEL(i), sleeper, NULL, i, 0, &f[i]) == 0, "create"); for (int i = 0; i < nl; i++) { int r = 0; CHECK(kfiber_join(f[i], &r) == 0 && r == i + 7, "fiber of loop %d gave %d", i, r); } rt_done(); return 0; }
static int noaio(const char *op, int fd) { return strcmp(op, "io_setup") ? 0 : ENOSYS; }
SCEN(many_loops, B({0,0}), B({0,0}), 60000, 1, 0) {
	kmc_explore(0); vk_set_fault(noaio); kasync_init(); nl = 32; laps = 5; selector_manager_thread_init(onready, NULL); selector_manager_init(45, false); CHECK(get_selector_count() == nl, "%d loops", get_selector_count()); selector_manager_start(NULL, true); usleep(200000);
	for (int i = 0; i < nl; i++) { CHECK(inits[i] == 1, "start-up callback ran %d times on loop %d", inits[i], i); for (int j = 0; j < i; j++) CHECK(!pthread_equal(thr[i], thr[j]), "loops %d and %d on one thread", i, j); }
	kgl_selector_module.next(SEL(0), NULL, pass, SEL(0), 0); rt_wait(1); for (int i = 0; i < nl; i++) CHECK(seen[i] == laps, "loop %d ran %d of %d", i, seen[i], laps);
	kfiber_create2(SEL(5), joiner, NULL, 0, 65536, NULL); rt_wait(2 + nl); usleep(1000);
	int c[64] = {}; for (int i = 0; i < 4 * nl; i++) c[get_perfect_selector()->sid]++; for (int i = 0; i < nl; i++) CHECK(c[i] == 4, "event loop %d chosen %d times of 4 while all are idle", i, c[i]);
	kmc_end();
}
