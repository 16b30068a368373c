// ENGINE: -DMAXT=60 -DREGION_MB=16
/* many event loops and posting threads: everything posted is delivered once, on its own loop's thread */
#include "common.h"
#define NL 32
#define NT 8
GHOST static int got_n[NL + NT][NL], tm_n[NL + NT][NL], total; GHOST static pthread_t thr[NL];
static void on_loop(int i, int from) { CHECK(kgl_get_tls_selector() == SEL(i) && SEL(i)->sid == i, "work of %d for loop %d runs on another", from, i); CHECK(pthread_equal(SEL(i)->thread_id, pthread_self()), "loop %d on another thread", i); }
static kev_result cb(KOPAQUE d, void *arg, int got) { int from = got / NL, to = got % NL; on_loop(to, from); CHECK(d == (KOPAQUE)(long)(got * 3 + 1) && arg == &got_n[from][to], "notice of %d for loop %d carried other data", from, to); CHECK(++got_n[from][to] == 1, "notice of %d for loop %d delivered twice", from, to); total++; return kev_ok; }
static kev_result tcb(KOPAQUE d, void *arg, int) { int k = (int)(long)d, from = k / NL, to = k % NL; on_loop(to, from); CHECK(arg == &tm_n[from][to], "timer of %d for loop %d carried other data", from, to); CHECK(++tm_n[from][to] == 1, "timer of %d for loop %d fired twice", from, to); total++; return kev_ok; }
static void send_all(int from) { for (int j = 0; j < NL; j++) { int to = (from + j) % NL, k = from * NL + to; kgl_selector_module.next(SEL(to), (KOPAQUE)(long)(k * 3 + 1), cb, &got_n[from][to], k); if ((from ^ to) % 3 == 0) kselector_add_timer_ts(SEL(to), tcb, &tm_n[from][to], 1 + k % 90, (KOPAQUE)(long)k); } rt_done(); }
static kev_result spread(KOPAQUE, void *, int from) { on_loop(from, from); send_all(from); return kev_ok; }
static void *thread(void *a) { send_all((int)(long)a); return 0; }
static int noaio(const char *op, int fd) { return strcmp(op, "io_setup") ? 0 : ENOSYS; }
SCEN(many_loops, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) {
	kmc_explore(0); vk_set_fault(noaio); rt_start(NL); rt_mark(); int want = 0;
	for (int f = 0; f < NL + NT; f++) for (int t = 0; t < NL; t++) want += 1 + ((f ^ t) % 3 == 0);
	for (int i = 0; i < NT; i++) { pthread_t t; CHECK(pthread_create(&t, 0, thread, (void *)(long)(NL + i)) == 0, "thread"); pthread_detach(t); }
	for (int i = 0; i < NL; i++) kgl_selector_module.next(SEL(i), NULL, spread, NULL, i);
	rt_wait(NL + NT); rt_settle(600); CHECK(total == want, "%d of %d delivered", total, want);
	for (int f = 0; f < NL + NT; f++) for (int t = 0; t < NL; t++) { CHECK(got_n[f][t] == 1, "notice of %d for loop %d: %d", f, t, got_n[f][t]); CHECK(tm_n[f][t] == ((f ^ t) % 3 == 0), "timer of %d for loop %d: %d", f, t, tm_n[f][t]); }
	rt_check_released("notices"); kmc_end();
}
