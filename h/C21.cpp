/* starting, running and ending event loops: kasync_main, the loops of the selector manager, stepping, growing */
#include "common.h"
GHOST static int nran, where[16], cnt[16], tick_n;
/* kasync_main: any number of times, also on the same thread; the result is the main fiber's; nothing is left behind */
static int child(void *a, int n) { kfiber_msleep(n); nran++; return n + 1; }
static kev_result nop_cb(KOPAQUE d, void *a, int got) { kmc_fail("a timer of an ended event loop ran"); return kev_ok; }
static int selfmsg(void) { fiber_yield(); return 1; }
static int body(void *a, int k) { CHECK((long)a == 7, "argument"); CHECK(kgl_get_tls_selector() != NULL && !kfiber_is_main(), "no fiber"); kfiber *f; int r; switch (k % 6) {
	case 0: return 100; case 1: kfiber_msleep(150); return 101; case 2: kselector_add_timer(kgl_get_tls_selector(), nop_cb, NULL, 5000, NULL); kselector_add_timer(kgl_get_tls_selector(), nop_cb, NULL, 5000, NULL); kselector_add_timer(kgl_get_tls_selector(), nop_cb, NULL, 9000, NULL); return 102;
	case 3: CHECK(kfiber_create(child, NULL, 20, 0, &f) == 0, "create"); kfiber_join(f, &r); CHECK(r == 21, "join %d", r); return 103;
	case 4: selfmsg(); kfiber_create(child, NULL, 0, 0, &f); selfmsg(); kfiber_join(f, &r); return 104;
	default: { int fds[2]; vk_socketpair(fds, 3); sockaddr_i ad; memset(&ad, 0, sizeof ad); ad.v4.sin_family = AF_INET; kconnection *c = kconnection_new(&ad); c->st.fd = fds[0]; selectable_bind(&c->st, kgl_get_tls_selector()); write(fds[1], "ab", 2); char b[4]; CHECK(kfiber_net_read(c, b, 4) == 2, "read"); kfiber_net_close(c); close(fds[1]); return 105; } } }
static void again(int n) { kmc_explore(0); kasync_init(); rt_mark(); kmc_explore(1); for (int i = 0; i < n; i++) { int k = kmc_choose(6); int r = kasync_main(body, (void *)7L, k); CHECK(r == 100 + k, "kasync_main returned %d instead of %d", r, 100 + k); CHECK(kgl_get_tls_selector() == NULL, "still bound to an event loop"); CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count()); rt_check_released("kasync_main"); CHECK(vk_aio_contexts() == 0, "%d file contexts left", vk_aio_contexts()); kmc_explore(1); } kmc_outcome("%d", nran); kmc_end(); }
SCEN(main_again, B({0,0}), B({-1,-1}), 60000, 0, KMC_F_SEQ) { again(3); }
SCEN(main_again4, B({-1,-1}), B({0,0}), 60000, 0, KMC_F_SEQ) { again(4); }
/* event loops on several threads at once; they talk to each other */
GHOST static kselector *peer[2]; GHOST static int got_msg[2]; static int peers_up(void *) { return peer[0] && peer[1]; }
static kev_result take(KOPAQUE d, void *a, int got) { int me = (int)(long)a; CHECK(kgl_get_tls_selector() == peer[me], "message on the wrong event loop"); got_msg[me] += got; return kev_ok; }
GHOST static int left[2]; static int talker(void *a, int me) { peer[me] = kgl_get_tls_selector(); while (!peers_up(0)) kfiber_msleep(1); for (int i = 0; i < 2; i++) kgl_selector_module.next(peer[!me], NULL, take, (void *)(long)!me, 1); while (got_msg[me] < 2) kfiber_msleep(1); left[me] = 1; while (!left[!me]) kfiber_msleep(1); return me + 5; }
static void *mainthr(void *a) { int me = (int)(long)a; int r = kasync_main(talker, NULL, me); CHECK(r == me + 5, "kasync_main returned %d", r); r = kasync_main(body, (void *)7L, 3); CHECK(r == 103, "second kasync_main on the thread returned %d", r); rt_done(); return 0; }
SCEN(main_threads, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 60000, 1, 0) { kmc_explore(0); kasync_init(); rt_mark(); kmc_explore(1); for (int i = 0; i < 2; i++) { pthread_t t; pthread_create(&t, 0, mainthr, (void *)(long)i); pthread_detach(t); } rt_wait(2); CHECK(got_msg[0] == 2 && got_msg[1] == 2, "messages %d %d", got_msg[0], got_msg[1]); rt_check_released("two event loops"); kmc_end(); }
/* the main fiber may be woken for its last time from anywhere in the loop */
GHOST static kfiber *mainf; static int tickcb(void *a, int n) { if (mainf && ++tick_n == 3) { kfiber *f = mainf; mainf = 0; kfiber_wakeup(f, &tick_n, 9); } return 1; }
static kev_result wakecb(KOPAQUE d, void *a, int got) { kfiber *f = mainf; mainf = 0; kfiber_wakeup(f, &tick_n, 9); return kev_ok; }
static int waitbody(void *a, int how) { mainf = kfiber_self2(); kselector_tick *t = NULL; if (how == 0) { t = kselector_new_tick(tickcb, NULL); kselector_register_tick(t); } else if (how == 1) kselector_add_timer(kgl_get_tls_selector(), wakecb, NULL, 10, NULL); else kgl_selector_module.next(kgl_get_tls_selector(), NULL, wakecb, NULL, 0); int r = __kfiber_wait(kfiber_self2(), &tick_n); if (t) kselector_close_tick(t); return r; }
SCEN(main_last, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { kmc_explore(0); kasync_init(); rt_mark(); kmc_explore(1); for (int i = 0; i < 2; i++) { tick_n = 0; int r = kasync_main(waitbody, NULL, kmc_choose(3)); CHECK(r == 9, "returned %d", r); CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count()); rt_check_released("kasync_main"); kmc_explore(1); } kmc_end(); }
/* starting the manager's loops: what was asked for before runs once, on an event loop, after that loop's own start-up callbacks */
GHOST static int inited[8], ready[4]; static kev_result tinit(KOPAQUE d, void *a, int got) { int s = sel_index(); CHECK((long)a == 3 && got == 0, "start-up callback with %d", got); CHECK(s >= 0 && s < 8, "not on an event loop"); CHECK(++inited[s] == 1, "start-up callback ran %d times", inited[s]); return kev_ok; }
static kev_result onready(KOPAQUE d, void *a, int got) { int s = sel_index(); CHECK(s >= 0 && inited[s] == 1, "ran before the event loop's start-up"); CHECK(++ready[(long)a] == 1, "ran %d times", ready[(long)a]); rt_done(); return kev_ok; }
static int fib(void *a, int n) { int s = sel_index(); CHECK(s == n, "fiber for event loop %d runs on %d", n, s); CHECK(inited[s] == 1, "ran before the event loop's start-up"); cnt[s]++; rt_done(); return 0; }
static void startup(int n) { kmc_explore(0); kasync_init(); selector_manager_thread_init(tinit, (void *)3L); selector_manager_on_ready(onready, (void *)0L); selector_manager_on_ready(onready, (void *)1L); CHECK(!is_selector_manager_init(), "initialised"); kmc_explore(1); selector_manager_init(n, true); CHECK(is_selector_manager_init() && get_selector_count() == n, "%d event loops", get_selector_count()); CHECK(selector_manager_thread_init(tinit, NULL) == -1, "accepted too late"); selector_manager_on_ready(onready, (void *)2L); for (int i = 0; i < n; i++) CHECK(kfiber_create2(SEL(i), fib, NULL, i, 0, NULL) == 0, "create"); selector_manager_start(NULL, true); selector_manager_on_ready(onready, (void *)3L); kfiber_create2(SEL(n - 1), fib, NULL, n - 1, 0, NULL); rt_wait(4 + n + 1); kmc_explore(0); usleep(1000); for (int i = 0; i < n; i++) CHECK(inited[i] == 1 && cnt[i] == (i == n - 1 ? 2 : 1), "event loop %d: started %d, fibers %d", i, inited[i], cnt[i]); for (int i = 0; i < 4; i++) CHECK(ready[i] == 1, "callback %d ran %d times", i, ready[i]); kmc_end(); }
SCEN(startup1, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 9000, 1, 0) { startup(1); }
SCEN(startup2, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 9000, 1, 0) { startup(2); }
/* running loop 0 in the caller's thread */
static void *nonthread(void *) { kmc_wait_until(rt_done_pred, 0); CHECK(cnt[0] == 1 && cnt[1] == 1, "fibers"); kmc_end(); return 0; }
SCEN(startup_here, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 9000, 1, 0) { kmc_explore(0); kasync_init(); selector_manager_init(2, false); g_need_done = 2; inited[0] = inited[1] = 1; pthread_t t; pthread_create(&t, 0, nonthread, 0); pthread_detach(t); kmc_explore(1); for (int i = 0; i < 2; i++) kfiber_create2(SEL(i), fib, NULL, i, 0, NULL); selector_manager_start(NULL, false); kmc_fail("returned"); }
/* numbers of event loops */
static int noaio(const char *op, int fd) { return strcmp(op, "io_setup") ? 0 : ENOSYS; }
SCEN(sizes, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { kmc_explore(0); kasync_init(); kmc_explore(1); vk_set_fault(noaio); static const int sz[] = { -5, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 33, 64, 65, 1000 }; int n = sz[kmc_choose(16)], want = 1; while (want * 2 <= n && want < 64) want *= 2; selector_manager_init(n, false); CHECK(get_selector_count() == want, "%d event loops for %d, %d expected", get_selector_count(), n, want); for (int i = 0; i < want; i++) { CHECK(SEL(i)->sid == i, "number of event loop %d: %d", i, SEL(i)->sid); CHECK(SEL(i + want) == SEL(i), "index wraps"); for (int j = 0; j < i; j++) CHECK(SEL(i) != SEL(j), "same loop twice"); }
	int c[64] = {}; for (int i = 0; i < 2 * want; i++) c[get_perfect_selector()->sid]++; for (int i = 0; i < want; i++) CHECK(c[i] == 2, "event loop %d chosen %d times of %d while all are idle", i, c[i], 2 * want); kmc_end(); }
/* the loop chosen for new work is never one far busier than its neighbour */
SCEN(balance, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { kmc_explore(0); kasync_init(); selector_manager_init(4, false); kmc_explore(1); static const int load[] = { 0, 63, 64, 65, 1000 }; int l[4]; for (int i = 0; i < 4; i++) SEL(i)->count = l[i] = load[kmc_choose(5)]; int rot = kmc_choose(4); for (int i = 0; i < rot; i++) get_perfect_selector(); int c[4] = {}; for (int i = 0; i < 8; i++) { int s = get_perfect_selector()->sid; CHECK(l[s] < l[(s + 1) & 3] + 64, "event loop %d with %d chosen, its neighbour has %d", s, l[s], l[(s + 1) & 3]); c[s]++; } int may = 0; for (int i = 0; i < 4; i++) may += l[i] < l[(i + 1) & 3] + 64; for (int i = 0; i < 4; i++) if (l[i] < l[(i + 1) & 3] + 64) CHECK(c[i] >= 8 / may, "event loop %d chosen %d times of 8, %d may be", i, c[i], may); for (int i = 0; i < 4; i++) SEL(i)->count = 0; kmc_end(); }
/* growing from one loop to more, called on it; existing work goes on */
GHOST static int late; static kev_result latecb(KOPAQUE d, void *a, int got) { late++; CHECK(sel_index() == 0, "timer moved"); return kev_ok; }
static int grower(void *a, int n) { selector_manager_set_timeout(7, 9); CHECK(!selector_manager_grow(1), "grew to 1"); kselector_add_timer(kgl_get_tls_selector(), latecb, NULL, 150, NULL); CHECK(selector_manager_grow(n), "grow"); int want = 1; while (want * 2 <= n) want *= 2; CHECK(get_selector_count() == want, "%d event loops", get_selector_count()); CHECK(!selector_manager_grow(want * 4), "grew twice"); for (int i = 0; i < want; i++) { CHECK(SEL(i)->sid == i, "number"); CHECK(SEL(i)->timeout[KGL_LIST_CONNECT] == 7000 && SEL(i)->timeout[KGL_LIST_RW] == 9000, "time-outs of event loop %d: %d and %d ms", i, SEL(i)->timeout[KGL_LIST_CONNECT], SEL(i)->timeout[KGL_LIST_RW]); inited[i] = 1; kfiber_create2(SEL(i), fib, NULL, i, 0, NULL); } int c[8] = {}; for (int i = 0; i < want; i++) c[get_perfect_selector()->sid]++; for (int i = 0; i < want; i++) CHECK(c[i] == 1, "event loop %d chosen %d times", i, c[i]); rt_done(); return 0; }
static void *notloop(void *) { CHECK(!selector_manager_grow(4), "grew on another thread"); rt_done(); return 0; }
SCEN(grow, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 1, 0) { rt_start(1); int n = 2 + kmc_choose(4); pthread_t t; pthread_create(&t, 0, notloop, 0); pthread_detach(t); rt_wait(1); kfiber_create2(SEL(0), grower, NULL, n, 0, NULL); rt_wait(2 + (n < 4 ? 2 : 4)); kmc_explore(0); usleep(300000); CHECK(late == 1, "timer ran %d times", late); kmc_end(); }
/* a program that steps the loop itself */
GHOST static int stop_step; static int sfib(void *a, int n) { kfiber_msleep(120); cnt[9]++; int r = 0; kfiber *f; kfiber_create(child, NULL, 10, 0, &f); kfiber_join(f, &r); CHECK(r == 11, "join"); cnt[9]++; return 0; }
static void *sposter(void *) { kfiber_create2(SEL(0), fib, NULL, 0, 0, NULL); kmc_yield(); kfiber_create2(SEL(0), fib, NULL, 0, 0, NULL); return 0; }
static void step(int closeit) { kmc_explore(0); kasync_init(); kmc_explore(1); selector_manager_init(1, false); kselector_step_init(0); CHECK(kgl_get_tls_selector() == SEL(0), "not bound"); inited[0] = 1; pthread_t t; pthread_create(&t, 0, sposter, 0); pthread_detach(t); kfiber_create2(SEL(0), sfib, NULL, 0, 0, NULL); for (int i = 0; i < 200 && (cnt[9] < 2 || cnt[0] < 2); i++) kselector_step(0); CHECK(cnt[9] == 2 && cnt[0] == 2 && nran == 1, "not everything ran: %d %d %d", cnt[9], cnt[0], nran); for (int i = 0; i < 3; i++) kselector_step(0); CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count()); kselector_step_exit(0); CHECK(kgl_get_tls_selector() == NULL, "still bound"); kmc_end(); }
SCEN(step_, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 30000, 1, 0) { step(0); }
/* event loops are idle again, and spread new work evenly, after many connections of every fate; while they wait their loop is spared */
GHOST static int fate_n, fate_stop; static kconnection *held[80];
static kconnection *pairc(int *peer) { int fds[2]; vk_socketpair(fds, 3); sockaddr_i ad; memset(&ad, 0, sizeof ad); ad.v4.sin_family = AF_INET; kconnection *c = kconnection_new(&ad); c->st.fd = fds[0]; selectable_bind(&c->st, kgl_get_tls_selector()); *peer = fds[1]; return c; }
static kev_result closer(KOPAQUE d, void *a, int got) { selectable_shutdown(&held[got]->st); return kev_ok; }
static kev_result hup(KOPAQUE d, void *a, int got) { return kev_ok; }
static void v4to(sockaddr_i *a, int port) { memset(a, 0, sizeof *a); a->v4.sin_family = AF_INET; a->v4.sin_addr.s_addr = htonl(0x7f000001); a->v4.sin_port = htons(port); }
static int reader1(void *a, int i) { kconnection *c = held[i]; char b[8]; int r = kfiber_net_read(c, b, 8); CHECK(r <= 0, "read %d", r); kfiber_net_close(c); fate_n++; return 0; }
static void one_life(int k, int i) {
	char b[64]; memset(b, 1, sizeof b); int p, r; kconnection *c; sockaddr_i a;
	switch (k) {
	case 0: c = pairc(&p); write(p, "ab", 2); close(p); CHECK(kfiber_net_read(c, b, 8) == 2 && kfiber_net_read(c, b, 8) == 0, "read"); kfiber_net_close(c); break;
	case 1: v4to(&a, 9999); c = kfiber_net_open(&a); CHECK(kfiber_net_connect(c, NULL, 0) != 0, "connected"); kfiber_net_close(c); break;
	case 2: c = pairc(&p); CHECK(kfiber_net_read(c, b, 8) < 0 || 1, "read"); kfiber_net_close(c); close(p); break;	/* times out */
	case 3: v4to(&a, 2); c = kfiber_net_open(&a); CHECK(kfiber_net_connect(c, NULL, 0) != 0, "connected"); kfiber_net_close(c); break;	/* no answer */
	case 4: kfiber_msleep(0); fiber_yield(); break;
	case 5: c = pairc(&p); KBIT_SET(c->st.base.st_flags, STF_RTIME_OUT); CHECK(kfiber_net_read(c, b, 8) == ST_ERR_TIME_OUT, "no time-out"); close(p); kfiber_net_shutdown(c); while (kfiber_net_read(c, b, 8) > 0) {} kfiber_net_close(c); break;
	case 6: c = held[i] = pairc(&p); kgl_selector_module.next(kgl_get_tls_selector(), NULL, closer, NULL, i); kfiber_net_read(c, b, 8); kfiber_net_close(c); close(p); break;
	case 7: vk_set_sockbuf(64); c = pairc(&p); kfiber_net_write(c, b, 64); r = kfiber_net_write(c, b, 9); CHECK(r < 0, "write %d", r); kfiber_net_close(c); close(p); break;	/* never room: times out */
	case 8: c = pairc(&p); selectable_readhup(&c->st, hup, NULL); close(p); kfiber_msleep(1); kfiber_net_close(c); break;
	case 9: c = pairc(&p); selectable_readhup(&c->st, hup, NULL); kgl_selector_module.remove_readhup(kgl_get_tls_selector(), &c->st); kfiber_net_close(c); close(p); break;
	case 10: { kserver *sv = kserver_init(); CHECK(kserver_bind(sv, "127.0.0.1", 7000, NULL), "bind"); kserver_selectable *ss = NULL; CHECK(kfiber_net_listen(sv, KSOCKET_REUSEPORT, &ss) == 0 && ss, "listen"); kconnection *n = NULL; v4to(&a, 7000); c = kfiber_net_open(&a); CHECK(kfiber_net_connect(c, NULL, 0) == 0 && kfiber_net_accept(ss, &n) == 0 && n, "accept"); kfiber_net_close(c); kfiber_net_close(n); kserver_close(sv); kserver_release(sv); n = NULL; r = kfiber_net_accept(ss, &n); CHECK(r != 0 || !n, "accepted"); kserver_selectable_destroy(ss); break; }
	case 11: v4to(&a, 0); c = kudp_new2(0, kgl_get_tls_selector()); CHECK(c && kudp_bind(c, &a), "bind"); held[i] = c; kgl_selector_module.next(kgl_get_tls_selector(), NULL, closer, NULL, i); kfiber_net_read(c, b, 8); kfiber_net_close(c); break;
	case 12: c = pairc(&p); selectable_next_read(&c->st, hup, NULL); kfiber_msleep(1); selectable_next_write(&c->st, hup, NULL); kfiber_msleep(1); kfiber_net_close(c); close(p); break;
	}
}
static int lives(void *, int k) { for (int i = 0; i < 66; i++) one_life(k, i); rt_done(); return 0; }
static void evenly(const char *what, int k) { int c[2] = {}; for (int i = 0; i < 8; i++) c[get_perfect_selector()->sid]++; CHECK(c[0] == 4 && c[1] == 4, "%s (%d): 8 times the idle loops were chosen %d and %d times", what, k, c[0], c[1]); }
SCEN(fates, B({0,0}), B({0,0}), 90000000, 1, KMC_F_SEQ) { rt_start(2); kmc_explore(0); rt_mark(); int k = kmc_choose(13); selector_manager_set_timeout(5, 5); kfiber_create2(SEL(0), lives, NULL, k, 0, NULL); rt_wait(1); usleep(1000000); evenly("after many connections", k); if (k != 4) rt_check_released("connections"); kmc_end(); }
/* a loop with 64 connections waiting is spared, whatever they wait for */
static int holder(void *, int i) { int k = i & 3; i >>= 2; int p; char b[64]; memset(b, 1, 64); kconnection *c; sockaddr_i a; if (k == 3) { v4to(&a, 3); c = held[i] = kfiber_net_open(&a); kfiber_net_connect(c, NULL, 0); kfiber_net_close(c); rt_done(); return 0; } vk_set_sockbuf(64); c = held[i] = pairc(&p); if (k == 0) kfiber_net_read(c, b, 8); else if (k == 1) { kfiber_net_write(c, b, 64); kfiber_net_write(c, b, 8); } else { write(p, "ab", 2); kfiber_net_read(c, b, 8); kfiber_net_read(c, b, 8); } kfiber_net_close(c); close(p); rt_done(); return 0; }
static kev_result closeall(KOPAQUE d, void *a, int got) { for (int i = 0; i < got; i++) selectable_shutdown(&held[i]->st); return kev_ok; }
SCEN(spared, B({0,0}), B({0,0}), 90000000, 1, KMC_F_SEQ) { rt_start(2); kmc_explore(0); rt_mark(); int k = kmc_choose(4), n = kmc_choose(2) ? 70 : 40; for (int i = 0; i < n; i++) kfiber_create2(SEL(0), holder, NULL, i << 2 | k, 0, NULL); usleep(1000000); if (n == 70) for (int i = 0; i < 5; i++) CHECK(get_perfect_selector()->sid == 1, "the event loop with %d waiting connections was chosen", n); else evenly("few waiting", k); kgl_selector_module.next(SEL(0), NULL, closeall, NULL, n); if (k == 3) for (int i = 0; i < n; i++) { int pf = -1; kgl_selector_module.next(SEL(0), NULL, closeall, NULL, 0); } rt_wait(n); usleep(1000000); evenly("after", k); rt_check_released("connections"); kmc_end(); }
