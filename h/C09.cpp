/* idle and connect time-outs: a connection on which nothing happens for its time-out is shut down and everything pending on it
 * ends, not earlier and promptly; activity restarts the period; a connection marked for read time-outs gets a result instead. */
#include "common.h"
#include <sys/time.h>
#define G 210 /* granularity of the event loop's time-outs, per period */
GHOST static int rres[4], rdone[4], wdone[4]; static int rw = 2000, mult;
static int pf[4]; static kconnection *C[4]; static int64_t t_read[4];
static kconnection *mkc(int fd, int sel) { kconnection *c = kconnection_new(NULL); c->st.fd = fd; selectable_bind(&c->st, SEL(sel)); c->st.base.tmo = mult; return c; }
static int64_t now(void) { return kmc_now_us() / 1000; }
static int closer(void *a, int) { kfiber_net_close((kconnection *)a); rt_done(); return 0; }
static void fin(int n) { kmc_explore(0); int k = g_done; for (int i = 0; i < n; i++) kfiber_create2(C[i]->st.base.selector, closer, C[i], 0, 0, NULL), close(pf[i]); rt_wait(k + n); rt_check_released("connections"); kmc_end(); }
static void setup(int sels, int n) { rt_start(sels); kmc_explore(0); selector_manager_set_timeout(3, 2); rt_mark(); for (int i = 0; i < n; i++) { int p[2]; vk_set_sockbuf(4); vk_socketpair(p, 1); C[i] = mkc(p[0], i % sels); pf[i] = p[1]; } }
static void in_time(const char *what, int i, int64_t started_cache, int64_t started, int period) {
	int e = (int)(kgl_current_msec - started_cache), l = (int)(now() - started), full = period * (mult + 1);
	CHECK(e >= full, "%s %d timed out after %d of %d ms", what, i, e, full); CHECK(l <= full + G * (mult + 1), "%s %d timed out after %d instead of %d ms", what, i, l, full);
}
/* reads with the peer sending at chosen times, then silence */
GHOST static int nrecv[4], nsent[4];
static int reader(void *, int i) {
	for (;;) { char b[8]; int64_t c0 = kgl_current_msec, s0 = now(); int r = kfiber_net_read(C[i], b, sizeof b); if (r > 0) { for (int k = 0; k < r; k++) { CHECK(b[k] == 'a' + nrecv[i], "data"); nrecv[i]++; } continue; }
		in_time("read", i, c0, s0, rw); CHECK(nrecv[i] == nsent[i], "timed out with %d of %d bytes read", nrecv[i], nsent[i]); rres[i] = r; break; }
	CHECK(KBIT_TEST(C[i]->st.base.st_flags, STF_READ) == 0, "read still pending"); rdone[i]++; rt_done(); return 0;
}
static int gaps[5] = { 100, 900, 1700, 1900, 2400 };
static void peer_send(int i) { char x = 'a' + nsent[i]; if (rdone[i]) return; nsent[i]++; if (write(pf[i], &x, 1) != 1) nsent[i]--; }
static void reads(int sels, int n, int sends) {
	setup(sels, n); for (int i = 0; i < n; i++) { kfiber_create2(C[i]->st.base.selector, reader, NULL, i, 0, NULL); usleep(137000); }
	for (int s = 0; s < sends; s++) { int g = gaps[kmc_choose(5)], w = kmc_choose(n); usleep(g * 1000); peer_send(w); }
	rt_wait(n); fin(n);
}
SCEN(idle_reads, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { mult = kmc_choose(3); reads(1, 1, 4); }
SCEN(idle_reads_3conn, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { reads(1, 3, 4); }
SCEN(idle_reads_2sel, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { mult = kmc_choose(2); reads(2, 3, 4); }
SCEN(idle_reads_deep, B({-1,-1}), B({0,0}), 90000, 0, KMC_F_SEQ) { mult = kmc_choose(2); reads(2, 3, 5); }
SCEN(idle_reads_sched, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0}), 60000, 1, 0) { setup(2, 2); rw = 1000; selector_manager_set_timeout(1, 1); kmc_explore(1); for (int i = 0; i < 2; i++) kfiber_create2(C[i]->st.base.selector, reader, NULL, i, 0, NULL); usleep(500000); peer_send(0); rt_wait(2); fin(2); }
/* a write that cannot progress, with or without a read pending beside it */
static int writer(void *, int i) {
	int wrote = 0; for (;;) { char b[3] = { 1, 2, 3 }; int64_t c0 = kgl_current_msec, s0 = now(); int r = kfiber_net_write(C[i], b, 3); if (r > 0) { wrote += r; continue; }
		if (t_read[i] == 0) in_time("write", i, c0, s0, rw); break; }
	CHECK(wrote >= 4, "wrote only %d", wrote); wdone[i]++; rt_done(); return 0;
}
static int drained;
static void writes(int rd) {
	setup(1, 1); kfiber_create2(SEL(0), writer, NULL, 0, 0, NULL); int g = kmc_choose(5), g2 = kmc_choose(5); usleep(gaps[g] * 1000); if (!wdone[0]) { char b[4]; int r = read(pf[0], b, 1 + kmc_choose(4)); CHECK(r > 0, "peer read %d", r); }
	usleep(gaps[g2] * 1000); if (!wdone[0]) { char b[4]; int r = read(pf[0], b, 2); CHECK(r > 0, "peer read"); }
	rt_wait(1); fin(1);
}
SCEN(idle_writes, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { mult = kmc_choose(2); writes(0); }
/* callback interface, both directions pending: activity of either direction restarts the period; both end together */
GHOST static int64_t last_c, last_r; GHOST static int ended[2], gotb; static kgl_iovec rv, wv, rio, wio; static char rb[8], wb[8];
static kev_result on_r(KOPAQUE, void *, int got); static kev_result on_w(KOPAQUE, void *, int got);
static void touch(void) { last_c = kgl_current_msec; last_r = now(); }
static void start_r(void) { rv.iov_base = rb; rv.iov_len = 1; rio.iov_base = (char *)&rv; rio.iov_len = 1; selectable_read(&C[0]->st, on_r, &rio, NULL); }
static void start_w(void) { wv.iov_base = wb; wv.iov_len = 4; wio.iov_base = (char *)&wv; wio.iov_len = 1; selectable_write(&C[0]->st, on_w, &wio, NULL); }
static kev_result on_r(KOPAQUE, void *, int got) { if (got > 0) { gotb++; touch(); start_r(); return kev_ok; } if (!ended[1]) in_time("read", 0, last_c, last_r, rw); ended[0]++; CHECK(ended[0] == 1, "read ended twice"); return kev_ok; }
static kev_result on_w(KOPAQUE, void *, int got) { if (got > 0) { touch(); start_w(); return kev_ok; } if (!ended[0]) in_time("write", 0, last_c, last_r, rw); ended[1]++; CHECK(ended[1] == 1, "write ended twice"); return kev_ok; }
static kev_result go_rw(KOPAQUE, void *, int) { touch(); start_r(); start_w(); return kev_ok; }
static int both_ended(void *) { return ended[0] && ended[1]; }
SCEN(idle_both, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	mult = kmc_choose(2); setup(1, 1); kgl_selector_module.next(SEL(0), NULL, go_rw, NULL, 0);
	for (int k = 0; k < 3; k++) { usleep(gaps[kmc_choose(5)] * 1000); if (!ended[0] && !ended[1]) { char b[4] = { 0 }; if (kmc_choose(2)) { int r = read(pf[0], b, 4); } else { int r = write(pf[0], b, 1); } } }
	kmc_wait_until(both_ended, 0); fin(1);
}
/* read time-outs as results */
GHOST static int touts;
static char far_buf[4][8];
/* each read is made at another depth of the stack, so that a buffer remembered from an earlier read is not the present one by chance */
static __attribute__((noinline)) void one_read(int i, int depth) {
	char pad[96]; memset(pad, 7, sizeof pad); if (depth) { one_read(i, depth - 1); for (int q = 0; q < 96; q++) CHECK(pad[q] == 7, "another frame was written to"); return; }
	char b[64]; memset(b, 7, sizeof b); int off = kmc_choose(3) * 16; int64_t c0 = kgl_current_msec, s0 = now(); int vec = kmc_choose(2); kgl_iovec v[2] = { { b + off, 2 }, { b + off + 8, 2 } };
	int r = vec ? kfiber_net_readv(C[i], v, 2) : kfiber_net_read(C[i], b + off, 2);
	if (r == ST_ERR_TIME_OUT) { in_time("read", i, c0, s0, rw); CHECK(nrecv[i] == nsent[i], "timed out with data waiting"); for (int q = 0; q < 64; q++) CHECK(b[q] == 7, "buffer touched"); touts++; return; }
	CHECK(r > 0, "read returned %d", r); for (int q = 0; q < r; q++) { char *x = q < 2 ? b + off + q : b + off + 8 + q - 2; CHECK(*x == 'a' + nrecv[i], "the read delivered wrong data after a time-out (byte %d)", q); nrecv[i]++; *x = 7; } for (int q = 0; q < 64; q++) CHECK(b[q] == 7, "wrong place written");
}
static int rt_reader(void *, int i) {
	for (int k = 0; k < 4; k++) one_read(i, k & 1);
	selectable_shutdown(&C[i]->st); char e; int r = kfiber_net_read(C[i], &e, 1); while (r > 0) r = kfiber_net_read(C[i], &e, 1); CHECK(r == 0, "after shutdown read returned %d", r); rdone[i]++; rt_done(); return 0;
}
SCEN(read_time_outs, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	mult = kmc_choose(2); setup(1, 1); KBIT_SET(C[0]->st.base.st_flags, STF_RTIME_OUT); kfiber_create2(SEL(0), rt_reader, NULL, 0, 0, NULL);
	for (int k = 0; k < 2; k++) { usleep(gaps[kmc_choose(5)] * 1000); if (rdone[0]) break; char x[3]; int n = 1 + kmc_choose(3), r; for (int q = 0; q < n; q++) x[q] = 'a' + nsent[0] + q; r = write(pf[0], x, n); if (r > 0) nsent[0] += r; }
	rt_wait(1); kmc_outcome("%d", touts); fin(1);
}
/* connects that get no answer, or a late one */
static int conn_at, conn_how;
static int connecter(void *, int i) {
	sockaddr_i a; memset(&a, 0, sizeof a); ksocket_getaddr("127.0.0.1", 3, PF_INET, AI_NUMERICHOST, &a); C[i] = kfiber_net_open(&a); C[i]->st.base.tmo = mult; int64_t c0 = kgl_current_msec, s0 = now();
	int r = kfiber_net_connect(C[i], NULL, 0); int d = (int)(now() - s0);
	if (conn_at && conn_at < 3000 * (mult + 1) - 10) { CHECK(d <= conn_at + 150, "connect answered after %d ms took %d ms", conn_at, d); CHECK(r == (conn_how ? -1 : 0), "connect returned %d", r); }
	else if (!conn_at || conn_at > (3000 + G) * (mult + 1)) { CHECK(r < 0, "a connect that timed out returned %d", r); in_time("connect", i, c0, s0, 3000); }
	kfiber_net_close(C[i]); rt_done(); return 0;
}
SCEN(connects, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	static const int at[5] = { 0, 200, 2500, 4000, 7000 }; mult = kmc_choose(2); conn_at = at[kmc_choose(5)]; conn_how = kmc_choose(2); rt_start(1); kmc_explore(0); selector_manager_set_timeout(3, 2); rt_mark();
	kfiber_create2(SEL(0), connecter, NULL, 0, 0, NULL); int pfd = -1; if (conn_at) { usleep(conn_at * 1000); if (vk_connect_pending()) vk_connect_complete(conn_how ? ECONNREFUSED : 0, &pfd); }
	rt_wait(1); if (pfd >= 0) close(pfd); usleep(10000); rt_check_released("connect"); kmc_end();
}
/* the clock is set back while operations wait */
static int st_reader(void *, int i) { char b[4]; int64_t s0 = now(); int r = kfiber_net_read(C[i], b, 4); CHECK(r <= 0, "read %d", r); int l = (int)(now() - s0); CHECK(l >= rw - 1100 && l <= rw + 1000 + G, "the read timed out after %d instead of %d ms (clock stepped)", l, rw); rdone[i]++; rt_done(); return 0; }
SCEN(clock_back, B({0,0}), B({0,0}), 30000, 0, KMC_F_SEQ) {
	static const int64_t back[3] = { 1500, 60000, 3600000 }; int two = kmc_choose(2); setup(1 + two, 2); for (int i = 0; i < 2; i++) kfiber_create2(C[i]->st.base.selector, st_reader, NULL, i, 0, NULL); usleep(1000 + 300000 * kmc_choose(5));
	struct timeval tv; gettimeofday(&tv, 0); kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec - back[kmc_choose(3)] * 1000); rt_wait(2); fin(2);
}
/* the same with connects, writes and reads waiting together on one or two event loops, also when a connection has periods left */
static void stepped(const char *what, int64_t s0, int full) { int l = (int)(now() - s0); CHECK(l >= full - 1100 && l <= full + 1000 + G * (mult + 1), "the %s timed out after %d instead of %d ms (clock stepped)", what, l, full); }
static int sb_connect(void *, int i) {
	sockaddr_i a; memset(&a, 0, sizeof a); ksocket_getaddr("127.0.0.1", 2, PF_INET, AI_NUMERICHOST, &a); kconnection *c = kfiber_net_open(&a); c->st.base.tmo = mult; int64_t s0 = now();
	CHECK(kfiber_net_connect(c, NULL, 0) < 0, "connected"); stepped("connect", s0, 3000 * (mult + 1)); kfiber_net_close(c); rdone[i]++; rt_done(); return 0;
}
static int sb_write(void *, int i) { int64_t s0 = now(); int r = kfiber_net_write(C[i], "abcdefgh", 8); while (r > 0) { s0 = now(); r = kfiber_net_write(C[i], "abcdefgh", 8); } CHECK(r < 0, "write %d", r); stepped("write", s0, rw * (mult + 1)); rt_done(); return 0; }
static int sb_read(void *, int i) { char b[4]; int64_t s0 = now(); int r = kfiber_net_read(C[i], b, 4); CHECK(r <= 0, "read %d", r); stepped("read", s0, rw * (mult + 1)); rt_done(); return 0; }
SCEN(clock_back_connects, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	static const int64_t back[3] = { 1500, 60000, 3600000 }; int two = kmc_choose(2), with = kmc_choose(4); mult = kmc_choose(2); setup(1 + two, 2); int n = 2;
	for (int i = 0; i < 2; i++) CHECK(kfiber_create2(SEL(two ? i : 0), sb_connect, NULL, i, 0, NULL) == 0, "create");
	if (with & 1) kfiber_create2(C[0]->st.base.selector, sb_write, NULL, 0, 0, NULL), n++; if (with & 2) kfiber_create2(C[1]->st.base.selector, sb_read, NULL, 1, 0, NULL), n++;
	usleep(1000 + 700000 * kmc_choose(5)); struct timeval tv; gettimeofday(&tv, 0); kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec - back[kmc_choose(3)] * 1000); rt_wait(n); CHECK(rdone[0] == 1 && rdone[1] == 1, "connects"); fin(2);
}
/* time-outs that are not positive: the default, one minute; for connecting the one of reads and writes; set again while connections wait: for what begins from then on at the latest */
GHOST static int df_c, df_r; static int df_pos(int a, int b) { return a > 0 ? a * 1000 : b > 0 ? b * 1000 : 60000; }
static int df_connect(void *, int) {
	sockaddr_i a; memset(&a, 0, sizeof a); ksocket_getaddr("127.0.0.1", 2, PF_INET, AI_NUMERICHOST, &a); kconnection *c = kfiber_net_open(&a); int64_t c0 = kgl_current_msec, s0 = now(); CHECK(kfiber_net_connect(c, NULL, 0) < 0, "connected"); in_time("connect", 0, c0, s0, df_c); kfiber_net_close(c); rt_done(); return 0;
}
static int df_read(void *, int i) { char b[4]; int64_t c0 = kgl_current_msec, s0 = now(); CHECK(kfiber_net_read(C[i], b, 4) <= 0, "data"); in_time("read", i, c0, s0, df_r); rt_done(); return 0; }
SCEN(defaults, B({0,0}), B({0,0}), 400000, 0, KMC_F_SEQ) {
	static const int v[4] = { -1, 0, 2, 5 }; setup(2, 4); int done = 0;
	for (int round = 0; round < 2; round++) { int a = v[kmc_choose(4)], b = v[kmc_choose(4)]; kmc_explore(0); selector_manager_set_timeout(a, b); usleep(1000); df_c = df_pos(a, b); df_r = df_pos(b, 0); kmc_explore(1); kfiber_create2(SEL(0), df_connect, NULL, 0, 0, NULL); kfiber_create2(SEL(1), df_connect, NULL, 0, 0, NULL); for (int i = 0; i < 2; i++) kfiber_create2(C[2 * round + i]->st.base.selector, df_read, NULL, 2 * round + i, 0, NULL); rt_wait(done += 4); }
	fin(4);
}
/* connections that wait for many periods of their loop's time-out, and time-outs of many minutes */
static void lt_mult(int sels, int n) { static const int m[6] = { 3, 15, 101, 255, 256, 300 }; setup(sels, n); rw = 1000; selector_manager_set_timeout(1, 1); for (int i = 0; i < n; i++) C[i]->st.base.tmo = m[kmc_choose(6)]; }
static int lt_read(void *, int i) { char b[4]; mult = 0; int64_t s0 = now(); int r = kfiber_net_read(C[i], b, 4); while (r > 0) { s0 = now(); r = kfiber_net_read(C[i], b, 4); } int l = (int)(now() - s0), k = C[i]->st.base.tmo + 1; CHECK(l >= k * rw - 200 && l <= k * (rw + G), "a connection with %d periods of %d ms timed out after %d ms", k, rw, l); rdone[i]++; rt_done(); return 0; }
SCEN(many_periods, B({0,0}), B({0,0}), 900000, 0, KMC_F_SEQ) {
	int two = kmc_choose(2); lt_mult(1 + two, 2); int active = kmc_choose(3); for (int i = 0; i < 2; i++) kfiber_create2(C[i]->st.base.selector, lt_read, NULL, i, 0, NULL);
	if (active) { usleep(active == 1 ? 3500000 : 90000000); for (int i = 0; i < 2; i++) if (!rdone[i]) CHECK(write(pf[i], "x", 1) == 1, "peer write"); } rt_wait(2); fin(2);
}
static const int lt_v[6] = { 31, 66, 132, 256, 4000, 86400 };
static int lt_wait(void *a, int i) { int kind = (int)(long)a; mult = 0; if (kind == 1) df_c = rw, df_connect(NULL, 0); else if (kind == 2) { int64_t c0 = kgl_current_msec, s0 = now(); int r = kfiber_net_write(C[i], "abcdefgh", 8); while (r > 0) r = kfiber_net_write(C[i], "abcdefgh", 8); int e = (int)(kgl_current_msec - c0); CHECK(e >= rw && e < rw + G, "write timed out after %d of %d ms", e, rw); rt_done(); } else { char b[4]; int64_t c0 = kgl_current_msec; CHECK(kfiber_net_read(C[i], b, 4) <= 0, "data"); int e = (int)(kgl_current_msec - c0); CHECK(e >= rw && e < rw + G, "read timed out after %d of %d ms", e, rw); rt_done(); } rdone[i]++; return 0; }
SCEN(long_time_outs, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	mult = 0; setup(1, 1); int v = lt_v[kmc_choose(6)], kind = kmc_choose(3); rw = v * 1000; if (kind == 1) selector_manager_set_timeout(v, 2); else selector_manager_set_timeout(2, v); usleep(1000);
	kfiber_create2(SEL(0), lt_wait, (void *)(long)kind, 0, 0, NULL); usleep(100000); struct timeval tv; gettimeofday(&tv, 0); kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec + ((int64_t)rw - 500) * 1000);
	usleep(200000); CHECK(!rdone[0], "ended before its time-out of %d s", v); usleep(600000); CHECK(rdone[0] == 1, "not ended %d ms after its time-out of %d s", 300, v); rt_wait(1); fin(1);
}
/* a crowd of idle connections, every third of them active: the others end on time */
#define CROWD 300
static kconnection *crc[CROWD]; static int crp[CROWD]; static char crb[CROWD][8]; static kgl_iovec crv[CROWD], crio[CROWD]; GHOST static int cr_n, cr_e[CROWD]; GHOST static int64_t cr_t0;
static kev_result cr_r(KOPAQUE, void *arg, int got) { int i = (int)(long)arg; if (got > 0) { CHECK(i % 3 == 0, "data of another connection"); selectable_read(&crc[i]->st, cr_r, &crio[i], arg); return kev_ok; } CHECK(++cr_e[i] == 1, "ended twice"); int t = (int)(now() - cr_t0); CHECK(i % 3 ? t >= 1900 && t < 2000 + 2 * G : t >= 4900 && t < 5000 + 2 * G, "connection %d ended after %d ms", i, t); cr_n++; return kev_ok; }
static kev_result cr_begin(KOPAQUE, void *, int) { cr_t0 = now(); for (int i = 0; i < CROWD; i++) { crv[i].iov_base = crb[i]; crv[i].iov_len = 8; crio[i].iov_base = (char *)&crv[i]; crio[i].iov_len = 1; selectable_read(&crc[i]->st, cr_r, &crio[i], (void *)(long)i); } return kev_ok; }
static kev_result cr_end(KOPAQUE, void *, int) { for (int i = 0; i < CROWD; i++) kconnection_destroy(crc[i]); rt_done(); return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 30000, 1, 0) {
	rt_start(1); kmc_explore(0); selector_manager_set_timeout(3, 2); rt_mark();
	for (int i = 0; i < CROWD; i++) { int f[2]; vk_socketpair(f, 1); crp[i] = f[1]; crc[i] = kconnection_new(NULL); crc[i]->st.fd = f[0]; selectable_bind(&crc[i]->st, SEL(0)); }
	kgl_selector_module.next(SEL(0), NULL, cr_begin, NULL, 0); for (int k = 0; k < 3; k++) { usleep(1000000); for (int i = 0; i < CROWD; i += 3) CHECK(write(crp[i], "x", 1) == 1, "peer write"); }
	CHECK(cr_n == CROWD - (CROWD + 2) / 3, "%d connections ended", cr_n); usleep(3000000); CHECK(cr_n == CROWD, "%d connections ended", cr_n);
	kgl_selector_module.next(SEL(0), NULL, cr_end, NULL, 0); rt_wait(1); for (int i = 0; i < CROWD; i++) close(crp[i]); rt_check_released("crowd"); kmc_end();
}
