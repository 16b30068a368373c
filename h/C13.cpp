/* the end of a connection: shutting it down (from anywhere), the peer's end or reset, ends every pending operation exactly once; closing
 * delivers what was written, then the end; nothing is called after the close, nothing is left behind, other connections go on. */
#define KEEP_SSL_INIT
#include "common.h"
#include "kgl_ssl.h"
#include <openssl/rand.h>
#include "C11_pem.h"
#define NC 3
struct conn { kconnection *c; int peer, rp, wp, hp, nr, nw, nh, rres, wres, inq, closed, shut, act, tgt; unsigned char rb[8], wb[8]; kgl_iovec rv, rio, wv, wio; };
GHOST static conn C[NC]; GHOST static char hist[64]; GHOST static int rop, wop;
static kconnection *mkc(int fd, int sel) { kconnection *c = kconnection_new(NULL); c->st.fd = fd; selectable_bind(&c->st, SEL(sel)); return c; }
static void mk(int i, int cap, int peerblock, int sel) { conn *k = &C[i]; vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, peerblock ? 1 : 3); k->c = mkc(p[0], sel); k->c->st.data = (KOPAQUE)k; k->peer = p[1]; }
static kev_result on_r(KOPAQUE d, void *a, int got) { conn *k = (conn *)a; CHECK(d == (KOPAQUE)k, "read: opaque"); CHECK(!k->closed, "read callback after the close"); CHECK(k->rp, "read ended twice"); k->rp = 0; k->nr++; k->rres = got; return kev_ok; }
static kev_result on_w(KOPAQUE d, void *a, int got) { conn *k = (conn *)a; CHECK(d == (KOPAQUE)k, "write: opaque"); CHECK(!k->closed, "write callback after the close"); CHECK(k->wp, "write ended twice"); k->wp = 0; k->nw++; k->wres = got; return kev_ok; }
static kev_result on_h(KOPAQUE d, void *a, int) { conn *k = (conn *)a; CHECK(d == (KOPAQUE)k, "watch: opaque"); CHECK(!k->closed, "hang-up callback after the close"); CHECK(k->hp, "hang-up reported twice"); k->hp = 0; k->nh++; return kev_ok; }
static void s_read(conn *k, int n) { k->rv.iov_base = (char *)k->rb; k->rv.iov_len = n; k->rio.iov_base = (char *)&k->rv; k->rio.iov_len = 1; k->rp = 1; selectable_read(&k->c->st, on_r, &k->rio, k); }
static void s_write(conn *k, int n) { memset(k->wb, 'w', 8); k->wv.iov_base = (char *)k->wb; k->wv.iov_len = n; k->wio.iov_base = (char *)&k->wv; k->wio.iov_len = 1; k->wp = 1; selectable_write(&k->c->st, on_w, &k->wio, k); }
static void s_hup(conn *k) { k->hp = 1; CHECK(selectable_readhup(&k->c->st, on_h, k), "hang-up watch refused"); }
enum { O_READ, O_WRITE, O_HUP, O_SHUT, O_CLOSE, O_UNHUP, O_CREATE_CLOSE };
static kev_result op(KOPAQUE, void *a, int o) {
	conn *k = (conn *)a;
	switch (o & 15) { case O_READ: s_read(k, 3); break; case O_WRITE: s_write(k, 3); break; case O_HUP: s_hup(k); break; case O_SHUT: selectable_shutdown(&k->c->st); k->shut = 1; break; case O_CLOSE: k->closed = 1; kconnection_destroy(k->c); break; case O_UNHUP: k->hp = 0; selectable_remove_readhup(&k->c->st); break; }
	return kev_ok;
}
static int op_fiber(void *a, int o) { op(NULL, a, o); rt_done(); return 0; }
/* runs o on the loop, from a plain callback or inside a fiber */
static void on_loop(int i, int o, int fib) { if (fib) kfiber_create2(C[i].c->st.base.selector, op_fiber, &C[i], o, 0, NULL); else kgl_selector_module.next(C[i].c->st.base.selector, NULL, op, &C[i], o); usleep(1000); }
static void *shut_thread(void *a) { selectable_shutdown(&((conn *)a)->c->st); return 0; }
#ifndef TLS_ONLY
/* one connection: what is pending x what happened before x how it ends x what is tried afterwards */
SCEN(ends, B({0,0}), B({0,0},{0,1}), 6000, 1, KMC_F_SEQ | KMC_F_EPORDER) {
	int pend = kmc_choose(6), before = kmc_choose(3), queued = kmc_choose(2), how = kmc_choose(6), after = kmc_choose(3), fib = kmc_choose(2); /* pend: none r w rw wr h */
	if (queued && (pend == 1 || pend >= 3)) { kmc_end(); }
	rt_start(1); rt_mark(); kmc_explore(0); mk(0, 4, 0, 0); conn *k = &C[0]; char b[16];
	if (before == 1) { on_loop(0, O_READ, fib); CHECK(k->rp, "read"); CHECK(write(k->peer, "abc", 3) == 3, "peer"); usleep(1000); CHECK(!k->rp && k->rres == 3, "read"); k->nr = 0; }
	if (before == 2) { on_loop(0, O_HUP, fib); CHECK(k->hp, "hup"); on_loop(0, O_UNHUP, fib); }
	if (pend >= 2 && pend <= 4) CHECK(write(k->c->st.fd, "xxxx", 4) == 4, "fill"); /* no room: a write has to wait */
	kmc_explore(1);
	if (pend == 1 || pend == 3) on_loop(0, O_READ, fib);
	if (pend >= 2 && pend <= 4) on_loop(0, O_WRITE, fib);
	if (pend == 4) on_loop(0, O_READ, !fib);
	if (pend == 5) on_loop(0, O_HUP, fib);
	if (queued) { CHECK(write(k->peer, "de", 2) == 2, "peer"); k->inq = 2; usleep(1000); }
	int xr = pend == 1 || pend == 3 || pend == 4, xw = pend >= 2 && pend <= 4, xh = pend == 5, peer_open = 1; CHECK(k->rp == xr && k->wp == xw && k->hp == xh, "operation ended early (pending %d, before %d)", pend, before);
	switch (how) {
	case 0: on_loop(0, O_SHUT, fib); break;
	case 1: { pthread_t t; pthread_create(&t, 0, shut_thread, k); pthread_join(t, 0); break; }
	case 2: close(k->peer); peer_open = 0; break;
	case 3: vk_rst(k->peer); close(k->peer); peer_open = 0; break;
	case 4: shutdown(k->peer, SHUT_WR); break;
	case 5: shutdown(k->peer, SHUT_RDWR); break;
	}
	usleep(2000);
	CHECK(!k->rp && k->nr == xr, "the pending read ended %d times (how %d)", k->nr, how); if (xr) CHECK(k->rres <= 0, "a read ended with %d at the end of the connection", k->rres); if (xr && (how == 0 || how == 4)) CHECK(k->rres == 0, "a read returned %d at the end of the stream", k->rres);
	CHECK(!k->wp && k->nw == xw, "the pending write ended %d times (how %d)", k->nw, how); if (xw) CHECK(k->wres < 0, "a write ended with %d after the end of the connection", k->wres);
	CHECK(!k->hp && k->nh == xh, "the hang-up watch ended %d times (how %d)", k->nh, how); k->nr = k->nw = k->nh = 0;
	if (after) { /* operations started later end at once */
		on_loop(0, O_READ, !fib); CHECK(!k->rp && k->nr == 1, "a read started after the end waits (how %d)", how);
		if (k->inq && (how != 3 || k->rres > 0)) { CHECK(k->rres == 2 && !memcmp(k->rb, "de", 2), "bytes received before the end were lost (%d, how %d)", k->rres, how); on_loop(0, O_READ, fib); CHECK(!k->rp, "waits"); }
		CHECK(k->rres <= 0, "a read returned %d after the end", k->rres); on_loop(0, O_READ, fib); CHECK(!k->rp && k->rres <= 0, "a second read after the end waits");
		if (after == 2) { if (how == 4 && xw == 0) { /* the peer only closed its direction */ } else { on_loop(0, O_WRITE, fib); CHECK(!k->wp && k->nw == 1, "a write started after the end waits (how %d)", how); if (how != 4) CHECK(k->wres < 0, "a write succeeded (%d) after the end (how %d)", k->wres, how); } }
	}
	on_loop(0, O_CLOSE, fib);
	if (peer_open) { int n = read(k->peer, b, 16); if (xw) { CHECK(n == 4 && !memcmp(b, "xxxx", 4), "bytes written before the close were lost (%d)", n); n = read(k->peer, b, 16); } CHECK(n == 0 || (n < 0 && errno != EAGAIN), "the peer sees %d after the close", n); close(k->peer); }
	usleep(300000); CHECK(!k->rp && !k->wp && !k->hp, "left"); rt_check_released("connection"); kmc_outcome("%d %d", k->rres, k->wres); kmc_end();
}
/* three connections get their events in the same round; the callback of each may shut down, close or reset another or itself */
static kev_result act_r(KOPAQUE d, void *a, int got) {
	conn *k = (conn *)a; CHECK(d == (KOPAQUE)k && !k->closed, "read callback after the close"); CHECK(k->rp, "read ended twice"); k->rp = 0; k->nr++; k->rres = got; conn *t = &C[k->tgt];
	switch (k->act) {
	case 1: if (!t->closed) { selectable_shutdown(&t->c->st); t->shut = 1; } break;
	case 2: if (!t->closed && !t->rp && !t->wp) { if (t->hp) { t->hp = 0; selectable_remove_readhup(&t->c->st); } t->closed = 1; kconnection_destroy(t->c); if (t == k) return kev_destroy; } break;
	case 3: if (!k->closed) { k->rp = 1; selectable_read(&k->c->st, act_r, &k->rio, k); k->act = 0; } break;
	case 4: if (!t->closed && !t->wp && t != k) { t->hp = 0; s_write(t, 1); } break;
	}
	return kev_ok;
}
static kev_result act_start(KOPAQUE, void *, int h) {
	for (int i = 0; i < NC; i++) { conn *k = &C[i]; if (h >> i & 1) s_hup(k); else { k->rv.iov_base = (char *)k->rb; k->rv.iov_len = 3; k->rio.iov_base = (char *)&k->rv; k->rio.iov_len = 1; k->rp = 1; selectable_read(&k->c->st, act_r, &k->rio, k); } }
	return kev_ok;
}
static kev_result fin_all(KOPAQUE, void *, int) { for (int i = 0; i < NC; i++) if (!C[i].closed) { CHECK(!C[i].rp && !C[i].wp && !C[i].hp, "connection %d still has a pending operation", i); C[i].closed = 1; kconnection_destroy(C[i].c); } rt_done(); return kev_ok; }
static kev_result burst(KOPAQUE, void *, int fin) { for (int i = 0; i < NC; i++) { if (fin >> i & 1) { close(C[i].peer); C[i].peer = -1; } else CHECK(write(C[i].peer, "m", 1) == 1, "peer"); } return kev_ok; }
static void batch(int hmask) {
	int fin = 0, v = kmc_choose(8); for (int i = 0; i < NC; i++) { C[i].act = kmc_choose(5); if (C[i].act && C[i].act != 3) C[i].tgt = kmc_choose(NC); else C[i].tgt = i; if (v >> i & 1) fin |= 1 << i; }
	rt_start(1); rt_mark(); kmc_explore(0); for (int i = 0; i < NC; i++) mk(i, 8, 0, 0); kmc_explore(1);
	kgl_selector_module.next(SEL(0), NULL, act_start, NULL, hmask); usleep(1000); fin |= hmask; kgl_selector_module.next(SEL(0), NULL, burst, NULL, fin); usleep(2000);
	for (int i = 0; i < NC; i++) { conn *k = &C[i]; int h = hmask >> i & 1;
		if (!h) { CHECK(k->nr >= 1, "connection %d was not told of its event", i); }
		else if (!k->closed && k->nw + k->wp == 0) CHECK(k->nh == 1 || k->shut || !k->hp, "the hang-up of connection %d was not reported", i);
		CHECK(k->nh <= 1, "hang-up of %d reported %d times", i, k->nh); }
	/* the end: shut everything down */
	for (int i = 0; i < NC; i++) if (!C[i].closed) kgl_selector_module.next(SEL(0), NULL, op, &C[i], O_SHUT); usleep(2000);
	kgl_selector_module.next(SEL(0), NULL, fin_all, NULL, 0); rt_wait(1); for (int i = 0; i < NC; i++) if (C[i].peer >= 0) close(C[i].peer); rt_check_released("connections"); kmc_outcome("%d %d %d", C[0].nr, C[1].nr, C[2].nr); kmc_end();
}
SCEN(batch_read, B({0,0},{0,1}), B({0,2},{0,3}), 6000, 1, KMC_F_SEQ | KMC_F_EPORDER) { batch(0); }
SCEN(batch_hup, B({0,0},{0,1}), B({0,2}), 6000, 1, KMC_F_SEQ | KMC_F_EPORDER) { batch(1 + kmc_choose(6)); }
/* fibers read and write on one loop while another loop, thread or the peer ends the connection */
GHOST static int rend, wend; static int fr(void *a, int) { conn *k = (conn *)a; char b[4]; int r; while ((r = kfiber_net_read(k->c, b, 3)) > 0) k->inq -= r; CHECK(r == 0 || r == -1, "read ended with %d", r); rend++; rt_done(); return 0; }
static int fw(void *a, int) { conn *k = (conn *)a; int r; while ((r = kfiber_net_write(k->c, "abcdefgh", 8)) > 0); CHECK(r == -1, "write ended with %d", r); wend++; rt_done(); return 0; }
static int fclose_(void *a, int) { kfiber_net_close(((conn *)a)->c); rt_done(); return 0; }
static int fshut(void *a, int) { kfiber_net_shutdown(((conn *)a)->c); rt_done(); return 0; }
static void *enders(void *a) { conn *k = (conn *)a; switch (k->act) { case 0: selectable_shutdown(&k->c->st); break; case 1: { char b[3]; CHECK(write(k->peer, "abc", 3) == 3, "peer"); read(k->peer, b, 3); shutdown(k->peer, SHUT_RDWR); break; } case 2: vk_rst(k->peer); break; } rt_done(); return 0; }
static void race(int how, int two) {
	rt_start(two ? 2 : 1); rt_mark(); kmc_explore(0); mk(0, 4, 1, 0); C[0].act = how; int n = 3; kmc_explore(1); pthread_t t; if (how < 3) pthread_create(&t, 0, enders, &C[0]); else kfiber_create2(SEL(two), fshut, &C[0], 0, 0, NULL);
	if (how == 4) { mk(1, 4, 1, 0); kfiber_create2(SEL(0), fr, &C[1], 0, 0, NULL); }
	kfiber_create2(SEL(0), fr, &C[0], 0, 0, NULL); kfiber_create2(SEL(0), fw, &C[0], 0, 0, NULL); rt_wait(n); if (how < 3) pthread_join(t, 0); CHECK(rend == 1 && wend == 1, "ended %d reads, %d writes", rend, wend);
	if (how == 4) { usleep(1000); CHECK(rend == 1, "a read on another connection ended"); close(C[1].peer); rt_wait(n = 4); kfiber_create2(SEL(0), fclose_, &C[1], 0, 0, NULL); n++; rt_wait(n); }
	kmc_explore(0); kfiber_create2(SEL(0), fclose_, &C[0], 0, 0, NULL); rt_wait(n + 1); close(C[0].peer); rt_check_released("connection"); kmc_end();
}
SCEN(thread_shutdown, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{3,1}), 6000, 1, KMC_F_EPORDER) { race(0, 0); }
SCEN(peer_shutdown, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 6000, 1, KMC_F_EPORDER) { race(1, 0); }
SCEN(peer_reset, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{3,1}), 6000, 1, KMC_F_EPORDER) { race(2, 0); }
SCEN(loop_shutdown, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 6000, 1, KMC_F_EPORDER) { race(3, 1); }
SCEN(fiber_shutdown, B({0,0},{0,1},{2,0}), B({3,0},{2,1}), 6000, 1, KMC_F_EPORDER) { race(4, 0); }
/* what was written before the close arrives, then the end, whatever the peer does meanwhile */
GHOST static int sent_, peer_got, peer_end; static int wclose(void *a, int m) { conn *k = (conn *)a; int r; for (int i = 0; i < 2; i++) { r = kfiber_net_write(k->c, "abc", 3); if (r > 0) sent_ += r; } if (m) kfiber_net_shutdown(k->c); kfiber_net_close(k->c); k->closed = 1; rt_done(); return 0; }
static void *drain(void *a) { conn *k = (conn *)a; char b[4]; int r; while ((r = read(k->peer, b, 2)) > 0) { peer_got += r; } peer_end = r; close(k->peer); rt_done(); return 0; }
SCEN(flush, B({0,0},{1,0},{2,1},{3,0}), B({3,1},{4,1}), 6000, 1, KMC_F_EPORDER | KMC_F_SHORTIO) { rt_start(1); rt_mark(); kmc_explore(0); mk(0, 4, 1, 0); kmc_explore(1); pthread_t t; pthread_create(&t, 0, drain, &C[0]); kfiber_create2(SEL(0), wclose, &C[0], 0, 0, NULL); rt_wait(2); pthread_join(t, 0); CHECK(peer_end == 0 && peer_got == sent_ && sent_ > 0, "the peer got %d of %d bytes, end %d", peer_got, sent_, peer_end); rt_check_released("connection"); kmc_end(); }
/* a crowd: many connections with operations pending end at once, in every way; the others stay as they are */
#define CROWD 160
static conn cr[CROWD]; static kev_result cr_all(KOPAQUE, void *a, int o) { int only = (int)(long)a; for (int i = 0; i < CROWD; i++) if (only < 0 || i % 5 == only) op(NULL, &cr[i], o == O_HUP && i % 2 ? O_READ : o); return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0); vk_set_sockbuf(4);
	for (int i = 0; i < CROWD; i++) { int p[2]; vk_socketpair(p, 3); cr[i].c = mkc(p[0], 0); cr[i].c->st.data = (KOPAQUE)&cr[i]; cr[i].peer = p[1]; if (i % 6 == 3) CHECK(write(p[0], "xxxx", 4) == 4, "fill"); }
	kgl_selector_module.next(SEL(0), NULL, cr_all, (void *)-1L, O_HUP); usleep(300000); for (int i = 0; i < CROWD; i++) { CHECK(i % 2 ? cr[i].rp : cr[i].hp, "%d: not pending", i); if (i % 6 == 3) kgl_selector_module.next(SEL(0), NULL, op, &cr[i], O_WRITE); } usleep(300000); kmc_explore(1);
	kgl_selector_module.next(SEL(0), NULL, cr_all, (void *)0L, O_SHUT);
	for (int i = 0; i < CROWD; i++) switch (i % 5) { case 1: close(cr[i].peer); break; case 2: vk_rst(cr[i].peer); close(cr[i].peer); break; case 3: shutdown(cr[i].peer, SHUT_RDWR); break; }
	pthread_t t; pthread_create(&t, 0, shut_thread, &cr[CROWD - 1]); pthread_join(t, 0); usleep(500000); kmc_explore(0);
	for (int i = 0; i < CROWD; i++) { conn *k = &cr[i]; int end = i % 5 != 4 || i == CROWD - 1, w = i % 6 == 3;
		CHECK(k->nr == (end && i % 2) && k->nh == (end && !(i % 2)) && k->nw == (end && w), "connection %d, ended in way %d: %d reads, %d hang-up watches, %d writes ended", i, i % 5, k->nr, k->nh, k->nw);
		if (!end) { char b[4]; if (w) CHECK(read(k->peer, b, 4) == 4, "read"); if (i % 2) CHECK(write(k->peer, "ab", 2) == 2, "write"); } }
	usleep(300000); for (int i = 4; i < CROWD - 1; i += 5) { conn *k = &cr[i]; CHECK(k->nr == i % 2 && k->nw == (i % 6 == 3), "connection %d did not go on", i); if (i % 2) CHECK(k->rres == 2, "read %d", k->rres); if (k->nw) CHECK(k->wres == 3, "write %d", k->wres); close(k->peer); } usleep(300000);
	for (int i = 0; i < CROWD; i++) if (i % 5 == 0 || i % 5 == 3 || i == CROWD - 1) close(cr[i].peer);
	kgl_selector_module.next(SEL(0), NULL, cr_all, (void *)-1L, O_CLOSE); usleep(300000); rt_check_released("crowd"); kmc_end();
}
#endif
/* TLS */
static int drand(unsigned char *b, int n) { static unsigned ctr; uint64_t x = ++ctr * 2654435761u; for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 24; } return 1; }
static int dstat(void) { return 1; }
static RAND_METHOD rmeth = { NULL, drand, NULL, NULL, drand, dstat };
static kgl_ref_str_t mkstr(const char *s) { kgl_ref_str_t r; memset(&r, 0, sizeof r); r.data = (char *)s; r.len = strlen(s); r.ref = 1; return r; }
__attribute__((constructor)) static void warm(void) { OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG, NULL); RAND_set_rand_method(&rmeth); kgl_ref_str_t c = mkstr(pem_ca), k = mkstr(pem_ka); (void)c; (void)k; }
static SSL *P; static BIO *pin, *pout; GHOST static int tls_rd, tls_rres, tls_wres, destroyed;
static int pump(conn *k, int rd, int wr) { unsigned char b[4096]; int n, any = 0; if (wr) while ((n = BIO_read(pout, b, sizeof b)) > 0) { int at = 0; while (at < n) { int r = write(k->peer, b + at, n - at); if (r <= 0) return any; at += r; usleep(1000); } any = 1; } if (rd) { usleep(1000); while (vk_readable(k->peer) > 0 && (n = read(k->peer, b, sizeof b)) > 0) { BIO_write(pin, b, n); any = 1; usleep(1000); } } return any; }
static int tls_hs(void *a, int) { conn *k = (conn *)a; CHECK(kfiber_ssl_handshake(k->c) == 0, "handshake"); rt_done(); return 0; }
static int tls_reader(void *a, int) { conn *k = (conn *)a; char b[4]; tls_rd = 1; tls_rres = kfiber_net_read(k->c, b, 3); CHECK(tls_rres <= 0, "read returned %d", tls_rres); tls_rd = 2; rt_done(); return 0; }
static char bigb[6000]; static int tls_writer(void *a, int) { conn *k = (conn *)a; int len = sizeof bigb; bool ok = kfiber_net_write_full(k->c, bigb, &len); tls_wres = ok; rt_done(); return 0; }
static int tls_closer(void *a, int) { conn *k = (conn *)a; kfiber_net_close(k->c); k->closed = 1; rt_done(); return 0; }
static int tls_shutter(void *a, int) { kfiber_net_shutdown(((conn *)a)->c); rt_done(); return 0; }
static kev_result tls_destroy(KOPAQUE, void *a, int) { conn *k = (conn *)a; kconnection_destroy(k->c); rt_done(); return kev_ok; }
static void tls_end(int opaque) {
	int v12 = kmc_choose(2), srv = kmc_choose(2), how = kmc_choose(3), state = kmc_choose(6), full = kmc_choose(2), rdp = how == 1 ? kmc_choose(2) : 0, stuck = how == 1 && full && state && state < 3 ? kmc_choose(2) : 0; /* how: close / shutdown then close / destroy callback */
	rt_start(1); rt_mark(); kmc_explore(0); conn *k = &C[0]; kgl_ref_str_t c = mkstr(pem_ca), ky = mkstr(pem_ka); SSL_CTX *s = kgl_ssl_ctx_new_server2(&c, &ky, NULL, NULL, NULL), *cl = kgl_ssl_ctx_new_client(NULL, NULL, NULL); if (v12) kgl_ssl_ctx_set_protocols(s, "TLSv1.2");
	mk(0, 2000, 0, 0); if (!opaque) k->c->st.data = NULL; CHECK(srv ? kconnection_ssl_accept(k->c, s) : kconnection_ssl_connect(k->c, cl, "x"), "ssl");
	P = SSL_new(srv ? cl : s); pin = BIO_new(BIO_s_mem()); pout = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(pin, -1); SSL_set_bio(P, pin, pout); if (srv) SSL_set_connect_state(P); else SSL_set_accept_state(P);
	int need = 0, hsdone = 0, filled = 0; if (state) { kfiber_create2(SEL(0), tls_hs, k, 0, 0, NULL); need++; for (int i = 0; i < 20 && !hsdone; i++) { int r = SSL_do_handshake(P); pump(k, 1, 1); if (r == 1 && g_done == 1) hsdone = 1; } CHECK(hsdone, "handshake"); char b[64]; pump(k, 1, 1); SSL_read(P, b, 1); pump(k, 1, 1); }
	/* states: 0 no handshake, 1 connected, 2 the peer sent its alert, 3 the peer closed, 4 reset, 5 the peer sent data that was not read */
	if (full && state) { filled = 1; kfiber_create2(SEL(0), tls_writer, k, 0, 0, NULL); usleep(2000); }
	int peer_open = 1; if (state == 2) { SSL_shutdown(P); pump(k, 0, 1); } else if (state == 3) { close(k->peer); peer_open = 0; } else if (state == 4) { vk_rst(k->peer); close(k->peer); peer_open = 0; } else if (state == 5) { SSL_write(P, "abcdef", 6); pump(k, 0, 1); if (rdp) { usleep(1000); } }
	usleep(2000); if (rdp && state == 5) kmc_end();
	if (rdp && state) { kfiber_create2(SEL(0), tls_reader, k, 0, 0, NULL); need++; usleep(2000); CHECK(tls_rd == 1 || state >= 2, "read"); }
	kmc_explore(1); int64_t t0 = kmc_now_us();
	if (stuck) { need++; CHECK(g_done == need - 1 - (rdp && state == 1), "the write has room"); }
	else if (filled && peer_open) { for (int i = 0; i < 50 && !(g_done >= need + 1); i++) { pump(k, 1, 0); usleep(1000); } need++; CHECK(tls_wres == 1, "the write did not end"); CHECK(write(k->c->st.fd, bigb, 2000) > 0 || 1, "fill"); }
	else if (filled) need++;
	if (how == 0) { kfiber_create2(SEL(0), tls_closer, k, 0, 0, NULL); need++; }
	else if (how == 2) { kgl_selector_module.next(SEL(0), NULL, tls_destroy, k, 0); need++; }
	else { kfiber_create2(SEL(0), tls_shutter, k, 0, 0, NULL); need++; }
	if (stuck) { usleep(1000); CHECK(g_done == need, "shutdown left %d of %d calls waiting", need - g_done, need); CHECK(tls_wres == 0, "the interrupted write succeeded"); }
	usleep(200000); /* with a full socket the closing alert has to wait for room; the peer reads on */
	if (peer_open) { char b[300]; int r, tot = 0; for (int i = 0; i < 20; i++) { pump(k, 1, 0); usleep(1000); if (!filled) while ((r = SSL_read(P, b, sizeof b)) > 0) tot += r; }
		if (!filled && state && state != 4) CHECK(SSL_get_shutdown(P) & SSL_RECEIVED_SHUTDOWN || state == 2, "no closing alert was sent (state %d, how %d)", state, how); }
	rt_wait(need); if (rdp && state) CHECK(tls_rd == 2, "the pending read did not end");
	if (how == 1) { kfiber_create2(SEL(0), tls_closer, k, 0, 0, NULL); rt_wait(++need); }
	usleep(2000); if (peer_open) { char b[4000]; int n; while ((n = read(k->peer, b, sizeof b)) > 0); CHECK(n == 0 || errno != EAGAIN, "the connection was not closed"); close(k->peer); }
	CHECK(kmc_now_us() - t0 < 2000000, "closing took %d ms", (int)((kmc_now_us() - t0) / 1000)); SSL_free(P); SSL_CTX_free(s); SSL_CTX_free(cl); kmc_explore(0); rt_check_released("TLS connection"); kmc_end();
}
SCEN(tls, B({0,0}), B({0,0}), 9000, 1, KMC_F_FORK | KMC_F_SEQ) { tls_end(0); }
SCEN(tls_opaque, B({0,0}), B({0,0}), 9000, 1, KMC_F_FORK | KMC_F_SEQ) { tls_end(1); }
/* the peer does not read at all: a close with the alert undelivered ends after the time-out; a reader or silent peer ends earlier */
SCEN(tls_deaf, B({0,0}), B({0,0}), 90000, 1, KMC_F_FORK | KMC_F_SEQ) {
	int srv = kmc_choose(2), how = kmc_choose(3), later = kmc_choose(4); rt_start(1); rt_mark(); kmc_explore(0); conn *k = &C[0]; kgl_ref_str_t c = mkstr(pem_ca), ky = mkstr(pem_ka); SSL_CTX *s = kgl_ssl_ctx_new_server2(&c, &ky, NULL, NULL, NULL), *cl = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	mk(0, 3000, 0, 0); k->c->st.data = NULL; CHECK(srv ? kconnection_ssl_accept(k->c, s) : kconnection_ssl_connect(k->c, cl, "x"), "ssl");
	P = SSL_new(srv ? cl : s); pin = BIO_new(BIO_s_mem()); pout = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(pin, -1); SSL_set_bio(P, pin, pout); if (srv) SSL_set_connect_state(P); else SSL_set_accept_state(P);
	int hsdone = 0; kfiber_create2(SEL(0), tls_hs, k, 0, 0, NULL); for (int i = 0; i < 20 && !hsdone; i++) { int r = SSL_do_handshake(P); pump(k, 1, 1); if (r == 1 && g_done == 1) hsdone = 1; } CHECK(hsdone, "handshake"); pump(k, 1, 1);
	int n; while ((n = write(k->c->st.fd, bigb, 1000)) > 0); CHECK(errno == EAGAIN, "fill"); int64_t t0 = kmc_now_us();
	if (how == 0) kfiber_create2(SEL(0), tls_closer, k, 0, 0, NULL); else if (how == 2) kgl_selector_module.next(SEL(0), NULL, tls_destroy, k, 0); else kfiber_create2(SEL(0), tls_shutter, k, 0, 0, NULL);
	usleep(20000000); if (how != 2) CHECK(g_done == 1, "the close did not wait for room");
	int open_ = 1; if (later == 1) { close(k->peer); open_ = 0; } if (later == 2) { vk_rst(k->peer); close(k->peer); open_ = 0; } if (later == 3) { while (vk_readable(k->peer) > 0 && read(k->peer, bigb, 1000) > 0); }
	rt_wait(2); usleep(10000); if (how == 1) { kfiber_create2(SEL(0), tls_closer, k, 0, 0, NULL); rt_wait(3); } int64_t d = (kmc_now_us() - t0) / 1000;
	if (how != 2) { if (later) CHECK(d < 20500, "closing took %d ms", (int)d); else CHECK(d >= 59900 && d < 61000, "closing took %d ms", (int)d); } else usleep(50000000);
	if (open_) { usleep(10000); while ((n = read(k->peer, bigb, sizeof bigb)) > 0); CHECK(n == 0 || errno != EAGAIN, "the connection was not closed"); close(k->peer); }
	SSL_free(P); SSL_CTX_free(s); SSL_CTX_free(cl); rt_check_released("TLS connection"); kmc_end();
}
