/* TLS connections: the handshake ends exactly once, with success only when the TLS peers agree; application data arrives exactly and in
 * order whatever the kernel accepts per call and however the bytes of the records are delivered; a peer that breaks off or sends garbage
 * produces an error, never wrong data; closing sends the closing alert and releases everything. Real OpenSSL over the virtual kernel. */
#define KEEP_SSL_INIT
#include "common.h"
#include "kgl_ssl.h"
#include <openssl/rand.h>
#include "C11_pem.h"
GHOST static int live_ssl, live_ctx; static int cnt_ssl = -1;
GHOST static void *dead_ctx[16]; GHOST static int n_dead, watch_ctx; /* TLS contexts already released, while watched */
static void ex_new(void *o, void *, CRYPTO_EX_DATA *, int, long l, void *p) { if (l) { live_ctx++; for (int i = 0; i < n_dead; i++) if (dead_ctx[i] == o) dead_ctx[i] = NULL; } else live_ssl++; }
static void ex_free(void *o, void *, CRYPTO_EX_DATA *, int, long l, void *p) { if (l) { live_ctx--; if (watch_ctx && n_dead < 16) dead_ctx[n_dead++] = o; } else live_ssl--; }
GHOST static unsigned rctr[64];
static int drand(unsigned char *b, int n) { unsigned t = kmc_tid() & 63; uint64_t x = ++rctr[t] * 2654435761u + t * 977; for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 24; } return 1; }
static int dstat(void) { return 1; }
static RAND_METHOD rmeth = { NULL, drand, NULL, NULL, drand, dstat };
static kgl_ref_str_t mkstr(const char *s) { kgl_ref_str_t r; memset(&r, 0, sizeof r); r.data = (char *)s; r.len = strlen(s); r.ref = 1; return r; }
static SSL_CTX *server_ctx(int second, void *data) { kgl_ref_str_t c = mkstr(second ? pem_cb : pem_ca), k = mkstr(second ? pem_kb : pem_ka); SSL_CTX *x = kgl_ssl_ctx_new_server2(&c, &k, NULL, NULL, data); CHECK(x != NULL, "server context"); return x; }
/* OpenSSL initialises itself once, in the parent of all runs */
__attribute__((constructor)) static void warm(void) {
	OPENSSL_init_ssl(OPENSSL_INIT_NO_LOAD_CONFIG, NULL); RAND_set_rand_method(&rmeth);
	SSL_get_ex_new_index(0, NULL, ex_new, NULL, ex_free); SSL_CTX_get_ex_new_index(1, NULL, ex_new, NULL, ex_free);
	for (int v = TLS1_2_VERSION; v <= TLS1_3_VERSION; v++) { SSL_CTX *s = SSL_CTX_new(TLS_server_method()), *c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_max_proto_version(s, v); BIO *b = BIO_new_mem_buf(pem_ca + 5, -1), *k = BIO_new_mem_buf(pem_ka + 5, -1); X509 *x = PEM_read_bio_X509(b, 0, 0, 0); EVP_PKEY *pk = PEM_read_bio_PrivateKey(k, 0, 0, 0); SSL_CTX_use_certificate(s, x); SSL_CTX_use_PrivateKey(s, pk); X509_free(x); EVP_PKEY_free(pk); BIO_free(b); BIO_free(k);
		SSL *ss = SSL_new(s), *cs = SSL_new(c); SSL_set_accept_state(ss); SSL_set_connect_state(cs); BIO *b1, *b2; BIO_new_bio_pair(&b1, 0, &b2, 0); SSL_set_bio(ss, b1, b1); SSL_set_bio(cs, b2, b2); for (int i = 0; i < 10; i++) { SSL_do_handshake(cs); SSL_do_handshake(ss); } char t[4]; SSL_write(ss, "abc", 3); SSL_read(cs, t, 3); SSL_shutdown(ss); SSL_shutdown(cs); SSL_free(ss); SSL_free(cs); SSL_CTX_free(s); SSL_CTX_free(c); }
	memset(rctr, 0, sizeof rctr); live_ssl = live_ctx = 0;
}
static kconnection *A, *Bc; static SSL_CTX *cctx, *sctx; static kconnection *mkc(int fd, int sel) { kconnection *c = kconnection_new(NULL); c->st.fd = fd; selectable_bind(&c->st, SEL(sel)); return c; }
static unsigned char pat(int d, int i) { return (unsigned char)(d * 101 + i * 7 + (i >> 8) * 13 + 3); }
GHOST static int rxn[2], hs[2], hsn[2], eofs; static int nw, chunk, rdsz, wmode, rmode;
static void put(int d, const unsigned char *b, int n) { for (int i = 0; i < n; i++) { CHECK(rxn[d] < nw, "more bytes received than written"); CHECK(b[i] == pat(d, rxn[d]), "byte %d is %d, %d was written", rxn[d], b[i], pat(d, rxn[d])); rxn[d]++; } }
static unsigned char wb[2][70000], rb[2][70000];
/* another connection of the same event loop fails */
static int neighbours; static void fail_another(kconnection *c) { if (!neighbours) return; int p[2]; vk_socketpair(p, 3); kconnection *x = mkc(p[0], 0); selectable_bind(&x->st, c->st.base.selector); CHECK(kconnection_ssl_accept(x, sctx), "ssl"); CHECK(write(p[1], "GET /index", 10) == 10, "garbage"); CHECK(kfiber_ssl_handshake(x) == -1, "garbage taken for a handshake"); kfiber_net_close(x); close(p[1]); }
static int send_all(kconnection *c, int d) {
	unsigned char *b = wb[d]; for (int i = 0; i < nw; i++) b[i] = pat(d, i);
	for (int at = 0; at < nw;) {
		fail_another(c); int n = chunk < nw - at ? chunk : nw - at;
		if (wmode == 0) { int r = kfiber_net_write(c, (char *)b + at, n); CHECK(r > 0 && r <= n, "write of %d returned %d", n, r); at += r; }
		else if (wmode == 1) { int len = n; CHECK(kfiber_net_write_full(c, (char *)b + at, &len) && len == 0, "write_full left %d", len); at += n; }
		else { kgl_iovec v[3]; int s1 = n / 3, s2 = n / 2; v[0].iov_base = (char *)b + at; v[0].iov_len = s1; v[1].iov_base = (char *)b + at + s1; v[1].iov_len = s2 - s1; v[2].iov_base = (char *)b + at + s2; v[2].iov_len = n - s2; int bc = 3; size_t r = kfiber_net_writev_full(c, v, &bc); CHECK(r == (size_t)n && bc == 0, "writev_full of %d wrote %d", n, (int)r); at += n; }
	}
	return 0;
}
static int recv_all(kconnection *c, int d) {
	unsigned char *b = rb[d];
	while (rxn[d] < nw) {
		fail_another(c); if (rmode == 0) { int r = kfiber_net_read(c, (char *)b, rdsz); CHECK(r > 0 && r <= rdsz, "read returned %d", r); put(d, b, r); }
		else if (rmode == 1) { int want = rdsz < nw - rxn[d] ? rdsz : nw - rxn[d], len = want; CHECK(kfiber_net_read_full(c, (char *)b, &len) && len == 0, "read_full left %d", len); put(d, b, want); }
		else { kgl_iovec v[2]; memset(b, 0xEE, rdsz + 110); v[0].iov_base = (char *)b; v[0].iov_len = 3; v[1].iov_base = (char *)b + 100; v[1].iov_len = rdsz; int r = kfiber_net_readv(c, v, 2); CHECK(r > 0 && r <= rdsz + 3, "readv returned %d", r); int k = r < 3 ? r : 3; put(d, b, k); put(d, b + 100, r - k); }
	}
	return 0;
}
static int side; static int both;
static int cw(void *a, int) { send_all((kconnection *)a, a == A ? 0 : 1); rt_done(); return 0; }
static int client(void *a, int) {
	kconnection *c = (kconnection *)a; CHECK(kfiber_ssl_handshake(c) == 0, "client handshake failed"); hs[0]++;
	if (both) { kfiber_create2(c->st.base.selector, cw, c, 0, 0, NULL); recv_all(c, 1); }
	else { send_all(c, 0); recv_all(c, 1); }
	rt_done(); return 0;
}
static int server(void *a, int) {
	kconnection *c = (kconnection *)a; CHECK(kfiber_ssl_handshake(c) == 0, "server handshake failed"); hs[1]++;
	if (both) { kfiber_create2(c->st.base.selector, cw, c, 0, 0, NULL); recv_all(c, 0); }
	else { recv_all(c, 0); send_all(c, 1); }
	rt_done(); return 0;
}
static int closer(void *a, int) { fail_another((kconnection *)a); kfiber_net_close((kconnection *)a); rt_done(); return 0; }
static int shutter(void *a, int) { kfiber_net_shutdown((kconnection *)a); rt_done(); return 0; }
static int eof_reader(void *a, int) { kconnection *c = (kconnection *)a; char b[4]; fail_another(c); int r = kfiber_net_read(c, b, 4); CHECK(r <= 0, "read %d bytes after the end", r); CHECK(SSL_get_shutdown(c->st.ssl->ssl) & SSL_RECEIVED_SHUTDOWN, "no closing alert"); eofs++; r = kfiber_net_read(c, b, 4); CHECK(r <= 0, "read %d bytes after the end", r); kfiber_net_close(c); rt_done(); return 0; }
static kgl_ssl_ctx *sref;
static void ctxs(int v12, const char *sni, void *sdata) { sctx = server_ctx(0, sdata); cctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL); CHECK(cctx != NULL, "client context"); if (v12) kgl_ssl_ctx_set_protocols(v12 == 2 ? cctx : sctx, "TLSv1.2"); sref = kgl_new_ssl_ctx(sctx); }
static void ctx_end(void) { SSL_CTX_free(cctx); if (sref) kgl_release_ssl_ctx(sref); rt_settle(10); CHECK(live_ssl == 0, "%d TLS objects not released", live_ssl); CHECK(live_ctx == 0, "%d TLS contexts not released", live_ctx); }
static void duplex(int sels, int v12, int cap, int n, int ck, int rs, int wm, int rm, int bo) {
	rt_start(sels); rt_mark(); kmc_explore(0); nw = n; chunk = ck; rdsz = rs; wmode = wm; rmode = rm; both = bo; ctxs(v12, 0, 0); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], sels > 1 ? 1 : 0);
	CHECK(kconnection_ssl_connect(A, cctx, "x.test") && kconnection_ssl_accept(Bc, sctx), "ssl objects"); kmc_explore(1);
	kfiber_create2(A->st.base.selector, client, A, 0, 0, NULL); kfiber_create2(Bc->st.base.selector, server, Bc, 0, 0, NULL);
	rt_wait(bo ? 4 : 2); CHECK(hs[0] == 1 && hs[1] == 1 && rxn[0] == n && rxn[1] == n, "incomplete");
	CHECK(!strcmp(SSL_get_version(A->st.ssl->ssl), v12 ? "TLSv1.2" : "TLSv1.3"), "negotiated %s", SSL_get_version(A->st.ssl->ssl));
	kfiber_create2(Bc->st.base.selector, eof_reader, Bc, 0, 0, NULL); kfiber_create2(A->st.base.selector, closer, A, 0, 0, NULL); rt_wait(g_done + 2); CHECK(eofs == 1, "no end of stream");
	kmc_explore(0); ctx_end(); rt_check_released("connection"); kmc_end();
}
#define F KMC_F_FORK
#define SIO KMC_F_SHORTIO | KMC_F_EPORDER
SCEN(echo13, B({0,0},{0,2}), B({0,3}), 9000, 1, F | SIO) { duplex(1, 0, 100000, 30, 11, 7, 0, 0, 0); }
SCEN(echo12, B({0,0},{0,2}), B({0,3}), 9000, 1, F | SIO) { duplex(1, 1, 100000, 30, 11, 7, 1, 1, 0); }
SCEN(echo13_small, B({0,0},{0,1}), B({0,2}), 9000, 1, F | SIO) { duplex(1, 0, 300, 30, 30, 7, 2, 2, 1); }
SCEN(duplex_2sel, B({0,0},{1,0}), B({1,1},{2,0},{2,1}), 9000, 1, F | SIO) { duplex(2, 0, 100000, 20, 20, 20, 1, 1, 1); }
/* buffer capacities, versions, ways of writing and reading */
SCEN(sizes, B({0,0}), B({0,0}), 9000, 1, F) { static const int caps[] = { 1, 2, 3, 5, 7, 16, 64, 333, 1500, 4096, 20000 }; int v = kmc_choose(3), cap = caps[kmc_choose(11)], bo = kmc_choose(2), wm = kmc_choose(3), rm = kmc_choose(3); if (cap < 4096) bo = 1; /* a client that only writes could block a server that sends session tickets */ duplex(1, v, cap, 50, 23, 9, wm, rm, bo); }
SCEN(neighbours_fail, B({0,0}), B({0,0}), 9000, 1, F) { static const int caps[] = { 16, 64, 333, 4096, 20000 }; neighbours = 1; int v = kmc_choose(3), cap = caps[kmc_choose(5)], bo = kmc_choose(2), wm = kmc_choose(3), rm = kmc_choose(3); if (cap < 4096) bo = 1; duplex(1, v, cap, 50, 23, 9, wm, rm, bo); }
/* garbage arrives while there is no room for the alert that answers it */
GHOST static int64_t ended_at; GHOST static int wblocked;
static int full_writer(void *a, int) { kconnection *c = (kconnection *)a; memset(wb[0], 7, 5000); wblocked = 1; int r; while ((r = kfiber_net_write(c, (char *)wb[0], 5000)) > 0) ; wblocked = 2; rt_done(); return 0; }
static int bad_reader(void *a, int) { kconnection *c = (kconnection *)a; char b[64]; int r = kfiber_net_read(c, b, 64); CHECK(r < 0, "%d bytes of garbage read", r); ended_at = kmc_now_us(); selectable_shutdown(&c->st); rt_done(); return 0; }
static int just_handshake(void *a, int) { CHECK(kfiber_ssl_handshake((kconnection *)a) == 0, "handshake"); rt_done(); return 0; }
SCEN(garbage_while_full, B({0,0}), B({0,0}), 9000, 1, F) {
	rt_start(1); rt_mark(); kmc_explore(0); int v12 = kmc_choose(2), who = kmc_choose(2), wfirst = kmc_choose(2); static const int caps[] = { 2000, 4999, 6000, 20000, 7, 33 }; int cap = caps[kmc_choose(4)], part = 1 + kmc_choose(3); ctxs(v12, 0, 0); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], 0);
	CHECK(kconnection_ssl_connect(A, cctx, NULL) && kconnection_ssl_accept(Bc, sctx), "ssl"); kfiber_create2(SEL(0), just_handshake, A, 0, 0, NULL); kfiber_create2(SEL(0), just_handshake, Bc, 0, 0, NULL); rt_wait(2);
	kconnection *c = who ? Bc : A, *o = who ? A : Bc; if (wfirst) kfiber_create2(SEL(0), full_writer, c, 0, 0, NULL); kfiber_create2(SEL(0), bad_reader, c, 0, 0, NULL); if (!wfirst) kfiber_create2(SEL(0), full_writer, c, 0, 0, NULL); usleep(200000); CHECK(wblocked == 1 && !ended_at, "state");
	unsigned char g[40]; memset(g, 0, sizeof g); g[0] = part == 3 ? 99 : 23; g[1] = 3; g[2] = 3; g[4] = 35; int64_t t = kmc_now_us(); if (part == 2) { CHECK(write(o->st.fd, g, 20) == 20, "garbage"); usleep(1000); CHECK(write(o->st.fd, g + 20, 20) == 20, "garbage"); } else CHECK(write(o->st.fd, g, 40) == 40, "garbage");
	usleep(300000); CHECK(ended_at && ended_at - t < 200000, "the pending read did not end"); kfiber_create2(SEL(0), closer, c, 0, 0, NULL); rt_wait(5); CHECK(wblocked == 2, "writer"); selectable_shutdown(&o->st); kfiber_create2(SEL(0), closer, o, 0, 0, NULL); rt_wait(6); ctx_end(); rt_check_released("connection"); kmc_end();
}
SCEN(large, B({0,0}), B({0,0}), 20000, 1, F) { static const int caps[] = { 100, 1000, 5000, 16389, 20000, 100000 }; static const int cks[] = { 70000, 16384, 16385, 20000 }; int v = kmc_choose(2), cap = caps[kmc_choose(6)], wm = 1 + kmc_choose(2), ck = cks[kmc_choose(4)], rm = kmc_choose(3); duplex(1, v, cap, 40000, ck, 13000, wm, rm, cap < 5000 ? 1 : kmc_choose(2)); }
/* writes and reads in several parts, some of them empty */
static int pa_l[6];
static int pa_write(void *a, int) { kconnection *c = (kconnection *)a; CHECK(kfiber_ssl_handshake(c) == 0, "handshake"); unsigned char b[16]; for (int i = 0; i < 16; i++) b[i] = 0x30 + i; int at = 0, n = pa_l[0] + pa_l[1] + pa_l[2];
	while (at < n) { kgl_iovec v[3]; int p = 0, skip = at; for (int k = 0; k < 3; k++) { int l = pa_l[k]; v[k].iov_base = (char *)b + p; v[k].iov_len = l; int s = skip < l ? skip : l; v[k].iov_base = (char *)v[k].iov_base + s; v[k].iov_len -= s; skip -= s; p += l; } int r = kfiber_net_writev(c, v, 3); CHECK(r > 0 && r <= n - at, "write of %d+%d+%d bytes in parts returned %d", (int)v[0].iov_len, (int)v[1].iov_len, (int)v[2].iov_len, r); at += r; }
	char e; int r = kfiber_net_read(c, &e, 1); CHECK(r <= 0, "read %d", r); kfiber_net_close(c); rt_done(); return 0; }
static int pa_read(void *a, int) { kconnection *c = (kconnection *)a; CHECK(kfiber_ssl_handshake(c) == 0, "handshake"); int at = 0, n = pa_l[0] + pa_l[1] + pa_l[2];
	while (at < n) { unsigned char b[40]; memset(b, 0xEE, 40); kgl_iovec v[3]; for (int k = 0; k < 3; k++) { v[k].iov_base = (char *)b + 10 * k; v[k].iov_len = pa_l[3 + k]; } int r = kfiber_net_readv(c, v, 3); CHECK(r > 0 && r <= n - at, "read returned %d", r); for (int k = 0; k < 3; k++) { int l = pa_l[3 + k] < r ? pa_l[3 + k] : r; for (int i = 0; i < 10; i++) if (i < l) CHECK(b[10 * k + i] == 0x30 + at + i, "byte %d is wrong", at + i); else CHECK(b[10 * k + i] == 0xEE, "read elsewhere"); at += l; r -= l; } CHECK(r == 0, "more than the parts hold"); }
	kfiber_net_close(c); rt_done(); return 0; }
SCEN(parts, B({0,0}), B({0,0},{0,1}), 9000, 1, F) {
	rt_start(1); rt_mark(); kmc_explore(0); static const int L[] = { 0, 1, 5 }; int v12 = kmc_choose(2), cap = kmc_choose(2) ? 5000 : 30; for (int k = 0; k < 3; k++) pa_l[k] = L[kmc_choose(3)]; for (int k = 3; k < 6; k++) pa_l[k] = kmc_choose(2) * 4; if (!(pa_l[0] | pa_l[1] | pa_l[2])) pa_l[1] = 2; if (!(pa_l[3] | pa_l[4] | pa_l[5])) pa_l[5] = 1; ctxs(v12, 0, 0); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], 0);
	CHECK(kconnection_ssl_connect(A, cctx, NULL) && kconnection_ssl_accept(Bc, sctx), "ssl"); bool rev = cap < 5000; /* with little room it is the server that writes, as the client reads its session tickets */ kfiber_create2(SEL(0), rev ? pa_read : pa_write, A, 0, 0, NULL); kfiber_create2(SEL(0), rev ? pa_write : pa_read, Bc, 0, 0, NULL); rt_wait(2); ctx_end(); rt_check_released("connection"); kmc_end();
}
/* a raw TLS peer in the harness; its bytes are delivered split, cut off, reset, or altered at every position */
struct raw { SSL *ssl; BIO *in, *out; int fd, sent, act, pos, dead, done; }; static raw R;
static void raw_init(int as_server, int fd, SSL_CTX *x) { memset(&R, 0, sizeof R); R.ssl = SSL_new(x); R.in = BIO_new(BIO_s_mem()); R.out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(R.in, -1); SSL_set_bio(R.ssl, R.in, R.out); if (as_server) SSL_set_accept_state(R.ssl); else SSL_set_connect_state(R.ssl); R.fd = fd; }
static void raw_write(const unsigned char *b, int n) { while (n > 0) { int r = write(R.fd, b, n); if (r <= 0) { CHECK(R.done, "peer write"); return; } b += r; n -= r; } }
static void raw_kill(void) { if (R.act == 2) vk_rst(R.fd); close(R.fd); R.dead = 1; }
static void raw_out(void) {
	unsigned char b[20000]; int n; while (!R.dead && (n = BIO_read(R.out, b, sizeof b)) > 0) {
		int at = 0;
		if (R.act && R.pos >= R.sent && R.pos < R.sent + n) {
			int k = R.pos - R.sent; R.done = 1;
			if (R.act == 4) b[k] ^= 0x10;
			else { raw_write(b, k); usleep(1000); at = k; if (R.act == 1 || R.act == 2) { raw_kill(); return; } if (R.act == 5) { unsigned char g[3] = { 0, 0xff, 0x15 }; raw_write(g, 3); } }
		}
		R.sent += n; raw_write(b + at, n - at); usleep(1000);
	}
}
static void raw_in(void) { unsigned char b[20000]; usleep(1000); while (!R.dead && vk_readable(R.fd) > 0) { int n = read(R.fd, b, sizeof b); if (n <= 0) break; BIO_write(R.in, b, n); } }
GHOST static int app_n, app_err, cb_hs, cb_got, got_world; static int api;
static unsigned char abuf[16], ahave; static kgl_iovec av, aio; static int is_srv;
/* after the end, or a failure, every read says so at once */
static void again(kconnection *c, char *b, int wr) { int64_t t = kmc_now_us(); for (int i = 0; i < 3; i++) { errno = EAGAIN; /* what some other call left there */ int r = kfiber_net_read(c, b, 4); CHECK(r <= 0, "%d bytes after the end", r); CHECK(kmc_now_us() - t < 500, "a read after the end waited for %d ms", (int)((kmc_now_us() - t) / 1000)); if (!wr) continue; errno = EAGAIN; r = kfiber_net_write(c, "xyz", 3); CHECK(r <= 3 && kmc_now_us() - t < 500, "a write after the end returned %d after %d ms", r, (int)((kmc_now_us() - t) / 1000)); } }
/* what the connection under test does: handshake; read "hello"; write "world!"; read to the end; close */
static int dut(void *a, int) {
	kconnection *c = (kconnection *)a; int r = kfiber_ssl_handshake(c); cb_hs++; cb_got = r; CHECK(r == 0 || r == -1, "handshake result %d", r);
	if (r == 0) { char b[8]; int n = 0; while (n < 5 && (r = kfiber_net_read(c, b, 5 - n)) > 0) { for (int i = 0; i < r; i++) CHECK(b[i] == "hello"[n + i], "wrong data received"); n += r; } app_n = n;
		if (n == 5) { int len = 6; bool ok = kfiber_net_write_full(c, "world!", &len); if (ok) { r = kfiber_net_read(c, b, 8); CHECK(r <= 0, "%d bytes appeared from nowhere", r); again(c, b, 0); } else app_err = 1; } else { app_err = 1; again(c, b, 1); } }
	kfiber_net_close(c); rt_done(); return 0;
}
/* the same with callbacks and kconnection_destroy */
static kev_result cb_end(KOPAQUE, void *, int got) { CHECK(got <= 0, "%d bytes appeared from nowhere", got); kev_result e = kconnection_destroy(A); rt_done(); return e; }
static kev_result cb_wrote(KOPAQUE, void *, int got) { if (got != 6) { app_err = 1; kev_result e = kconnection_destroy(A); rt_done(); return e; } av.iov_base = (char *)abuf; av.iov_len = 8; return selectable_read(&A->st, cb_end, &aio, (void *)3); }
static kev_result cb_read(KOPAQUE, void *arg, int got) {
	CHECK(arg == (void *)3, "argument"); if (got <= 0) { app_err = 1; kev_result e = kconnection_destroy(A); rt_done(); return e; }
	for (int i = 0; i < got; i++) CHECK(abuf[app_n + i] == "hello"[app_n + i], "wrong data received"); app_n += got; CHECK(app_n <= 5, "too much data");
	if (app_n < 5) { av.iov_base = (char *)abuf + app_n; av.iov_len = 5 - app_n; return selectable_read(&A->st, cb_read, &aio, (void *)3); }
	av.iov_base = (char *)"world!"; av.iov_len = 6; return selectable_write(&A->st, cb_wrote, &aio, (void *)3);
}
static kev_result cb_done(KOPAQUE data, void *arg, int got) {
	CHECK(arg == (void *)9 && data == (KOPAQUE)0x55, "handshake callback arguments"); cb_hs++; cb_got = got; CHECK(cb_hs == 1, "handshake reported twice"); CHECK(got == 0 || got == -1, "handshake result %d", got);
	if (got) { kev_result e = kconnection_destroy(A); rt_done(); return e; }
	aio.iov_base = (char *)&av; aio.iov_len = 1; av.iov_base = (char *)abuf; av.iov_len = 5; return selectable_read(&A->st, cb_read, &aio, (void *)3);
}
static kev_result cb_start(KOPAQUE, void *, int) { A->st.data = (KOPAQUE)0x55; return kconnection_ssl_handshake(A, cb_done, (void *)9); }
static void attack(int as_server, int v12, int ap, int act, int pos) {
	rt_start(1); rt_mark(); kmc_explore(0); api = ap; is_srv = as_server; ctxs(v12, 0, 0); vk_set_sockbuf(100000); int p[2]; vk_socketpair(p, 1); A = mkc(p[0], 0);
	if (as_server) CHECK(kconnection_ssl_accept(A, sctx), "ssl"); else CHECK(kconnection_ssl_connect(A, cctx, NULL), "ssl");
	raw_init(!as_server, p[1], as_server ? cctx : sctx); R.act = act; R.pos = pos; cb_got = -7;
	if (api) kgl_selector_module.next(SEL(0), NULL, cb_start, NULL, 0); else kfiber_create2(SEL(0), dut, A, 0, 0, NULL);
	int r = 0, fin = 0, hello = 0, w = 0, closed = 0; char b[8];
	for (int i = 0; i < 12 && !R.dead && !closed; i++) {
		if (!fin) { r = SSL_do_handshake(R.ssl); if (r == 1) fin = 1; else { int e = SSL_get_error(R.ssl, r); if (e != SSL_ERROR_WANT_READ) { raw_out(); break; } } raw_out(); if (R.dead) break; }
		if (fin && !hello) { CHECK(SSL_write(R.ssl, "hello", 5) == 5, "raw write"); hello = 1; raw_out(); if (R.dead) break; }
		raw_in();
		if (fin) { r = SSL_read(R.ssl, b, 8); if (r > 0) { CHECK(w + r <= 6 && !memcmp(b, "world!" + w, r), "the peer received wrong data"); w += r; } else if (SSL_get_error(R.ssl, r) != SSL_ERROR_WANT_READ) break; raw_out(); if (w == 6) { SSL_shutdown(R.ssl); closed = 1; raw_out(); } }
	}
	if (!R.dead) { usleep(1000); raw_in(); if (closed) { r = SSL_read(R.ssl, b, 8); CHECK(R.dead || act >= 4 || (SSL_get_shutdown(R.ssl) & SSL_RECEIVED_SHUTDOWN), "the connection was closed without the closing alert"); } if (!R.dead) raw_kill(); }
	rt_wait(1); CHECK(cb_hs == 1, "handshake ended %d times", cb_hs); int clean = !R.done || act == 3;
	if (clean) CHECK(cb_got == 0 && app_n == 5 && w == 6 && closed, "undisturbed connection: handshake %d, %d bytes received, %d sent", cb_got, app_n, w);
	else if (w < 6 && !app_err && cb_got == 0 && act < 4) CHECK(app_n == 5, "data lost");
	if (act == 5 && R.done) CHECK(w < 6 || closed, "data accepted after garbage");
	got_world = w; SSL_free(R.ssl); kmc_explore(0); usleep(1000); ctx_end(); rt_check_released("connection"); kmc_outcome("hs %d app %d world %d", cb_got, app_n, w); if (kmc_replaying() || getenv("C11LEN")) kmc_trace("sent %d\n", R.sent); kmc_end();
}
/* the client's bytes number 424 / 451, the server's 1926 / 1499 */
SCEN(server13_disturbed, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) { int ap = kmc_choose(2), act = 1 + kmc_choose(5); attack(1, 0, ap, act, kmc_choose(426)); }
SCEN(server12_disturbed, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) { int ap = kmc_choose(2), act = 1 + kmc_choose(5); attack(1, 1, ap, act, kmc_choose(453)); }
SCEN(client13_disturbed, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) { int act = 1 + kmc_choose(5); attack(0, 0, 0, act, kmc_choose(1928)); }
SCEN(client12_disturbed, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) { int act = 1 + kmc_choose(5); attack(0, 2, 1, act, kmc_choose(1501)); }
/* early data: the client resumes and sends data in its first flight, in any number of records, delivered in any two parts */
static SSL_SESSION *sess; static int epieces;
static void early(int pieces, int act, int pos, int late) {
	rt_start(1); rt_mark(); kmc_explore(0); ctxs(0, 0, 0); kgl_ssl_ctx_set_early_data(sctx, true); vk_set_sockbuf(100000); kmc_explore(0);
	for (int round = 0; round < 2; round++) {
		int p[2]; vk_socketpair(p, 1); A = mkc(p[0], 0); CHECK(kconnection_ssl_accept(A, sctx), "ssl"); raw_init(0, p[1], cctx); cb_hs = app_n = 0; cb_got = -7; g_done = 0; char b[8]; int w = 0, fin = 0, sent = 0, r, closed = 0, need = 5;
		if (round) { CHECK(SSL_SESSION_get_max_early_data(sess) > 0, "no early data offered"); SSL_set_session(R.ssl, sess); R.act = act; R.pos = pos; }
		kfiber_create2(SEL(0), dut, A, 0, 0, NULL);
		if (round) { size_t k; int n = late ? 3 : 5, step = (n + pieces - 1) / pieces; while (sent < n) { int m = step < n - sent ? step : n - sent; CHECK(SSL_write_early_data(R.ssl, "hello" + sent, m, &k) == 1, "raw early data"); sent += k; raw_out(); if (R.dead) break; } }
		for (int i = 0; i < 12 && !R.dead && !closed; i++) {
			if (!fin) { r = SSL_do_handshake(R.ssl); if (r == 1) fin = 1; else if (SSL_get_error(R.ssl, r) != SSL_ERROR_WANT_READ) { raw_out(); break; } raw_out(); if (R.dead) break; }
			if (fin && round && !i) kmc_fail("handshake without the server");
			if (fin && sent < 5) { CHECK(SSL_write(R.ssl, "hello" + sent, 5 - sent) == 5 - sent, "raw write"); sent = 5; raw_out(); if (R.dead) break; }
			raw_in(); if (fin) { r = SSL_read(R.ssl, b, 8); if (r > 0) { CHECK(w + r <= 6 && !memcmp(b, "world!" + w, r), "the peer received wrong data"); w += r; } else if (SSL_get_error(R.ssl, r) != SSL_ERROR_WANT_READ) break; raw_out(); if (w == 6) { if (!round) sess = SSL_get1_session(R.ssl); SSL_shutdown(R.ssl); closed = 1; raw_out(); } }
		}
		if (!R.dead) { usleep(1000); raw_in(); raw_kill(); }
		rt_wait(1); CHECK(cb_hs == 1, "handshake ended %d times", cb_hs);
		if (!R.done || act == 3) { CHECK(cb_got == 0, "handshake failed"); CHECK(app_n == 5, "only %d of 5 bytes received", app_n); CHECK(w == 6 && closed, "%d of 6 bytes answered", w); if (round) CHECK(SSL_get_early_data_status(R.ssl) == SSL_EARLY_DATA_ACCEPTED, "early data was not used"); }
		SSL_free(R.ssl); usleep(1000);
	}
	SSL_SESSION_free(sess); ctx_end(); rt_check_released("connection"); kmc_outcome("%d", app_n); kmc_end();
}
SCEN(early_data, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) { int late = kmc_choose(2), pieces = 1 + kmc_choose(late ? 3 : 5), act = 1 + kmc_choose(3); early(pieces, act, kmc_choose(820), late); }
/* a server: names, application protocols, certificates that are replaced while clients connect */
GHOST static int sni_live, sni_made; static kserver *S; static SSL_CTX *ctx2; static char srv_data; static const char *want_alpn, *got_alpn; static int reject; static int srv_alpn_n; GHOST static int acc_n, srv_ok, srv_fail, freed; static const char *exp_host;
static void *mk_sni(KOPAQUE o, const char *host, SSL_CTX **x) { CHECK(o == (KOPAQUE)0x77, "server data"); CHECK(exp_host && !strcmp(host, exp_host), "host name %s", host); sni_live++; sni_made++; if (!strcmp(host, "b.test")) *x = ctx2; return &sni_live; }
static void rm_sni(void *p) { CHECK(p == &sni_live, "sni object"); sni_live--; CHECK(sni_live >= 0, "sni object released twice"); }
static void npn(SSL *, void *data, const unsigned char **o, unsigned *l) { CHECK(data == &srv_data, "context data"); *o = (const unsigned char *)"\x02h2\x08http/1.1"; *l = 12; }
static void free_opaque(KOPAQUE) { freed++; }
static int conn_fiber(void *a, int) {
	kconnection *c = (kconnection *)a; char b[4]; int r = kfiber_ssl_handshake(c);
	if (r == 0) { const unsigned char *p = NULL; unsigned n = 0; kgl_ssl_get_next_proto_negotiated(c->st.ssl->ssl, &p, &n); r = kfiber_net_read(c, b, 1); if (r == 1) { CHECK(b[0] == 'q', "request"); b[0] = n == 2 && !memcmp(p, "h2", 2) ? '2' : n == 8 && !memcmp(p, "http/1.1", 8) ? '1' : n ? '?' : '0'; r = kfiber_net_write(c, b, 1); if (r == 1) srv_ok++; else srv_fail++; } else srv_fail++; }
	else srv_fail++;
	kfiber_net_close(c); rt_done(); return 0;
}
KACCEPT_CALLBACK(on_accept) { kconnection *c = (kconnection *)arg; acc_n++; CHECK(kconnection_is_ssl(c) && kconnection_is_ssl_not_handshake(c), "accepted connection has no TLS state"); kfiber_create2(c->st.base.selector, conn_fiber, c, 0, 0, NULL); return kev_ok; }
/* a blocking client thread; returns the answer of the server, 'x' if refused; *cn: name in the certificate */
static char ssl_talk(const char *sni, const char *alpn, char *cn) {
	int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(8080); a.sin_addr.s_addr = htonl(0x7f000001); *cn = '-';
	if (connect(fd, (struct sockaddr *)&a, sizeof a)) { close(fd); return 'x'; }
	SSL *s = SSL_new(cctx); SSL_set_fd(s, fd); if (sni) SSL_set_tlsext_host_name(s, sni); if (alpn) SSL_set_alpn_protos(s, (const unsigned char *)alpn, strlen(alpn));
	char b = 'x'; if (SSL_connect(s) == 1) { X509 *x = SSL_get1_peer_certificate(s); char nm[64]; X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, nm, sizeof nm); *cn = nm[0]; X509_free(x); b = 'q'; if (SSL_write(s, &b, 1) != 1 || SSL_read(s, &b, 1) != 1) b = 'x'; else { char z; CHECK(SSL_read(s, &z, 1) <= 0 && (SSL_get_shutdown(s) & SSL_RECEIVED_SHUTDOWN), "the server closed without the closing alert"); } }
	close(fd); SSL_free(s); return b;
}
/* setting up the TLS state of a connection fails for want of memory: only what the loops ask for is refused */
#include <dlfcn.h>
GHOST static int ssl_nth = -1, ssl_what, ssl_failed; static bool refuse(int w) { return ssl_nth >= 0 && w == ssl_what && kgl_get_tls_selector() && ssl_nth-- == 0 && ++ssl_failed; }
extern "C" SSL *SSL_new(SSL_CTX *x) { static SSL *(*real)(SSL_CTX *); if (!real) real = (SSL *(*)(SSL_CTX *))dlsym(RTLD_NEXT, "SSL_new"); if (watch_ctx && kgl_get_tls_selector()) { kmc_yield(); for (int i = 0; i < n_dead; i++) CHECK(dead_ctx[i] != x, "a connection is accepted with a TLS context that was released"); } return refuse(0) ? NULL : real(x); }
extern "C" int SSL_set_fd(SSL *x, int fd) { static int (*real)(SSL *, int); if (!real) real = (int (*)(SSL *, int))dlsym(RTLD_NEXT, "SSL_set_fd"); return refuse(1) ? 0 : real(x, fd); }
static void server_up(int sels, int cbs, int v12) {
	rt_start(sels); if (cbs) { kssl_set_sni_callback(mk_sni, rm_sni); kssl_set_npn_callback(npn); } rt_mark(); kmc_explore(0); ctxs(0, 0, cbs ? &srv_data : NULL); if (v12) kgl_ssl_ctx_set_protocols(cctx, "TLSv1.2"); ctx2 = server_ctx(1, cbs ? &srv_data : NULL);
	S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); kgl_add_ref_ssl_ctx(sref); CHECK(kserver_bind(S, "127.0.0.1", 8080, sref), "bind");
}
SCEN(names, B({0,0}), B({0,0}), 9000, 0, F | KMC_F_SEQ) {
	int v12 = kmc_choose(2), h = kmc_choose(3), al = kmc_choose(5), rj = kmc_choose(2), n = 1 + kmc_choose(2); static const char *hosts[] = { NULL, "a.test", "b.test" }, *alp[] = { NULL, "\x02h2", "\x08http/1.1", "\x08http/1.1\x02h2", "\x03xyz" }; static const char exp[] = "021" "20";
	server_up(1, 1, v12); if (rj) S->flags |= KGL_SERVER_REJECT_NOSNI; exp_host = hosts[h]; CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open");
	for (int i = 0; i < n; i++) { char cn, r = ssl_talk(hosts[h], alp[al], &cn);
		if (rj && !h) { CHECK(r == 'x', "a client without a server name was served (%c)", r); continue; }
		CHECK(r == exp[al], "protocol %c selected, expected %c", r, exp[al]); CHECK(cn == (h == 2 ? 'b' : 'a'), "certificate of %c presented", cn); }
	rt_wait(n); usleep(2000); CHECK(sni_live == 0, "%d name objects not released", sni_live); CHECK(sni_made == (h ? n : 0), "%d name objects made for %d connections", sni_made, n);
	kserver_close(S); kserver_release(S); usleep(300000); CHECK(freed == 1, "server not freed"); SSL_CTX_free(ctx2); ctx_end(); rt_check_released("server"); kmc_end();
}
GHOST static char tk_cn[4], tk_r[4]; static void *talker(void *a) { int i = (int)(long)a; tk_r[i] = ssl_talk(NULL, NULL, &tk_cn[i]); return 0; }
static void swap(int sels, int close_too) {
	server_up(sels, 0, 1); CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open"); kgl_ssl_ctx *c2 = kgl_new_ssl_ctx(ctx2); kgl_release_ssl_ctx(sref); sref = NULL; watch_ctx = 1; /* the old context is the server's alone */ if (close_too == 2) usleep(1000); kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, talker, (void *)0L); if (close_too == 2) kserver_close(S); kserver_set_ssl_ctx(S, c2); if (close_too == 1) kserver_close(S); pthread_join(t, 0); char cn, r;
	if (close_too == 2) { CHECK(tk_r[0] == 'x' || (tk_r[0] == '0' && (tk_cn[0] == 'a' || tk_cn[0] == 'b')), "client while closing: %c %c", tk_r[0], tk_cn[0]); kmc_explore(0); usleep(2000); CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open again"); r = ssl_talk(NULL, NULL, &cn); CHECK(r == '0' && cn == 'b', "open again with a new context: %c, certificate of %c", r, cn); kserver_close(S); }
	if (!close_too) { CHECK(tk_r[0] == '0' && (tk_cn[0] == 'a' || tk_cn[0] == 'b'), "client during the replacement: %c %c", tk_r[0], tk_cn[0]); kmc_explore(0); usleep(2000); r = ssl_talk(NULL, NULL, &cn); CHECK(r == '0' && cn == 'b', "after the replacement: %c, certificate of %c", r, cn); kserver_close(S); }
	kmc_explore(0); kserver_release(S); usleep(300000); CHECK(freed == 1, "server not freed"); ctx_end(); rt_check_released("server"); kmc_outcome("%c %c", tk_r[0], tk_cn[0]); kmc_end();
}
SCEN(replace_1sel, B({0,0},{2,0}), B({2,1},{3,0}), 9000, 1, F) { swap(1, 0); }
SCEN(replace_2sel, B({0,0},{1,0}), B({2,0}), 9000, 1, F) { swap(2, 0); }
SCEN(replace_close, B({0,0},{1,1}), B({2,0},{1,1}), 9000, 1, F | KMC_F_EPORDER) { swap(2, 1); }
SCEN(replace_closed, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 0, F) { swap(1, 2); }
/* the same, by a fiber of the loop that accepts */
static kgl_ssl_ctx *rl_c2; static int rl_fiber(void *, int how) { if (how == 2) kserver_close(S); kserver_set_ssl_ctx(S, rl_c2); if (how == 1) kserver_close(S); rt_done(); return 0; }
static void swap_loop(int how) {
	server_up(1, 0, 1); CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open"); rl_c2 = kgl_new_ssl_ctx(ctx2); kgl_release_ssl_ctx(sref); sref = NULL; watch_ctx = 1; usleep(1000); kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, talker, (void *)0L); kfiber_create2(SEL(0), rl_fiber, NULL, how, 0, NULL); pthread_join(t, 0); kmc_explore(0); usleep(2000); char cn, r; CHECK((how && tk_r[0] == 'x') || (tk_r[0] == '0' && (tk_cn[0] == 'a' || tk_cn[0] == 'b')), "client during the replacement: %c %c", tk_r[0], tk_cn[0]);
	if (how) CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open again"); r = ssl_talk(NULL, NULL, &cn); CHECK(r == '0' && cn == 'b', "after the replacement: %c, certificate of %c", r, cn); kserver_close(S); kserver_release(S); usleep(300000); CHECK(freed == 1, "server not freed"); ctx_end(); rt_check_released("server"); kmc_outcome("%c %c", tk_r[0], tk_cn[0]); kmc_end();
}
SCEN(replace_loop, B({0,0},{1,0}), B({2,0}), 9000, 0, F) { swap_loop(0); }
SCEN(replace_loop_close, B({0,0},{1,0}), B({2,0}), 9000, 0, F) { swap_loop(1); }
SCEN(replace_loop_closed, B({0,0},{1,0}), B({2,0}), 9000, 0, F) { swap_loop(2); }
/* a connection whose TLS state cannot be made is refused; it and what it held are released, those before it are served, the server closes cleanly */
SCEN(accept_fails, B({0,0}), B({0,0},{1,0}), 9000, 1, F | KMC_F_SEQ) {
	int sels = 1 + kmc_choose(2); server_up(sels, 0, kmc_choose(2)); kmc_explore(0); kserver *u = kserver_init(); u->flags |= KGL_SERVER_SSL; CHECK(!kserver_bind(u, "127.0.0.1", 8081, NULL), "a TLS server without a context"); kserver_release(u); CHECK(kserver_open(S, KGL_SERVER_SSL, on_accept), "open"); kmc_explore(1); int nth = kmc_choose(3); ssl_what = kmc_choose(2); char r, cn; ssl_nth = nth;
	for (int i = 0; i < nth; i++) { r = ssl_talk(NULL, NULL, &cn); CHECK(r == '0' && cn == 'a', "connection %d: %c", i, r); } CHECK(!ssl_failed, "refused early"); CHECK(ssl_talk(NULL, NULL, &cn) == 'x' && ssl_failed == 1, "a connection without TLS state was served");
	if (sels == 1 || kmc_choose(2)) usleep(300000); kserver_close(S); kmc_explore(0); rt_wait(nth); usleep(300000); CHECK(vk_open_fds() == g_base_fds, "%d descriptors left", vk_open_fds() - g_base_fds); kserver_release(S); usleep(300000); CHECK(freed == 1, "server not freed"); SSL_CTX_free(ctx2); ctx_end(); rt_check_released("server"); kmc_end();
}
/* a crowd of TLS connections on one event loop, each exchanging many messages of changing length; they end one after the other */
#define CROWD 20
static kconnection *crc[2][CROWD]; GHOST static int crn[2][CROWD];
static int cr_end(void *a, int sd) {
	int i = (int)(long)a; kconnection *c = crc[sd][i]; char b[700], g[700]; CHECK(kfiber_ssl_handshake(c) == 0, "handshake of %d", i);
	for (int k = 0; k < 40; k++) { int n = k ? 1 + (k * 37 + i * 11) % 600 : 9 + i /* the session tickets may still wait for room */, len = n; for (int j = 0; j < n; j++) b[j] = (char)(j * 3 + k * 5 + i); if (sd == (k & 1)) CHECK(kfiber_net_write_full(c, b, &len) && len == 0, "write %d of connection %d", k, i); else { CHECK(kfiber_net_read_full(c, g, &len) && len == 0, "read %d of connection %d", k, i); CHECK(!memcmp(g, b, n), "message %d of connection %d is wrong", k, i); } crn[sd][i]++; }
	if (sd) CHECK(kfiber_net_read(c, g, 4) == 0, "end of connection %d", i); kfiber_net_close(c); rt_done(); return 0;
}
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, F | KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0); ctxs(kmc_choose(2), 0, 0); vk_set_sockbuf(150); for (int i = 0; i < CROWD; i++) { int p[2]; vk_socketpair(p, 3); for (int s = 0; s < 2; s++) crc[s][i] = mkc(p[s], 0); CHECK(kconnection_ssl_connect(crc[0][i], cctx, "x.test") && kconnection_ssl_accept(crc[1][i], sctx), "ssl objects"); }
	for (int i = 0; i < CROWD; i++) for (int s = 0; s < 2; s++) kfiber_create2(SEL(0), cr_end, (void *)(long)i, s, 0, NULL);
	kmc_explore(1); rt_wait(2 * CROWD); for (int i = 0; i < CROWD; i++) CHECK(crn[0][i] == 40 && crn[1][i] == 40, "messages"); ctx_end(); rt_check_released("crowd"); kmc_end();
}
