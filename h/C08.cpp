/* stream connections: every byte written is received exactly once and in order, whatever the kernel accepts per call,
 * whatever order events are reported in; reads return the data, then end of stream; the full helpers move everything. */
#include "common.h"
static kconnection *A, *Bc; static int nw, chunk, rdsz, rsel; GHOST static unsigned char rxd[2][256]; GHOST static int rxn[2], eof[2];
static unsigned char pat(int dir, int i) { return (unsigned char)(dir * 101 + i * 7 + 3); }
static kconnection *mkc(int fd, int sel) { kconnection *c = kconnection_new(NULL); c->st.fd = fd; selectable_bind(&c->st, SEL(sel)); return c; }
static void put(int d, const unsigned char *b, int n) { for (int i = 0; i < n; i++) { CHECK(rxn[d] < nw, "more bytes received than written"); CHECK(b[i] == pat(d, rxn[d]), "byte %d is %d, %d was written", rxn[d], b[i], pat(d, rxn[d])); rxn[d]++; } }
static int writer(void *a, int mode) {
	kconnection *c = (kconnection *)a; int d = c == A ? 0 : 1; unsigned char b[256]; for (int i = 0; i < nw; i++) b[i] = pat(d, i);
	int at = 0;
	while (at < nw) {
		int n = chunk < nw - at ? chunk : nw - at;
		if (mode == 0) { int r = kfiber_net_write(c, (char *)b + at, n); CHECK(r > 0 && r <= n, "write of %d returned %d", n, r); at += r; }
		else if (mode == 1) { int len = n; CHECK(kfiber_net_write_full(c, (char *)b + at, &len) && len == 0, "write_full left %d", len); at += n; }
		else if (mode == 2) { /* vectored, split at every position that the length allows */
			kgl_iovec v[3]; int s1 = kmc_choose(n + 1), s2 = s1 + kmc_choose(n - s1 + 1); v[0].iov_base = (char *)b + at; v[0].iov_len = s1; v[1].iov_base = (char *)b + at + s1; v[1].iov_len = s2 - s1; v[2].iov_base = (char *)b + at + s2; v[2].iov_len = n - s2;
			int bc = 3; size_t r = kfiber_net_writev_full(c, v, &bc); CHECK(r == (size_t)n && bc == 0, "writev_full of %d (%d+%d+%d) wrote %d, %d buffers left", n, s1, s2 - s1, n - s2, (int)r, bc); at += n; }
		else { kgl_iovec v[2]; int s = (n + 1) / 2; v[0].iov_base = (char *)b + at; v[0].iov_len = s; v[1].iov_base = (char *)b + at + s; v[1].iov_len = n - s; int r = kfiber_net_writev(c, v, n > s ? 2 : 1); CHECK(r > 0 && r <= n, "writev of %d returned %d", n, r); at += r; }
	}
	rt_done(); return 0;
}
static int reader(void *a, int mode) {
	kconnection *c = (kconnection *)a; int d = c == A ? 1 : 0; unsigned char b[256];
	while (rxn[d] < nw) {
		memset(b, 0xEE, sizeof b); int want = rdsz < nw - rxn[d] ? rdsz : nw - rxn[d];
		if (mode == 0) { int r = kfiber_net_read(c, (char *)b, rdsz); CHECK(r > 0 && r <= rdsz, "read returned %d", r); put(d, b, r); CHECK(b[r] == 0xEE, "read wrote past its result"); }
		else if (mode == 1) { int len = want; CHECK(kfiber_net_read_full(c, (char *)b, &len) && len == 0, "read_full left %d", len); put(d, b, want); CHECK(b[want] == 0xEE, "read_full wrote too much"); }
		else { kgl_iovec v[2]; v[0].iov_base = (char *)b; v[0].iov_len = 1; v[1].iov_base = (char *)b + 100; v[1].iov_len = rdsz; int r = kfiber_net_readv(c, v, 2); CHECK(r > 0 && r <= rdsz + 1, "readv returned %d", r); put(d, b, 1); put(d, b + 100, r - 1); CHECK(b[1] == 0xEE && b[100 + r - 1] == 0xEE, "readv wrote elsewhere"); }
	}
	rt_done(); return 0;
}
static int closer(void *a, int) { kfiber_net_close((kconnection *)a); rt_done(); return 0; }
static void setup(int sels, int cap, int n, int ck, int rs) { rt_start(sels); rt_mark(); nw = n; chunk = ck; rdsz = rs; kmc_explore(0); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], sels > 1 ? 1 : 0); kmc_explore(1); }
static void finish(void) { kmc_explore(0); kfiber_create2(A->st.base.selector, closer, A, 0, 0, NULL); kfiber_create2(Bc->st.base.selector, closer, Bc, 0, 0, NULL); rt_wait(g_done + 2); rt_check_released("connection"); kmc_outcome("%d %d", rxn[0], rxn[1]); kmc_end(); }
static void duplex(int sels, int cap, int n, int ck, int rs, int wm, int rm, int both) {
	setup(sels, cap, n, ck, rs);
	kfiber_create2(A->st.base.selector, writer, A, wm, 0, NULL); kfiber_create2(Bc->st.base.selector, reader, Bc, rm, 0, NULL);
	if (both) { kfiber_create2(Bc->st.base.selector, writer, Bc, wm, 0, NULL); kfiber_create2(A->st.base.selector, reader, A, rm, 0, NULL); }
	rt_wait(both ? 4 : 2);
	CHECK(rxn[0] == n && (!both || rxn[1] == n), "received %d and %d of %d bytes", rxn[0], rxn[1], n); finish();
}
#define SIO KMC_F_SHORTIO | KMC_F_EPORDER
SCEN(oneway_1sel, B({0,0},{0,1},{0,2},{0,3},{0,5}), B({0,4},{0,6},{0,8}), 3000, 0, SIO) { duplex(1, 3, 8, 4, 3, 0, 0, 0); }
SCEN(oneway_2sel, B({0,0},{1,1},{2,1},{2,2}), B({2,2},{3,2},{3,3}), 3000, 0, SIO) { duplex(2, 3, 6, 4, 3, 0, 0, 0); }
SCEN(oneway_2sel_sched, B({0,0},{1,0},{2,0},{3,0}), B({3,0},{4,0},{5,0}), 3000, 0, 0) { duplex(2, 2, 5, 3, 2, 0, 0, 0); }
SCEN(full_2sel, B({0,0},{1,1},{2,1},{2,2}), B({2,2},{3,2},{3,3}), 3000, 0, SIO) { duplex(2, 3, 7, 5, 4, 1, 1, 0); }
SCEN(full_duplex_1sel, B({0,0},{0,1},{0,2},{0,4}), B({0,4},{0,5},{0,7}), 3000, 0, SIO) { duplex(1, 3, 6, 4, 3, 1, 0, 1); }
SCEN(full_duplex_2sel, B({0,0},{1,0},{1,1},{2,1}), B({2,1},{2,2},{3,2}), 3000, 0, SIO) { duplex(2, 3, 6, 4, 3, 0, 1, 1); }
SCEN(vectored, B({0,0},{0,1},{0,4}), B({0,4},{0,6},{0,8}), 3000, 0, SIO) { duplex(1, 4, 6, 6, 3, 2, 2, 0); }
SCEN(vectored_2sel, B({0,0},{1,1},{2,1}), B({2,1},{2,2},{3,2}), 3000, 0, SIO) { duplex(2, 3, 6, 5, 3, 3, 2, 0); }
/* every combination of buffer capacity, chunk and read size */
SCEN(sizes, B({0,0},{0,1},{0,2}), B({0,2},{0,3},{1,1}), 3000, 0, SIO) { int cap = 1 + kmc_choose(5), ck = 1 + kmc_choose(6), rs = 1 + kmc_choose(5); duplex(1, cap, 7, ck, rs, kmc_choose(2), kmc_choose(3), 1); }
/* the peer is a plain thread with a blocking socket */
static int pfd, pmode;
static void *peer(void *) {
	unsigned char b[64]; int at = 0;
	if (pmode & 1) { for (int i = 0; i < nw; i++) b[i] = pat(1, i); while (at < nw) { int r = write(pfd, b + at, chunk < nw - at ? chunk : nw - at); CHECK(r > 0, "peer write"); at += r; } if (pmode & 4) shutdown(pfd, SHUT_WR); }
	else { while (rxn[0] < nw) { int r = read(pfd, b, rdsz); CHECK(r > 0, "peer read %d", r); put(0, b, r); } if (pmode & 4) { int r = read(pfd, b, 5); CHECK(r == 0, "peer expected end of stream, read %d", r); eof[0] = 1; } }
	rt_done(); return 0;
}
static int eof_reader(void *a, int) { kconnection *c = (kconnection *)a; unsigned char b[64]; for (;;) { int r = kfiber_net_read(c, (char *)b, rdsz); if (r == 0) break; CHECK(r > 0, "read returned %d before the end of the stream", r); put(1, b, r); } CHECK(rxn[1] == nw, "end of stream after %d of %d bytes", rxn[1], nw); CHECK(kfiber_net_read(c, (char *)b, 3) == 0, "end of stream is not repeated"); rt_done(); return 0; }
static int writer_shut(void *a, int m) { writer(a, m); shutdown(((kconnection *)a)->st.fd, SHUT_WR); return 0; }
static void withpeer(int mode, int cap, int n, int ck, int rs) {
	rt_start(1); rt_mark(); nw = n; chunk = ck; rdsz = rs; pmode = mode; kmc_explore(0); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 1); A = mkc(p[0], 0); pfd = p[1]; kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, peer, 0);
	kfiber_create2(SEL(0), mode & 1 ? (mode & 4 ? eof_reader : reader) : (mode & 4 ? writer_shut : writer), A, 0, 0, NULL); rt_wait(2); pthread_join(t, 0);
	kmc_explore(0); close(pfd); kfiber_create2(SEL(0), closer, A, 0, 0, NULL); rt_wait(g_done + 1); rt_check_released("connection"); kmc_outcome("%d %d %d", rxn[0], rxn[1], eof[0]); kmc_end();
}
SCEN(peer_sends, B({0,0},{1,1},{2,1},{3,1}), B({3,1},{3,2},{4,2}), 3000, 0, SIO) { withpeer(1, 3, 6, 4, 3); }
SCEN(peer_sends_eof, B({0,0},{1,1},{2,1},{3,1}), B({3,1},{3,2},{4,2}), 3000, 0, SIO) { withpeer(5, 3, 6, 4, 3); }
SCEN(peer_receives, B({0,0},{1,1},{2,1},{3,1}), B({3,1},{3,2},{4,2}), 3000, 0, SIO) { withpeer(0, 3, 6, 4, 3); }
SCEN(peer_receives_eof, B({0,0},{1,1},{2,1},{3,1}), B({3,1},{3,2},{4,2}), 3000, 0, SIO) { withpeer(4, 3, 6, 4, 3); }
/* every history of starting reads and writes (callback interface), hang-up watches, and what the peer does */
GHOST static int rpend, wpend, hpend, inq, outq, fin_, rst_, wsent, ncb, hup_cb, raccept; GHOST static char hist[32]; static int dcap, wlen, rlen_; static unsigned char rbuf[16], wbuf[16]; static kgl_iovec rv, wv, rio, wio;
static kev_result on_read(KOPAQUE data, void *arg, int got) {
	CHECK(rpend && arg == (void *)7 && data == (KOPAQUE)A, "read callback arguments (%s)", hist); rpend = 0; ncb++;
	if (inq > 0) { int e = rlen_ < inq ? rlen_ : inq; if (!rst_) CHECK(got == e, "read returned %d with %d bytes waiting (%s)", got, inq, hist); if (got > 0) { put(1, rbuf, got); inq -= got; } }
	else { CHECK(fin_ || rst_, "read returned %d with nothing to read (%s)", got, hist); CHECK(got == 0 || (rst_ && got < 0), "read returned %d after the end of the stream (%s)", got, hist); }
	return kev_ok;
}
static kev_result on_write(KOPAQUE data, void *arg, int got) {
	CHECK(wpend && arg == (void *)9 && data == (KOPAQUE)A, "write callback arguments (%s)", hist); wpend = 0; ncb++;
	if (!fin_ && !rst_) { int room = dcap - outq, e = wlen < room ? wlen : room; CHECK(got == e && e > 0, "write returned %d with room for %d (%s)", got, room, hist); }
	else CHECK(got == -1 || got > 0, "write returned %d (%s)", got, hist);
	if (got > 0) { if (!rst_) outq += got; wsent += got; }
	return kev_ok;
}
static kev_result on_hup(KOPAQUE data, void *arg, int got) { CHECK(hpend && arg == (void *)5 && data == (KOPAQUE)A, "hang-up callback (%s)", hist); CHECK(fin_ || rst_, "hang-up reported although the peer did not (%s)", hist); hpend = 0; hup_cb++; return kev_ok; }
/* asked to be called on the next round: once, without touching the stream */
static kev_result on_next_read(KOPAQUE data, void *arg, int got) { CHECK(rpend == 2 && arg == (void *)8 && data == (KOPAQUE)A, "call without being asked for (%s)", hist); rpend = 0; ncb++; CHECK(got == 0 || fin_ || rst_, "the call got %d (%s)", got, hist); return kev_ok; }
static kev_result on_next_write(KOPAQUE data, void *arg, int got) { CHECK(wpend == 2 && arg == (void *)6 && data == (KOPAQUE)A, "call without being asked for (%s)", hist); wpend = 0; ncb++; CHECK(got == 0 || fin_ || rst_, "the call got %d (%s)", got, hist); return kev_ok; }
static kev_result do_start(KOPAQUE, void *arg, int k) {
	switch (k) {
	case 0: rv.iov_base = (char *)rbuf; rv.iov_len = rlen_; rio.iov_base = (char *)&rv; rio.iov_len = 1; rpend = 1; hpend = 0; selectable_read(&A->st, on_read, &rio, (void *)7); break;
	case 1: for (int i = 0; i < wlen; i++) wbuf[i] = pat(0, wsent + i); wv.iov_base = (char *)wbuf; wv.iov_len = wlen; wio.iov_base = (char *)&wv; wio.iov_len = 1; wpend = 1; hpend = 0; selectable_write(&A->st, on_write, &wio, (void *)9); break;
	case 2: hpend = 1; if (!selectable_readhup(&A->st, on_hup, (void *)5)) { hpend = 0; kmc_fail("hang-up watch refused (%s)", hist); } break;
	case 3: hpend = 0; selectable_remove_readhup(&A->st); break;
	case 4: KBIT_CLR(A->st.base.st_flags, STF_LOCK); break;
	case 5: case 7: rpend = 2; hpend = 0; selectable_next_read(&A->st, on_next_read, (void *)8); CHECK(rpend == 2, "called at once (%s)", hist); if (k == 5) break;
	case 6: wpend = 2; hpend = 0; selectable_next_write(&A->st, on_next_write, (void *)6); CHECK(wpend == 2, "called at once (%s)", hist); break;
	}
	return kev_ok;
}
static void dialog(int depth, int cap, int rl, int wl, int ops = 8) {
	setup(1, cap, 64, 4, 4); dcap = cap; rlen_ = rl; wlen = wl; pfd = Bc->st.fd;
	A->st.data = A; unsigned char b[8]; int psent = 0, open_ = 1, prd = 0;
	for (int i = 0, h = 0; i < depth; i++) {
		int o = kmc_choose(ops); hist[h++] = "rwWRSChxnmb"[o]; hist[h] = 0;
		switch (o) {
		case 0: if (!rpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 0); break;
		case 1: if (!wpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 1); break;
		case 2: if (open_ && !fin_ && cap - inq > 0) { int n = cap - inq < 2 ? cap - inq : 2; for (int k = 0; k < n; k++) b[k] = pat(1, psent + k); CHECK(write(pfd, b, n) == n, "peer write"); psent += n; inq += n; } break;
		case 3: if (open_ && outq) { int n = read(pfd, b, 2); CHECK(n == (outq < 2 ? outq : 2), "peer read %d of %d (%s)", n, outq, hist); for (int k = 0; k < n; k++) CHECK(b[k] == pat(0, prd + k), "peer received wrong data (%s)", hist); prd += n; outq -= n; } break;
		case 4: if (open_ && !fin_) { fin_ = 1; shutdown(pfd, SHUT_WR); } break;
		case 5: if (open_) { open_ = 0; fin_ = 1; if (outq) rst_ = 1; kfiber_create2(SEL(0), closer, Bc, 0, 0, NULL); } break;
		case 6: if (!rpend && !wpend && !hpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 2); break;
		case 7: if (!rpend && !wpend && hpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 3); break;
		case 8: if (!rpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 5); break;
		case 9: if (!wpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 6); break;
		case 10: if (!rpend && !wpend) kgl_selector_module.next(SEL(0), NULL, do_start, NULL, 7); break;
		}
		if (o == 1 && !open_ && wpend == 0) rst_ = 1;
		usleep(1000);
		CHECK(rpend != 2 && wpend != 2, "the call asked for was not made (%s)", hist);
		CHECK(!(rpend && (inq || fin_)), "a read is left waiting although %s (%s)", inq ? "data is there" : "the stream ended", hist);
		CHECK(!(wpend && (outq < cap || fin_)), "a write is left waiting although %s (%s)", outq < cap ? "there is room" : "the peer hung up", hist);
		CHECK(!(hpend && fin_), "a hang-up was not reported (%s)", hist);
	}
	/* end: shut the connection down, everything pending must come back */
	fin_ = 1; rst_ = 1; kmc_trace("shutdown (%s)", hist); int had = rpend + wpend, n0 = ncb; selectable_shutdown(&A->st); usleep(2000);
	CHECK(ncb - n0 == had && !rpend && !wpend, "%d of %d pending operations ended after shutdown (%s)", ncb - n0, had, hist);
	kmc_explore(0); g_done = open_ ? 0 : 1; kfiber_create2(SEL(0), closer, A, 0, 0, NULL); if (open_) kfiber_create2(SEL(0), closer, Bc, 0, 0, NULL); rt_wait(2); rt_check_released("connection"); kmc_outcome("%d %d %d", rxn[1], wsent, hup_cb); kmc_end();
}
SCEN(dialog5, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { dialog(5, 4, 3, 3); }
SCEN(dialog6, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { dialog(6, 4, 3, 3); }
SCEN(dialog6_small, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { dialog(6, 2, 1, 3); }
SCEN(dialog7, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { dialog(7, 4, 3, 3); }
SCEN(next_calls, B({0,0}), B({-1,-1}), 6000, 0, KMC_F_SEQ) { dialog(5, 4, 3, 3, 11); }
SCEN(next_calls6, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { dialog(6, 4, 3, 3, 11); }
/* a crowd: more connections become ready at once than the kernel reports in one call */
#define CROWD 700
static kconnection *crc[CROWD]; static int crp[CROWD]; static char crb[CROWD][8]; static kgl_iovec crv[CROWD], crio[CROWD]; GHOST static int cr_n, cr_st[CROWD];
static kev_result cr_r(KOPAQUE, void *arg, int got) { int i = (int)(long)arg; if (cr_st[i] == 0) { CHECK(got == 2 && crb[i][0] == (char)i && crb[i][1] == (char)(i >> 8), "connection %d read %d", i, got); cr_st[i] = 1; cr_n++; selectable_read(&crc[i]->st, cr_r, &crio[i], arg); } else { CHECK(cr_st[i] == 1 && got == 0, "connection %d: %d at the end", i, got); cr_st[i] = 2; cr_n++; } return kev_ok; }
static kev_result cr_begin(KOPAQUE, void *, int) { for (int i = 0; i < CROWD; i++) { crv[i].iov_base = crb[i]; crv[i].iov_len = 8; crio[i].iov_base = (char *)&crv[i]; crio[i].iov_len = 1; selectable_read(&crc[i]->st, cr_r, &crio[i], (void *)(long)i); } return kev_ok; }
static kev_result cr_end(KOPAQUE, void *, int) { for (int i = 0; i < CROWD; i++) kconnection_destroy(crc[i]); rt_done(); return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 30000, 1, KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0);
	for (int i = 0; i < CROWD; i++) { int f[2]; vk_socketpair(f, 1); crp[i] = f[1]; crc[i] = mkc(f[0], 0); }
	kgl_selector_module.next(SEL(0), NULL, cr_begin, NULL, 0); usleep(300000); CHECK(cr_n == 0, "a read ended without data"); kmc_explore(1);
	for (int i = 0; i < CROWD; i++) { char b[2] = { (char)i, (char)(i >> 8) }; CHECK(write(crp[i], b, 2) == 2, "peer write"); }
	usleep(300000); CHECK(cr_n == CROWD, "%d of %d connections read", cr_n, CROWD); for (int i = 0; i < CROWD; i++) close(crp[i]);
	usleep(300000); CHECK(cr_n == 2 * CROWD, "%d of %d connections saw the end", cr_n - CROWD, CROWD); kgl_selector_module.next(SEL(0), NULL, cr_end, NULL, 0); rt_wait(1); rt_check_released("crowd"); kmc_end();
}
/* much data: large pieces, many pieces in one call, small and large socket buffers, both directions */
#define BIG 250000
static unsigned char lg_pat(unsigned i, int d) { return (unsigned char)((i * 2654435761u >> 13) + d); } static kconnection *lgc[2]; static int lg_vec, lg_len, lg_rlen; GHOST static int lg_done;
static int lg_write(void *a, int d) {
	kconnection *c = (kconnection *)a; static unsigned char b[2][BIG]; static kgl_iovec v[2][600]; int at = 0; for (int i = 0; i < BIG; i++) b[d][i] = lg_pat(i, d);
	while (at < BIG) { int left = BIG - at; if (lg_vec) { int n = 0, p = at; while (n < lg_vec && p < BIG) { int l = 1 + (n * 31 + at) % lg_len; if (l > BIG - p) l = BIG - p; v[d][n].iov_base = (char *)b[d] + p; v[d][n++].iov_len = l; p += l; } size_t w = kfiber_net_writev_full(c, v[d], &n); CHECK(w == (size_t)(p - at) && n == 0, "write of %d bytes in pieces: %zu", p - at, w); at = p; } else { int n = left < lg_len ? left : lg_len; CHECK(kfiber_net_write_full(c, (char *)b[d] + at, &n), "write"); at += n ? 0 : left < lg_len ? left : lg_len; } }
	lg_done++; return 0;
}
static int lg_read(void *a, int d) {
	kconnection *c = (kconnection *)a; static unsigned char b[2][70000]; static kgl_iovec v[2][300]; int at = 0;
	while (at < BIG) { int r; memset(b[d], 0xEE, lg_rlen + 1); if (lg_vec) { int n = 0, p = 0; while (n < 300 && p < lg_rlen) { int l = 1 + n % 29; if (l > lg_rlen - p) l = lg_rlen - p; v[d][n].iov_base = (char *)b[d] + p; v[d][n++].iov_len = l; p += l; } r = kfiber_net_readv(c, v[d], n); } else r = kfiber_net_read(c, (char *)b[d], lg_rlen);
		CHECK(r > 0 && r <= lg_rlen && at + r <= BIG, "read %d at %d", r, at); for (int i = 0; i < r; i++) CHECK(b[d][i] == lg_pat(at + i, d), "byte %d is wrong", at + i); CHECK(b[d][lg_rlen] == 0xEE, "read past the buffer"); at += r; }
	CHECK(at == BIG, "%d of %d bytes arrived", at, BIG); lg_done++; return 0;
}
static int lg_close(void *, int) { kfiber_net_close(lgc[0]); char b[8]; CHECK(kfiber_net_read(lgc[1], b, 8) == 0, "bytes that were not written"); kfiber_net_close(lgc[1]); rt_done(); return 0; }
SCEN(large, B({0,0}), B({0,0}), 60000, 1, 0) {
	rt_start(1); rt_mark(); kmc_explore(0); static const int caps[] = { 1000, 65536, 400000 }, lens[] = { 40, 5000, 70000, BIG }; vk_set_sockbuf(caps[kmc_choose(3)]); lg_vec = kmc_choose(2) ? 600 : 0; lg_len = lens[kmc_choose(lg_vec ? 2 : 4)]; lg_rlen = kmc_choose(2) ? 69999 : 1500;
	int f[2]; vk_socketpair(f, 3); for (int i = 0; i < 2; i++) { lgc[i] = mkc(f[i], 0); } for (int i = 0; i < 2; i++) kfiber_create2(SEL(0), lg_read, lgc[1 - i], i, 0, NULL); for (int i = 0; i < 2; i++) kfiber_create2(SEL(0), lg_write, lgc[i], i, 0, NULL);
	for (int k = 0; k < 300 && lg_done < 4; k++) usleep(100000); CHECK(lg_done == 4, "%d of 4 directions ended", lg_done); kfiber_create2(SEL(0), lg_close, NULL, 0, 0, NULL); rt_wait(1); rt_check_released("large"); kmc_end();
}
