/* sending files: sendfile moves the file's bytes from its position to the connection exactly once and in order, with the other writes,
 * reports what it moved, moves the position by it, waits for room and ends when the connection or the file does */
#include "common.h"
#include "kasync_file.h"
static const char *PATH = "/v/f"; static unsigned char fb(int i) { return (unsigned char)(i * 11 + 5); }
static kconnection *A, *Bc; static int size; GHOST static unsigned char got[512]; GHOST static int ngot, eof; static unsigned char want[512]; static int nwant; static int rdsz = 3;
static kconnection *mkc(int fd, int sel) { kconnection *c = kconnection_new(NULL); c->st.fd = fd; selectable_bind(&c->st, SEL(sel)); return c; }
static void mkfile(int n) { static unsigned char b[512]; for (int i = 0; i < n; i++) b[i] = fb(i); size = n; vk_file_set(PATH, b, n); }
static void setup(int sels, int cap, int n) { rt_start(sels); rt_mark(); kmc_explore(0); mkfile(n); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], sels > 1 ? 1 : 0); kmc_explore(1); }
static int closer(void *a, int) { kfiber_net_close((kconnection *)a); rt_done(); return 0; }
/* reads until the end of the stream */
static int reader(void *, int) { char b[64]; for (;;) { memset(b, 0xEE, sizeof b); int r = kfiber_net_read(Bc, b, rdsz); if (r <= 0) break; CHECK(ngot + r <= 512 && r <= rdsz, "read"); memcpy(got + ngot, b, r); ngot += r; } eof = 1; kfiber_net_close(Bc); rt_done(); return 0; }
static void check(int exact) { CHECK(exact ? ngot == nwant : ngot <= nwant, "%d bytes arrived, %d were sent", ngot, nwant); for (int i = 0; i < ngot; i++) CHECK(got[i] == want[i], "byte %d that arrived is %02x, %02x was sent", i, got[i], want[i]); }
static kfiber_file *openf(int at) { kfiber_file *f = kfiber_file_open(PATH, fileRead, 0); CHECK(f, "open"); kfiber_file_seek(f, seekBegin, at); return f; }
static void wants(int from, int n) { for (int i = 0; i < n; i++) want[nwant++] = fb(from + i); }
/* one sendfile call */
static int send1(kfiber_file *f, int n) {
	int at = (int)kfiber_file_tell(f), left = size - at; if (left < 0) left = 0; int r = kfiber_sendfile(A, f, n); CHECK(r <= n && r <= left, "sendfile of %d with %d left returned %d", n, left, r); CHECK(r > 0 || !n || !left, "sendfile of %d with %d left returned %d", n, left, r); CHECK(kfiber_file_tell(f) == at + (r > 0 ? r : 0), "position %d after sendfile of %d from %d", (int)kfiber_file_tell(f), r, at); if (r > 0) wants(at, r); return r;
}
static void sendn(kfiber_file *f, int n) { int at = (int)kfiber_file_tell(f), e = size - at < n ? size - at : n, len = n; if (e < 0) e = 0; bool ok = kfiber_sendfile_full(A, f, &len); CHECK(ok == (e == n), "sendfile_full of %d with %d left returned %d", n, size - at, ok); CHECK(n - len == e, "sendfile_full moved %d of %d", n - len, e); CHECK(kfiber_file_tell(f) == at + e, "position %d, %d expected", (int)kfiber_file_tell(f), at + e); wants(at, e); }
static void hdr(int n) { unsigned char b[16]; for (int i = 0; i < n; i++) { b[i] = 0xA0 + i; want[nwant++] = b[i]; } int len = n; CHECK(kfiber_net_write_full(A, (char *)b, &len) && len == 0, "write"); }
static int plainfiber(void *, int mode) {
	kfiber_file *f = openf(1);
	switch (mode) {
	case 0: sendn(f, size - 1); break;                                    /* the rest of the file at once */
	case 1: while (kfiber_file_tell(f) < size) send1(f, 4); break;        /* in pieces */
	case 2: hdr(2); sendn(f, 5); hdr(3); sendn(f, size - 6); hdr(1); break; /* between other writes */
	case 3: sendn(f, size + 4); CHECK(send1(f, 5) == 0, "end of the file"); hdr(2); break; /* beyond the end of the file */
	}
	kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0;
}
static void simple(int sels, int cap, int n, int mode) { setup(sels, cap, n); kfiber_create2(SEL(0), plainfiber, NULL, mode, 0, NULL); kfiber_create2(Bc->st.base.selector, reader, NULL, 0, 0, NULL); rt_wait(2); check(1); rt_check_released("connection or file"); kmc_outcome("%d", ngot); kmc_end(); }
#define SIO KMC_F_SHORTIO | KMC_F_EPORDER
SCEN(whole_1sel, B({0,0},{0,2},{0,3},{0,5}), B({0,5},{0,7}), 3000, 0, SIO) { simple(1, 3, 9, 0); }
SCEN(whole_2sel, B({0,0},{1,1},{2,1},{2,2}), B({3,1},{3,2}), 3000, 0, SIO) { simple(2, 3, 7, 0); }
SCEN(pieces_2sel, B({0,0},{1,1},{2,1}), B({3,1},{2,2}), 3000, 0, SIO) { simple(2, 3, 7, 1); }
SCEN(mixed_1sel, B({0,0},{0,2},{0,4}), B({0,4},{0,5}), 3000, 0, SIO) { simple(1, 4, 10, 2); }
SCEN(mixed_2sel, B({0,0},{1,1},{2,1}), B({2,2},{3,1}), 3000, 0, SIO) { simple(2, 4, 9, 2); }
SCEN(past_end, B({0,0},{0,2},{0,4}), B({0,4},{0,5}), 3000, 0, SIO) { simple(1, 3, 6, 3); }
SCEN(sched, B({0,0},{2,0},{3,0}), B({4,0}), 3000, 0, 0) { simple(2, 2, 6, 0); }
SCEN(sizes, B({0,0},{0,1},{0,2}), B({0,2}), 3000, 0, SIO) { rdsz = 1 + kmc_choose(3) * 2; int cap = 1 + kmc_choose(5); simple(1, cap, 2 + kmc_choose(9), kmc_choose(2)); }
/* every history of sending, reading and writing the file (same position), writes and waiting for the reader */
static int hdepth; static char hist[32]; static unsigned char m[512];
static int histfiber(void *, int) {
	kfiber_file *f = openf(0); int at = 0; char b[16];
	for (int i = 0; i < hdepth; i++) { int o = kmc_choose(8); hist[i] = "sSfwrkxm"[o];
		switch (o) {
		case 0: send1(f, 2); break; case 1: send1(f, 5); break; case 2: sendn(f, 4); break; case 3: hdr(3); break;
		case 4: { at = (int)kfiber_file_tell(f); int e = size - at < 2 ? size - at : 2; if (e < 0) e = 0; int r = kfiber_file_read(f, b, 2); CHECK(r == e, "file read of 2 with %d left returned %d (%s)", size - at, r, hist); for (int k = 0; k < r; k++) CHECK((unsigned char)b[k] == fb(at + k), "file read gave wrong data (%s)", hist); CHECK(kfiber_file_tell(f) == at + r, "position (%s)", hist); } break;
		case 5: kfiber_file_seek(f, seekBegin, 1); break; case 6: kfiber_file_seek(f, seekCur, 3); break; case 7: kfiber_msleep(1); break;
		} }
	kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0;
}
static void history(int d) { hdepth = d; setup(1, 3, 8); kfiber_create2(SEL(0), histfiber, NULL, 0, 0, NULL); kfiber_create2(SEL(0), reader, NULL, 0, 0, NULL); rt_wait(2); check(1); rt_check_released("connection or file"); kmc_outcome("%d", ngot); kmc_end(); }
SCEN(history4, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { history(4); }
SCEN(history5, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { history(5); }
SCEN(history6, B({-1,-1}), B({0,0}), 3000, 0, KMC_F_SEQ) { history(6); }
SCEN(history3_short, B({0,0},{0,1},{0,2}), B({0,2}), 3000, 0, SIO) { history(3); }
/* a crowd: many connections send files at once; one sends many times */
#define CROWD 60
static kconnection *cra[CROWD]; static int crp[CROWD]; GHOST static int crn[CROWD];
static int cr_send(void *a, int n) { int i = (int)(long)a; kfiber_file *f = openf(i % 7); int left = size - i % 7; for (int k = 0; k < n; k++) { int len = left; if (n > 1) kfiber_file_seek(f, seekBegin, i % 7); CHECK(kfiber_sendfile_full(cra[i], f, &len) && len == 0, "connection %d, send %d: %d left", i, k, len); crn[i] += left; } kfiber_file_close(f); kfiber_net_close(cra[i]); rt_done(); return 0; }
static void cr_drain(int i, int n) { unsigned char b[64]; int left = size - i % 7, at = 0, r; while ((r = read(crp[i], b, sizeof b)) > 0) for (int k = 0; k < r; k++, at++) CHECK(b[k] == fb(i % 7 + at % left), "connection %d: byte %d is wrong", i, at); CHECK(r == 0 && at == left * n && crn[i] == at, "connection %d: %d bytes arrived, %d were sent", i, at, crn[i]); close(crp[i]); }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0); mkfile(23); vk_set_sockbuf(4); for (int i = 0; i < CROWD; i++) { int p[2]; vk_socketpair(p, 1); cra[i] = mkc(p[0], 0); crp[i] = p[1]; } kmc_explore(1);
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(0), cr_send, (void *)(long)i, i == 9 ? 90 : 1, 0, NULL);
	for (int i = CROWD - 1; i >= 0; i--) cr_drain(i, i == 9 ? 90 : 1);
	rt_wait(CROWD); rt_settle(100); rt_check_released("crowd"); kmc_end();
}
/* positions beyond 2 and 4 GB */
static int64_t far_p; static int farfiber(void *, int way) {
	kfiber_file *f = kfiber_file_open(PATH, fileRead, 0); CHECK(f, "open"); CHECK(kfiber_file_seek(f, seekBegin, far_p + 1) == 0, "seek"); int64_t at = far_p + 1, end = far_p + 9;
	while (at < end) { int n = way == 1 ? 3 : 20, r; if (way == 2) { int len = n = (int)(end - at); CHECK(kfiber_sendfile_full(A, f, &len) && len == 0, "sendfile_full"); r = n; } else r = kfiber_sendfile(A, f, n); CHECK(r > 0 && r <= n && r <= end - at, "sendfile of %d at %lld returned %d", n, (long long)at, r); for (int k = 0; k < r; k++) want[nwant++] = fb((int)(at + k - far_p)); at += r; CHECK(kfiber_file_tell(f) == at, "position %lld, %lld expected", (long long)kfiber_file_tell(f), (long long)at); }
	if (way != 2) CHECK(kfiber_sendfile(A, f, 5) == 0, "end of the file"); kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0;
}
SCEN(far, B({0,0},{0,2}), B({0,3},{1,2}), 3000, 0, SIO) {
	static const int64_t P[] = { 0x7ffffff8ll, 0x7fffffffll, 0x80000000ll, 0xfffffff8ll, 0x100000000ll, 0x123456789ll, 0x7ffffffffffll }; setup(1, 4, 0); kmc_explore(0); far_p = P[kmc_choose(7)]; int way = kmc_choose(3); unsigned char b[9]; for (int i = 0; i < 9; i++) b[i] = fb(i); vk_file_set_at(PATH, far_p, b, 9); kmc_explore(1);
	kfiber_create2(SEL(0), farfiber, NULL, way, 0, NULL); kfiber_create2(SEL(0), reader, NULL, 0, 0, NULL); rt_wait(2); CHECK(nwant == 8, "harness"); check(1); rt_check_released("connection or file"); kmc_end();
}
/* much data and large lengths: pieces and rests of a large file, between other writes, through small and large socket buffers */
#define LBIG 300000
static unsigned char lpat(unsigned i) { return (unsigned char)(i * 2654435761u >> 13); } GHOST static int l_at; static int l_way, l_n;
static int l_reader(void *, int) { static char b[70000]; for (;;) { int r = kfiber_net_read(Bc, b, sizeof b); if (r <= 0) break; CHECK(l_at + r <= LBIG, "more arrived than was sent"); for (int i = 0; i < r; i++) CHECK((unsigned char)b[i] == lpat(l_at + i), "byte %d is wrong", l_at + i); l_at += r; } kfiber_net_close(Bc); rt_done(); return 0; }
static int l_sender(void *, int) {
	kfiber_file *f = kfiber_file_open(PATH, fileRead, 0); CHECK(f, "open"); int at = 0;
	while (at < LBIG) {
		int left = LBIG - at, e = left < l_n ? left : l_n; if (l_way == 0) { int r = kfiber_sendfile(A, f, l_n); CHECK(r > 0 && r <= e, "sendfile of %d at %d returned %d", l_n, at, r); at += r; } else { int len = l_n; bool ok = kfiber_sendfile_full(A, f, &len); CHECK(ok == (left >= l_n) && l_n - len == e, "sendfile_full of %d with %d left: %d, %d left", l_n, left, ok, len); at += e; }
		CHECK(kfiber_file_tell(f) == at, "position %d after %d", (int)kfiber_file_tell(f), at); if (l_way == 2 && at + 5000 <= LBIG) { static char b[5000]; for (int i = 0; i < 5000; i++) b[i] = lpat(at + i); int len = 5000; CHECK(kfiber_net_write_full(A, b, &len), "write"); at += 5000; CHECK(kfiber_file_seek(f, seekBegin, at) == 0, "seek"); }
	}
	CHECK(kfiber_sendfile(A, f, l_n) == 0, "beyond the end"); kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0;
}
SCEN(large, B({0,0}), B({0,0}), 60000, 1, 0) {
	static const int caps[] = { 1000, 65536, 400000 }, lens[] = { 3000, 32768, 65535, 65536, 65537, 131072, LBIG - 1, LBIG, LBIG + 1, 0x7fffffff }; static unsigned char d[LBIG]; int cap = caps[kmc_choose(3)]; l_n = lens[kmc_choose(10)]; l_way = kmc_choose(3); rt_start(1); rt_mark(); kmc_explore(0); for (int i = 0; i < LBIG; i++) d[i] = lpat(i); vk_file_set(PATH, d, LBIG); vk_set_sockbuf(cap); int p[2]; vk_socketpair(p, 3); A = mkc(p[0], 0); Bc = mkc(p[1], 0);
	kfiber_create2(SEL(0), l_sender, NULL, 0, 0, NULL); kfiber_create2(SEL(0), l_reader, NULL, 0, 0, NULL); rt_wait(2); CHECK(l_at == LBIG, "%d of %d bytes arrived", l_at, LBIG); rt_check_released("connection or file"); kmc_end();
}
/* reading from the connection goes on while a sendfile waits for room */
static int dup_reader(void *, int) { char b[16]; int n = 0; while (n < 6) { int r = kfiber_net_read(A, b, 4); CHECK(r > 0, "read returned %d", r); for (int i = 0; i < r; i++) CHECK((unsigned char)b[i] == 0x40 + n + i, "data"); n += r; } rt_done(); return 0; }
static int dup_send(void *, int) { kfiber_file *f = openf(0); sendn(f, size); kfiber_file_close(f); rt_done(); return 0; }
static int dup_peer(void *, int) { char b[16]; for (int i = 0; i < 6; i += 3) { for (int k = 0; k < 3; k++) b[k] = 0x40 + i + k; int len = 3; CHECK(kfiber_net_write_full(Bc, b, &len), "peer write"); while (ngot < (i + 3) * size / 6) { int r = kfiber_net_read(Bc, b, 3); CHECK(r > 0, "peer read %d", r); memcpy(got + ngot, b, r); ngot += r; } } rt_done(); return 0; }
static void duplex(int sels) { setup(sels, 3, 8); kfiber_create2(SEL(0), dup_send, NULL, 0, 0, NULL); kfiber_create2(SEL(0), dup_reader, NULL, 0, 0, NULL); kfiber_create2(Bc->st.base.selector, dup_peer, NULL, 0, 0, NULL); rt_wait(3); check(1); kmc_explore(0); kfiber_create2(SEL(0), closer, A, 0, 0, NULL); kfiber_create2(Bc->st.base.selector, closer, Bc, 0, 0, NULL); rt_wait(5); rt_check_released("connection or file"); kmc_end(); }
SCEN(duplex_1sel, B({0,0},{0,2},{0,4}), B({0,4},{0,5}), 3000, 0, SIO) { duplex(1); }
SCEN(duplex_2sel, B({0,0},{1,1},{2,1}), B({2,2},{3,1}), 3000, 0, SIO) { duplex(2); }
/* the connection ends, or the device fails, while or before a sendfile is pending */
static int how, early; GHOST static int ended;
static int end_send(void *, int) { kfiber_file *f = openf(0); if (early) kfiber_msleep(20); int sum = 0, r; for (;;) { int at = (int)kfiber_file_tell(f); r = kfiber_sendfile(A, f, 8); if (r <= 0) break; CHECK(at + r <= size && kfiber_file_tell(f) == at + r, "position"); wants(at, r); sum += r; } CHECK(sum < size || r == 0, "sendfile returned %d", r); if (how != 5) CHECK(r < 0 || sum == size, "sendfile on an ended connection returned %d after %d of %d", r, sum, size); CHECK(kfiber_file_tell(f) == sum, "position %d after %d sent", (int)kfiber_file_tell(f), sum); ended = 1; int r2 = kfiber_sendfile(A, f, 4); if (how != 5 && how != 4) CHECK(r2 < 0 || sum == size, "a second sendfile returned %d", r2); kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0; }
static int end_other(void *, int k) { kfiber_msleep(10); if (k == 0) { kfiber_net_shutdown(A); kfiber_create2(Bc->st.base.selector, reader, NULL, 0, 0, NULL); return 0; } else if (k == 1) { kfiber_net_close(Bc); rt_done(); return 0; } else if (k == 2) vk_rst(Bc->st.fd); else if (k == 3) { char b[8]; int r = kfiber_net_read(Bc, b, 2); CHECK(r >= 1, "read %d", r); memcpy(got, b, r); ngot = r; kfiber_net_close(Bc); rt_done(); return 0; } reader(NULL, 0); return 0; }
SCEN(ends, B({0,0},{1,0},{1,1}), B({2,0},{2,1}), 90000, 0, SIO) {
	setup(1 + kmc_choose(2), 3, 12); how = kmc_choose(4); early = kmc_choose(2); kfiber_create2(SEL(0), end_send, NULL, 0, 0, NULL); kfiber_create2(how == 0 ? SEL(0) : Bc->st.base.selector, end_other, NULL, how, 0, NULL); rt_wait(2); check(0); rt_check_released("connection or file"); kmc_outcome("%d %d %d", how, early, ngot); kmc_end();
}
/* a device error: an error result, the position stays, the connection goes on */
static int nth; static int io_fail(const char *op, int) { if (!strcmp(op, "sendfile") && nth-- == 0) return EIO; return 0; }
static int fail_fiber(void *, int) { kfiber_file *f = openf(0); int errs = 0; while (kfiber_file_tell(f) < size) { int at = (int)kfiber_file_tell(f), r = kfiber_sendfile(A, f, 4); if (r < 0) { errs++; CHECK(kfiber_file_tell(f) == at, "position moved by a failed sendfile"); CHECK(errs == 1, "more failures than the device had"); hdr(1); } else { CHECK(r > 0 && r <= 4 && kfiber_file_tell(f) == at + r, "sendfile returned %d", r); wants(at, r); } } kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0; }
SCEN(fails, B({0,0},{0,1},{0,2}), B({0,3}), 3000, 0, SIO) { setup(1, 3, 9); nth = kmc_choose(7); vk_set_fault(io_fail); kfiber_create2(SEL(0), fail_fiber, NULL, 0, 0, NULL); kfiber_create2(SEL(0), reader, NULL, 0, 0, NULL); rt_wait(2); check(1); rt_check_released("connection or file"); kmc_end(); }
/* registering the connection for events fails: an error, then closing works */
static int reg_fail(const char *op, int) { return !strcmp(op, "epoll_ctl") ? ENOMEM : 0; }
static int reg_fiber(void *, int) { kfiber_file *f = openf(0); vk_set_fault(reg_fail); int r = kfiber_sendfile(A, f, 4); CHECK(r == -1, "sendfile returned %d although the connection could not be registered", r); CHECK(kfiber_file_tell(f) == 0, "position"); vk_set_fault(NULL); sendn(f, size); kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0; }
SCEN(register_fails, B({0,0}), B({0,2}), 3000, 0, SIO) { setup(1, 30, 9); kfiber_create2(SEL(0), reg_fiber, NULL, 0, 0, NULL); kfiber_create2(SEL(0), reader, NULL, 0, 0, NULL); rt_wait(2); check(1); rt_check_released("connection or file"); kmc_end(); }
/* no room for the time-out: the operation ends with an error, not before */
static int to_send(void *, int) { kfiber_file *f = openf(0); int64_t t = kmc_now_us(); int sum = 0, r; while ((r = kfiber_sendfile(A, f, 8)) > 0) { sum += r; wants(sum - r, r); t = kmc_now_us(); } int64_t d = (kmc_now_us() - t) / 1000; CHECK(r < 0 && sum == 3, "sendfile returned %d after %d", r, sum); CHECK(d >= 4900 && d <= 6500, "a sendfile without room ended after %d ms, the time-out is 5000", (int)d); kfiber_file_close(f); kfiber_net_close(A); rt_done(); return 0; }
SCEN(time_out, B({0,0}), B({1,0}), 90000, 1, 0) { setup(1, 3, 8); selector_manager_set_timeout(5, 5); kfiber_create2(SEL(0), to_send, NULL, 0, 0, NULL); rt_wait(1); kfiber_create2(SEL(0), reader, NULL, 0, 0, NULL); rt_wait(2); check(1); rt_check_released("connection or file"); kmc_end(); }
/* callback interface: called once with its arguments; two connections at once */
static kasync_file F[2]; static kgl_iovec v[2]; static kconnection *cc[2], *pc[2]; GHOST static int calls[2], busy[2]; static int sent[2]; GHOST static int pgot[2];
static kev_result cb_done(KOPAQUE data, void *arg, int g) { int i = (int)(long)arg - 50; CHECK(i == 0 || i == 1, "argument"); CHECK(data == (KOPAQUE)&cc[i], "data"); CHECK(busy[i] == 1, "called without an operation"); busy[i] = 0; calls[i]++; CHECK(sel_index() == 0, "loop"); if (g <= 0) { CHECK(g == 0 && sent[i] == size, "sendfile returned %d after %d", g, sent[i]); kfclose(kasync_file_get_handle(&F[i])); kconnection_destroy(cc[i]); rt_done(); return kev_destroy; } CHECK(g <= (int)v[i].iov_len, "moved more than asked"); sent[i] += g; F[i].st.offset = sent[i]; busy[i] = 1; v[i].iov_len = 4; return selectable_sendfile(&cc[i]->st, cb_done, &v[i], arg); }
static kev_result cb_start(KOPAQUE, void *arg, int) { int i = (int)(long)arg - 50; FILE_HANDLE h = kfopen(PATH, fileRead, KFILE_ASYNC); CHECK(kflike(h), "open"); memset(&F[i], 0, sizeof F[i]); kgl_selector_module.aio_open(kgl_get_tls_selector(), &F[i], h); v[i].iov_base = (char *)&F[i]; v[i].iov_len = 4; cc[i]->st.data = &cc[i]; busy[i] = 1; return selectable_sendfile(&cc[i]->st, cb_done, &v[i], arg); }
static int cb_reader(void *a, int i) { char b[8]; int r; while ((r = kfiber_net_read(pc[i], b, 3)) > 0) { for (int k = 0; k < r; k++) CHECK((unsigned char)b[k] == fb(pgot[i] + k), "connection %d: byte %d is wrong", i, pgot[i] + k); pgot[i] += r; } kfiber_net_close(pc[i]); rt_done(); return 0; }
SCEN(callbacks, B({0,0},{0,2},{1,1}), B({2,1},{0,4}), 3000, 0, SIO) {
	rt_start(2); rt_mark(); kmc_explore(0); mkfile(7); vk_set_sockbuf(3); for (int i = 0; i < 2; i++) { int p[2]; vk_socketpair(p, 3); cc[i] = mkc(p[0], 0); pc[i] = mkc(p[1], 1); } kmc_explore(1);
	for (int i = 0; i < 2; i++) { kgl_selector_module.next(SEL(0), NULL, cb_start, (void *)(long)(50 + i), 0); kfiber_create2(SEL(1), cb_reader, NULL, i, 0, NULL); } rt_wait(4); CHECK(pgot[0] == 7 && pgot[1] == 7, "%d and %d of 7 bytes arrived", pgot[0], pgot[1]); rt_check_released("connection or file"); kmc_end();
}
