/* C23: the chained buffer (krw_buffer), the flat buffer (ks_buffer), and seeking in buffer chains and iovecs against a byte string */
#include "common.h"
#define CS 4
struct model { unsigned char b[65536]; int h, t; int len() { return t - h; } };
static unsigned char next_byte;
static char hist[64]; static int nh;
static krw_buffer *B; static model M; static int maxlen;
static void m_put(unsigned char c) { M.b[M.t++] = c; }
static kbuf *mk(int n, int front) {
	kbuf *k = new_kbuf(n ? n : 1); k->used = n; k->next = (kbuf *)0x10; k->flags = 0;
	for (int i = 0; i < n; i++) { k->data[i] = next_byte++; }
	if (front) { M.h -= n; memcpy(M.b + M.h, k->data, n); } else for (int i = 0; i < n; i++) m_put(k->data[i]);
	return k;
}
static void invariants() {
	CHECK(B->total_len == M.len(), "total_len %d, %d bytes unread (%s)", B->total_len, M.len(), hist);
}
static uint64_t state(int left) {
	uint64_t h = kmc_hash(&left, sizeof left, 11);
	for (kbuf *k = B->head; k; k = k->next) { h = kmc_hash(&k->used, sizeof k->used, h); for (unsigned i = 0; i < k->used; i++) { unsigned char d = k->data[i] - next_byte; h = kmc_hash(&d, 1, h); } }
	if (B->head) { int o = (int)(B->read_hot - B->head->data); h = kmc_hash(&o, sizeof o, h); o = B->write_hot ? (int)(B->write_hot - B->write_hot_buf->data) : -1; h = kmc_hash(&o, sizeof o, h); }
	for (int i = M.h; i < M.t; i++) { unsigned char d = M.b[i] - next_byte; h = kmc_hash(&d, 1, h); }
	return h;
}
static void expect(const void *p, int n, const char *what) { CHECK(n <= M.len(), "%s gave %d bytes of %d (%s)", what, n, M.len(), hist); CHECK(!memcmp(p, M.b + M.h, n), "%s gave other bytes (%s)", what, hist); }
static void rd(int n) { char buf[8192]; int r = krw_read(B, buf, n), want = n < M.len() ? n : M.len(); CHECK(r == want, "krw_read(%d) = %d, expected %d (%s)", n, r, want, hist); expect(buf, r, "krw_read"); M.h += r; }
/* iovecs of up to cnt chunks; consume take bytes (-1: all given) */
static void rdv(int cnt, int take) {
	WSABUF v[8]; int c = krw_get_read_buffers(B, v, cnt);
	if (!M.len()) { CHECK(c == 0, "read buffers (%d) though nothing is unread (%s)", c, hist); int l; CHECK(!krw_get_read_buffer(B, &l), "a read buffer though nothing is unread (%s)", hist); return; }
	CHECK(c > 0 && c <= cnt, "%d read buffers of %d (%s)", c, cnt, hist);
	int n = 0; for (int i = 0; i < c; i++) { expect(v[i].iov_base, 0, ""); CHECK(n + (int)v[i].iov_len <= M.len() && !memcmp(v[i].iov_base, M.b + M.h + n, v[i].iov_len), "other bytes in read buffer %d (%s)", i, hist); n += (int)v[i].iov_len; }
	CHECK(n > 0, "empty read buffers though %d bytes are unread (%s)", M.len(), hist);
	if (c < cnt) CHECK(n == M.len(), "%d bytes in %d of %d read buffers, %d unread (%s)", n, c, cnt, M.len(), hist);
	int l = 0; char *p = krw_get_read_buffer(B, &l); CHECK(p && l > 0 && l <= M.len() && !memcmp(p, M.b + M.h, l), "the first read buffer (%s)", hist);
	if (take < 0 || take > n) take = n;
	bool more = krw_read_success(B, take); M.h += take; CHECK(more == (M.len() > 0), "krw_read_success said %d, %d unread (%s)", more, M.len(), hist);
}
static void wr(int n) { int len = -1; char *p = krw_get_write_buffer(B, &len); CHECK(p && len > 0 && len <= B->chunk_size, "write buffer of %d (%s)", len, hist); if (n < 0 || n > len) n = len; for (int i = 0; i < n; i++) { p[i] = next_byte; m_put(next_byte++); } krw_write_success(B, n); }
static void wrs(int n) { char s[64]; for (int i = 0; i < n; i++) { s[i] = next_byte; m_put(next_byte++); } krw_write_str(B, s, n); }
static void wri(int64_t v, int wide) { char s[40]; int n = snprintf(s, sizeof s, "%lld", (long long)v); for (int i = 0; i < n; i++) m_put(s[i]); if (wide) krw_write_int64(B, v); else krw_write_int(B, (int)v); }
static const char OPS[] = "0gwsSaAiI1rRvVo";
static void krw(int depth, const char *ops) {
	kmc_explore(0); size_t live = kmc_live_allocs();
	M.h = M.t = 1024; next_byte = 1; nh = 0; hist[0] = 0;
	krw_buffer st; int heap = kmc_choose(2); if (heap) B = krw_buffer_new(CS); else { B = &st; krw_buffer_init(B, CS); }
	int nops = (int)strlen(ops);
	for (int i = 0; i < depth; i++) {
		char o = ops[kmc_choose(nops)]; hist[nh++] = o; hist[nh] = 0;
		switch (o) {
		case '0': { int l; CHECK(krw_get_write_buffer(B, &l) && l > 0, "write buffer (%s)", hist); } break;
		case 'z': wr(0); break;
		case 'g': wr(1); break;
		case 'w': wr(-1); break;
		case 's': wrs(3); break;
		case 'S': wrs(9); break;
		case 'a': krw_append(B, mk(2, 0)); break;
		case 'A': krw_append(B, mk(0, 0)); break;
		case 'i': krw_insert(B, mk(2, 1)); break;
		case 'I': krw_insert(B, mk(0, 1)); break;
		case '1': rd(1); break;
		case 'r': rd(3); break;
		case 'R': rd(100); break;
		case 'v': rdv(1, -1); break;
		case 'V': rdv(3, -1); break;
		case 'o': rdv(2, 1); break;
		}
		invariants(); kmc_seen(state(depth - i + 100 * heap));
	}
	if (kmc_choose(2)) { while (M.len()) rdv(2, 3); } else { rd(8000); }
	invariants(); CHECK(M.len() == 0, "left"); rdv(1, -1);
	/* usable again when drained, and everything is given back */
	wrs(5); wrs(2); invariants(); rd(3); invariants();
	if (heap) krw_buffer_destroy(B); else krw_buffer_clean(B);
	CHECK(kmc_live_allocs() == live, "%zu allocations left (%s)", kmc_live_allocs() - live, hist);
	kmc_end();
}
SCEN(krw6, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { krw(6, OPS); }
SCEN(krw_core8, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { krw(8, "0gswi1rv"); }
SCEN(krw8, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { krw(8, OPS); }
SCEN(krw_core11, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { krw(11, "0gswi1rv"); }
/* numbers of every length and both signs, across every chunk size and chunk fill */
SCEN(numbers, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); M.h = M.t = 1024; next_byte = 1; hist[0] = 0; size_t live = kmc_live_allocs();
	int cs = kmc_choose(24) + 1, off = kmc_choose(cs), wide = kmc_choose(2), dig = kmc_choose(wide ? 20 : 11), neg = kmc_choose(2), low = kmc_choose(3);
	B = krw_buffer_new(cs); wrs(off);
	int64_t v = low == 0 ? 1 : low == 1 ? 9 : 0; for (int i = 0; i < dig; i++) v = (int64_t)((uint64_t)v * 10 + (low == 1 ? 9 : 0)); if (neg) v = (int64_t)(0 - (uint64_t)v);
	if (!wide) { if (low == 2) v = neg ? (int64_t)(-2147483647 - 1) : 2147483647; v = (int)v; } else if (low == 2) v = neg ? (int64_t)(1ull << 63) : (int64_t)~(1ull << 63);
	wri(v, wide); invariants(); rd(8000); krw_buffer_destroy(B);
	ks_buffer *k = ks_buffer_new(cs); char s[40]; int n = snprintf(s, sizeof s, "%lld", (long long)v); if (wide) ks_write_int64(k, v); else ks_write_int(k, (int)v); CHECK(k->used == n && !memcmp(k->buf, s, n), "flat number"); ks_buffer_destroy(k);
	CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
/* flat buffer: write, keep the unread tail, grow, switch to reading */
static void ks(int depth) {
	kmc_explore(0); size_t live = kmc_live_allocs(); M.h = M.t = 0; next_byte = 1; nh = 0; hist[0] = 0;
	static const int SZ[] = { 1, 8, 1024 }; int sz = SZ[kmc_choose(3)];
	ks_buffer *k = ks_buffer_new(sz); char tmp[1100];
	for (int i = 0; i < depth; i++) {
		int o = kmc_choose(9); hist[nh++] = "sSgwW01ha"[o]; hist[nh] = 0; int n, l;
		if (M.len() > 3500 && o < 5) continue;
		switch (o) {
		case 0: case 1: n = o == 0 ? 3 : 1020; for (int j = 0; j < n; j++) { tmp[j] = next_byte; m_put(next_byte++); } CHECK(ks_write_str(k, tmp, n), "write"); break;
		case 2: case 3: { char *p = ks_get_write_buffer(k, &l); CHECK(p && l > 0, "room"); n = o == 2 ? 1 : l; for (int j = 0; j < n; j++) { p[j] = next_byte; m_put(next_byte++); } ks_write_success(k, n); } break;
		case 4: { WSABUF v[2]; CHECK(ks_get_write_buffers(k, v, 2) == 1 && v[0].iov_len > 0, "room"); char *p = (char *)v[0].iov_base; n = (int)v[0].iov_len > 2 ? 2 : (int)v[0].iov_len; for (int j = 0; j < n; j++) { p[j] = next_byte; m_put(next_byte++); } ks_write_success(k, n); } break;
		default: n = o == 5 ? 0 : o == 6 ? 1 : o == 7 ? M.len() / 2 : M.len(); if (n > M.len()) n = M.len(); ks_save_point(k, k->buf + n); M.h += n; CHECK(k->buf_size > k->used || n, "no room after ks_save_point (%s)", hist); break;
		}
		CHECK(k->used == M.len() && k->used <= k->buf_size, "%d bytes of %d (%s)", k->used, M.len(), hist);
		CHECK(!memcmp(k->buf, M.b + M.h, k->used), "other bytes (%s)", hist);
	}
	int step = kmc_choose(3); ks_buffer_switch_read(k); int n = 0, all = M.len();
	while (n < all) { int l = 0; char *p = ks_get_read_buffer(k, &l); CHECK(p && l == all - n && !memcmp(p, M.b + M.h + n, l), "reading back"); int g = step == 0 ? 1 : step == 1 ? 700 : l; if (g > l) g = l; n += g; CHECK(ks_read_success(k, g) == (n < all), "ks_read_success (%s)", hist); }
	ks_buffer_destroy(k); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
SCEN(flat5, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { ks(5); }
SCEN(flat6, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { ks(6); }
/* seeking: every chain / vector of up to n pieces of 0..3 bytes, every offset */
static void seek(int maxn) {
	kmc_explore(0); int n = kmc_choose(maxn) + 1, vec = kmc_choose(2), tot = 0, sz[6]; char d[64], *p = d; for (int i = 0; i < 64; i++) d[i] = i + 1;
	kbuf k[6]; kgl_iovec v[6];
	for (int i = 0; i < n; i++) { sz[i] = kmc_choose(4); tot += sz[i]; k[i].data = p; k[i].used = sz[i]; k[i].flags = 0; k[i].next = i < n - 1 ? &k[i + 1] : NULL; v[i].iov_base = p; v[i].iov_len = sz[i]; p += sz[i]; }
	for (int off = 0; off <= tot; off++) {
		int o = off;
		if (!vec) { kbuf hb = {}; hb.next = NULL; const kbuf *r = kbuf_seek(k, off, &hb); for (; r; r = r->next) for (unsigned j = 0; j < r->used; j++) { CHECK(o < tot && r->data[j] == d[o], "byte %d after a seek to %d", o, off); o++; } CHECK(o == tot, "%d of %d bytes after a seek to %d", o - off, tot - off, off);
			for (int i = 0; i < n; i++) CHECK((int)k[i].used == sz[i], "the chain was changed"); }
		else { kgl_iovec c[6]; memcpy(c, v, sizeof v); int bc = n; kgl_iovec *r = kgl_iovec_seek(c, &bc, off); CHECK(bc >= 0 && bc <= n && r == c + (n - bc), "%d pieces left", bc); for (int i = 0; i < bc; i++) for (size_t j = 0; j < r[i].iov_len; j++) { CHECK(o < tot && ((char *)r[i].iov_base)[j] == d[o], "byte %d after a seek to %d", o, off); o++; } CHECK(o == tot, "%d of %d bytes after a seek to %d", o - off, tot - off, off); }
	}
	kmc_end();
}
SCEN(seek5, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { seek(5); }
/* many chunks at once */
SCEN(crowd, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); M.h = M.t = 1024; next_byte = 1; hist[0] = 0; B = krw_buffer_new(CS); int how = kmc_choose(3), n = 9000;
	if (how == 0) while (M.len() < n) wr(-1); else if (how == 1) while (M.len() < n) { wrs(7); wr(2); } else for (int i = 0; i < 1500; i++) { krw_append(B, mk(1 + i % 11, 0)); if (i % 3 == 0) wrs(2); } invariants();
	int part = kmc_choose(2); while (part && M.len() > 4000) { rd(M.len() % 5 + 1); invariants(); } if (part) wrs(30); while (M.len() > 100) { rdv(8, -1); invariants(); } rd(8000); CHECK(!M.len(), "left"); krw_buffer_destroy(B); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
/* pieces longer than a short number holds: written, appended, inserted before a half-read piece, read, sought in; flat buffers as long */
static const int LG[] = { 255, 256, 32767, 32768, 40000, 65535, 65536, 70000, 131073, 200000 };
static inline char lg_at(int i) { return (char)(i * 7 + (i >> 8) * 13 + (i >> 16)); }
static char *lg_src, *lg_out;
static void lg_make(void) { lg_src = (char *)malloc(700000); lg_out = (char *)malloc(700000); for (int i = 0; i < 700000; i++) lg_src[i] = lg_at(i); }
static void lg_done(size_t live) { free(lg_src); free(lg_out); CHECK(kmc_live_allocs() == live, "leak"); kmc_end(); }
SCEN(large, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); lg_make(); int cs = LG[kmc_choose(10)], n = LG[kmc_choose(10)], m = LG[kmc_choose(10)], how = kmc_choose(4), in = 0, out = 0;
	krw_buffer *b = krw_buffer_new(cs); krw_write_str(b, lg_src, n); in = n; CHECK(b->total_len == n, "%d bytes after writing %d", b->total_len, n);
	kbuf *k = new_kbuf(m); k->used = m; k->next = NULL;
	if (how == 0) { memcpy(k->data, lg_src + in, m); krw_append(b, k); in += m; }
	else if (how == 1) { int g = n / 2 > cs / 2 ? cs / 2 : n / 2; CHECK(krw_read(b, lg_out, g) == g && !memcmp(lg_out, lg_src, g), "read of %d", g); int l = 0; memcpy(k->data, lg_src + 300000, m); krw_insert(b, k); CHECK(krw_read(b, lg_out, m) == m && !memcmp(lg_out, lg_src + 300000, m), "the inserted piece"); out = g; CHECK(krw_get_read_buffer(b, &l) && l == (n < cs ? n : cs) - g, "%d bytes in the first piece", l); }
	else if (how == 2) { free_kbuf(k); int l, left = m; while (left > 0) { char *p = krw_get_write_buffer(b, &l); CHECK(p && l > 0, "room"); if (l > left) l = left; memcpy(p, lg_src + in, l); krw_write_success(b, l); in += l; left -= l; } }
	else { free_kbuf(k); while (in - out > 0) { WSABUF v[3]; int c = krw_get_read_buffers(b, v, 3), t = 0; CHECK(c > 0, "nothing to read"); for (int i = 0; i < c; i++) { CHECK(!memcmp(v[i].iov_base, lg_src + out + t, v[i].iov_len), "other bytes in piece %d", i); t += (int)v[i].iov_len; } CHECK(t > 0 && t <= in - out, "%d bytes offered of %d", t, in - out); out += t; CHECK(krw_read_success(b, t) == (in > out), "krw_read_success(%d)", t); } krw_write_str(b, lg_src + in, m); in += m; }
	CHECK(b->total_len == in - out, "%d bytes, %d expected", b->total_len, in - out);
	while (in - out > 0) { int w = in - out > 150000 ? 150000 : in - out, r = krw_read(b, lg_out, w); CHECK(r == w, "krw_read of %d gave %d", w, r); CHECK(!memcmp(lg_out, lg_src + out, r), "other bytes"); out += r; CHECK(b->total_len == in - out, "%d bytes left, %d expected", b->total_len, in - out); }
	krw_buffer_destroy(b); lg_done(live);
}
SCEN(large_flat, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); lg_make(); int sz = LG[kmc_choose(10)], n = LG[kmc_choose(10)], cut = kmc_choose(5), step = LG[kmc_choose(4) * 3], in = 0, out = 0;
	ks_buffer *k = ks_buffer_new(sz); CHECK(ks_write_str(k, lg_src, n), "write"); in = n; for (int i = 0; i < 2; i++) { int l; char *p = ks_get_write_buffer(k, &l); CHECK(p && l > 0, "room"); if (l > 100000) l = 100000; memcpy(p, lg_src + in, l); ks_write_success(k, l); in += l; }
	CHECK(k->used == in && !memcmp(k->buf, lg_src, in), "%d bytes, %d expected", k->used, in);
	out = cut == 0 ? 0 : cut == 1 ? 1 : cut == 2 ? in / 2 : cut == 3 ? in - 1 : in; ks_save_point(k, k->buf + out); CHECK(k->used == in - out && k->used <= k->buf_size && !memcmp(k->buf, lg_src + out, in - out), "%d bytes kept, %d expected", k->used, in - out); CHECK(ks_write_str(k, lg_src + in, n), "write"); in += n;
	ks_buffer_switch_read(k); while (out < in) { int l = 0; char *p = ks_get_read_buffer(k, &l); CHECK(p && l == in - out && !memcmp(p, lg_src + out, l), "%d bytes to read, %d expected", l, in - out); int g = step > l ? l : step; out += g; CHECK(ks_read_success(k, g) == (out < in), "ks_read_success"); }
	ks_buffer_destroy(k); lg_done(live);
}
SCEN(large_seek, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); lg_make(); int sz[3], tot = 0; kbuf k[3]; kgl_iovec v[3]; for (int i = 0; i < 3; i++) { sz[i] = LG[kmc_choose(10)]; k[i].data = lg_src + tot; k[i].used = sz[i]; k[i].flags = 0; k[i].next = i < 2 ? &k[i + 1] : NULL; v[i].iov_base = lg_src + tot; v[i].iov_len = sz[i]; tot += sz[i]; }
	for (int i = 0, at = 0; i < 3; at += sz[i++]) for (int d = -1; d < sz[i]; d += d < 3 ? 1 : sz[i] - d > 40000 ? 32766 : sz[i] - d > 2 ? sz[i] - d - 2 : 1) {
		int off = at + d, left = tot - off, o = off; if (off < 0) continue; kbuf hb = {}; for (const kbuf *r = kbuf_seek(k, off, &hb); r; r = r->next) { CHECK(r->data == lg_src + o, "seek to %d went to %d", o, (int)(r->data - lg_src)); o += (int)r->used; } CHECK(o == tot, "%d of %d bytes after a seek to %d", o - off, left, off);
		kgl_iovec c[3]; memcpy(c, v, sizeof v); int bc = 3; o = off; for (kgl_iovec *r = kgl_iovec_seek(c, &bc, off); bc-- > 0; r++) { CHECK(r->iov_base == lg_src + o, "vector seek to %d went to %d", o, (int)((char *)r->iov_base - lg_src)); o += (int)r->iov_len; } CHECK(o == tot, "%d of %d bytes after a vector seek to %d", o - off, left, off);
	}
	lg_done(live);
}
