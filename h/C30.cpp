/* plain files: opened as asked for or refused; positions, sizes, times and reads tell the truth */
#include "common.h"
#include "kfile.h"
#include <fcntl.h>
static const char *PATH = "/v/f"; static unsigned char m[256]; static int mlen; static int64_t pos, mt; static char hist[64]; static int hn;
static int64_t now_s(void) { return time(NULL); }
static int can_r(int mode) { return mode == fileRead || mode == fileReadWrite || mode == fileWriteRead; }
static int can_w(int mode) { return mode != fileRead; }
static FILE_HANDLE open_mode(const char *p, int mode, int flag, bool link) {
	bool had = mlen >= 0, refuse = (link && (flag & KFILE_NOFOLLOW)) || ((mode == fileRead || mode == fileReadWrite) && !had); FILE_HANDLE h = kfopen(p, (fileModel)mode, flag); CHECK(kflike(h) == !refuse, "open in mode %d (there before: %d, link %d, flags %x) %s", mode, had, link, flag, kflike(h) ? "worked" : "failed"); if (refuse) return h;
	if (mode == fileWrite || mode == fileWriteRead || !had) { mlen = 0; mt = now_s(); } pos = 0; int fl = vk_file_flags(h); CHECK(fl & O_CLOEXEC, "the descriptor is inherited"); CHECK(!!(flag & KFILE_DSYNC) == !!(fl & O_DSYNC), "synchronous writing"); CHECK(!!(flag & KFILE_NOATIME) == !!(fl & O_NOATIME), "access time"); CHECK(!!(fl & O_APPEND) == (mode == fileAppend), "append"); struct stat sb; if (!had) CHECK(fstat(h, &sb) == 0 && (sb.st_mode & 07777) == 0644, "a file made with permissions %o", sb.st_mode & 07777); return h;
}
static void same(void) { static unsigned char b[256]; long n = vk_file_get(PATH, b, sizeof b); CHECK(n == mlen && (n < 0 || !memcmp(b, m, n)), "the file has %ld bytes, %d expected, or others (%s)", n, mlen, hist); }
static void rd(FILE_HANDLE h, int mode, int n, bool all) {
	unsigned char b[32]; memset(b, 0xEE, sizeof b); int e = mlen - pos; if (e < 0) e = 0; if (e > n) e = n;
	if (all) { bool r = kfread_all(h, (char *)b, n); if (!can_r(mode)) { CHECK(n == 0 ? r : !r, "read_all from a write-only file"); return; } CHECK(r == (e == n), "read_all of %d with %d there: %d (%s)", n, e, r, hist); }
	else { int r = kfread(h, (char *)b, n); if (!can_r(mode)) { CHECK(r < 0, "read from a write-only file"); return; } CHECK(r == e, "read of %d gave %d, %d expected (%s)", n, r, e, hist); }
	for (int i = 0; i < 32; i++) CHECK(b[i] == (i < e ? m[pos + i] : 0xEE), "byte %d of a read (%s)", i, hist); pos += e;
}
static void wr(FILE_HANDLE h, int mode, int n) {
	unsigned char b[8]; for (int i = 0; i < n; i++) b[i] = 0x80 + hn * 8 + i; int r = kfwrite(h, (char *)b, n); if (!can_w(mode)) { CHECK(r < 0, "write to a read-only file"); return; } CHECK(r == n, "write of %d gave %d", n, r);
	if (mode == fileAppend) pos = mlen; if (pos > mlen) memset(m + mlen, 0, pos - mlen); CHECK(pos + n < 64, "harness"); memcpy(m + pos, b, n); pos += n; if (pos > mlen) mlen = pos; mt = now_s();
}
static void sk(FILE_HANDLE h, seekPosion w, int64_t o) { int64_t to = (w == seekBegin ? 0 : w == seekCur ? pos : mlen) + o; bool r = kfseek(h, o, w); CHECK(r == (to >= 0), "seek to %d: %d (%s)", (int)to, r, hist); if (r) pos = to; }
static void history(int depth) {
	kmc_explore(0); int mode = kmc_choose(6), how = kmc_choose(3), link = kmc_choose(2), flag = kmc_choose(4); flag = (flag & 1 ? KFILE_NOFOLLOW : 0) | (flag & 2 ? KFILE_DSYNC : 0) | (mode & 1 ? KFILE_NOATIME : 0); int fds = vk_open_fds(); mlen = -1;
	if (how) { mlen = how == 1 ? 0 : 6; for (int i = 0; i < mlen; i++) m[i] = 10 + i; vk_file_set(PATH, m, mlen); vk_file_mtime(PATH, mt = 12345); } if (link) vk_mknode("/v/l", PATH, 99); CHECK(kfile_last_modified("/v/l") == 0 && kfile_last_modified("/v/none") == 0, "a modification time of no file"); CHECK(kfile_last_modified(PATH) == (how ? mt : 0), "modification time before opening");
	FILE_HANDLE h = open_mode(link ? "/v/l" : PATH, mode, flag, link);
	for (int i = 0; i < depth && kflike(h); i++) {
		int o = kmc_choose(12); hist[hn++] = "rRaAwWbceutx"[o]; hist[hn] = 0;
		switch (o) { case 0: rd(h, mode, 1, 0); break; case 1: rd(h, mode, 4, 0); break; case 2: rd(h, mode, 3, 1); break; case 3: rd(h, mode, 0, 1); break; case 4: wr(h, mode, 1); break; case 5: wr(h, mode, 5); break; case 6: sk(h, seekBegin, 2); break; case 7: sk(h, seekCur, -3); break; case 8: sk(h, seekEnd, kmc_choose(3) - 1); break;
		case 9: CHECK(kfutime(h, 4000 + i), "setting the time"); mt = 4000 + i; break; case 10: kmc_set_clock_us((now_s() + 100) * 1000000); break; case 11: kfclose(h); mode = kmc_choose(6); h = open_mode(PATH, mode, 0, 0); break; }
		if (kflike(h)) { CHECK(kfsize(h) == mlen, "size %d, %d expected (%s)", (int)kfsize(h), mlen, hist); CHECK(kftime(h) == mt, "time %ld, %ld expected (%s)", (long)kftime(h), (long)mt, hist); CHECK(kfile_last_modified(PATH) == mt, "time by name (%s)", hist); same(); struct { int a, b, c; int64_t d, e, f; unsigned char m[64]; } x; memset(&x, 0, sizeof x); x.a = mode; x.b = mlen; x.c = depth - i; x.d = pos; x.e = mt; x.f = now_s(); if (mlen > 0) memcpy(x.m, m, mlen); kmc_seen(kmc_hash(&x, sizeof x, 7)); }
	}
	if (kflike(h)) kfclose(h); CHECK(vk_open_fds() == fds, "a descriptor is left"); kmc_end();
}
SCEN(plain6, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { history(6); }
SCEN(plain8, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { history(8); }
/* far away positions */
SCEN(far, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	static const int64_t P[] = { 0x7fffffffll, 0x80000000ll, 0x80000001ll, 0xfffffff0ll, 0x100000000ll, 0x123456789ll, 0x7ffffffffffll }; kmc_explore(0); int64_t p = P[kmc_choose(7)]; vk_file_set_at(PATH, p, "abcdef", 6); FILE_HANDLE h = kfopen(PATH, fileReadWrite, 0); CHECK(kflike(h), "open"); CHECK(kfsize(h) == p + 6, "size %lld", (long long)kfsize(h)); char b[8];
	int way = kmc_choose(4); int k = kmc_choose(6); bool ok = way == 0 ? kfseek(h, p + k, seekBegin) : way == 1 ? kfseek(h, k - 6, seekEnd) : way == 2 ? kfseek(h, p + 6, seekBegin) && kfseek(h, k - 6, seekCur) : kfseek(h, p - 100, seekBegin) && kfseek(h, 100 + k, seekCur); CHECK(ok, "seek"); CHECK(!kfseek(h, -p - 7, seekEnd), "a seek before the beginning"); CHECK(kfread_all(h, b, 6 - k) && !memcmp(b, "abcdef" + k, 6 - k), "read at %lld", (long long)p + k); CHECK(!kfread_all(h, b, 1), "read behind the end"); kfclose(h); kmc_end();
}
/* times before 1970 and after 2038, and lengths beyond what 15, 16 and 17 bits hold */
SCEN(times, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	static const int64_t T[] = { -7, 1, 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000005ll, 0x200000000ll }; kmc_explore(0); vk_file_set(PATH, "abcdef", 6); int64_t a = T[kmc_choose(7)], b = T[kmc_choose(7)]; int mode = kmc_choose(2) ? fileRead : fileModify; vk_file_mtime(PATH, a); CHECK(kfile_last_modified(PATH) == a, "time by name %lld, %lld expected", (long long)kfile_last_modified(PATH), (long long)a);
	FILE_HANDLE h = kfopen(PATH, (fileModel)mode, 0); CHECK(kflike(h), "open"); CHECK(kftime(h) == a, "time %lld, %lld expected", (long long)kftime(h), (long long)a); CHECK(kfutime(h, b), "setting the time"); CHECK(kftime(h) == b && kfile_last_modified(PATH) == b, "time %lld / %lld after setting it to %lld", (long long)kftime(h), (long long)kfile_last_modified(PATH), (long long)b); CHECK(kfsize(h) == 6, "size"); kfclose(h); kmc_end();
}
SCEN(lengths, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	static const int L[] = { 0, 1, 255, 256, 4097, 32767, 32768, 65535, 65536, 65537, 200001 }; kmc_explore(0); static unsigned char d[210000], b[210000]; int have = L[kmc_choose(11)], ask = L[kmc_choose(11)], at = kmc_choose(2) ? have / 3 : 0; for (int i = 0; i < have; i++) d[i] = (unsigned char)(i * 31 + (i >> 8) * 7);
	FILE_HANDLE h = kfopen(PATH, fileWriteRead, 0); CHECK(kflike(h), "open"); int r = kfwrite(h, (char *)d, have); CHECK(r == have, "write of %d returned %d", have, r); CHECK(kfsize(h) == have, "size %lld, %d written", (long long)kfsize(h), have); CHECK(vk_file_get(PATH, b, sizeof b) == have && !memcmp(b, d, have), "the file has other bytes"); CHECK(kfseek(h, at, seekBegin), "seek");
	memset(b, 0xEE, sizeof b); int left = have - at, e = ask < left ? ask : left; bool ok = kfread_all(h, (char *)b, ask); CHECK(ok == (ask <= left), "read of %d with %d left: %d", ask, left, ok); CHECK(!memcmp(b, d + at, e), "wrong bytes"); for (int i = e; i < (int)sizeof b; i++) CHECK(b[i] == 0xEE, "byte %d behind the %d read was touched", i, e); kfclose(h); kmc_end();
}
/* what is no file: directories and links have no modification time, a directory is not written to */
SCEN(others, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { kmc_explore(0); int mode = kmc_choose(6), what = kmc_choose(3); mlen = 4; vk_file_set(PATH, "abcd", 4); vk_mknode("/v/d", NULL, 55); vk_mknode("/v/ld", what == 2 ? "/v/none" : "/v/d", 66); const char *p = what ? "/v/ld" : "/v/d"; CHECK(kfile_last_modified(p) == 0, "modification time of a directory or link"); FILE_HANDLE h = kfopen(p, (fileModel)mode, KFILE_NOFOLLOW); CHECK(kflike(h) == (what == 0 && mode == fileRead), "mode %d of %d", mode, what); if (kflike(h)) { CHECK(kftime(h) == 55, "time"); kfclose(h); } kmc_end(); }
/* the bytes arrive in pieces, from another thread; the sender may stop early; a read may be interrupted for good */
static int W; static unsigned char pb(int i) { return i * 5 + 1; } static int total;
static void *feeder(void *) { unsigned char b[64]; for (int i = 0; i < total; i++) b[i] = pb(i); for (int at = 0; at < total;) { int k = 1 + kmc_deviate(3); if (k > total - at) k = total - at; int r = write(W, b + at, k); CHECK(r == k, "feed"); at += k; } close(W); rt_done(); return NULL; }
static void *eater(void *a) { int fd = (int)(long)a, at = 0; for (;;) { int n = 5; unsigned char b[16]; memset(b, 0xEE, 16); bool r = kfread_all(fd, (char *)b, n); int e = total - at; if (e > n) e = n; CHECK(r == (e == n), "read_all of %d with %d to come: %d", n, e, r); for (int i = 0; i < 16; i++) CHECK(b[i] == (i < e ? pb(at + i) : 0xEE), "byte %d at %d", i, at); at += e; if (!r) break; } CHECK(at == total, "%d of %d bytes", at, total); close(fd); rt_done(); return NULL; }
SCEN(pieces, B({0,0},{1,1},{2,2}), B({2,3},{3,3}), 5000, 0, KMC_F_SHORTIO) { kmc_explore(0); total = kmc_choose(13); vk_set_sockbuf(4); int p[2]; vk_socketpair(p, 0); W = p[1]; kmc_explore(1); pthread_t t; pthread_create(&t, NULL, feeder, NULL); pthread_detach(t); pthread_create(&t, NULL, eater, (void *)(long)p[0]); pthread_detach(t); rt_wait(2); kmc_end(); }
static int fail_at, nread; static int rfault(const char *op, int) { return !strcmp(op, "read") && ++nread == fail_at ? EIO : 0; }
SCEN(failing, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { kmc_explore(0); vk_set_sockbuf(3); int p[2]; vk_socketpair(p, 0); CHECK(write(p[1], "abc", 3) == 3, "w"); fail_at = 1 + kmc_choose(2); vk_set_fault(rfault); char b[4]; if (fail_at == 2) { CHECK(kfread_all(p[0], b, 3), "read"); } CHECK(!kfread_all(p[0], b, 2), "a failed read reported as done"); CHECK(nread == fail_at, "%d reads", nread); close(p[0]); close(p[1]); kmc_end(); }
