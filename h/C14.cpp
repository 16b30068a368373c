/* asynchronous files: every read and write ends once with its true result, moves exactly the bytes asked for at the file's position, and
 * moves the position by the result; whatever order the device completes in, whatever it fails; safe_* calls work from other event loops */
#include "common.h"
#include "kasync_file.h"
static const char *PATH = "/v/f"; static unsigned char pat(int i) { return (unsigned char)(i * 7 + 3); }
/* model of the file */
static unsigned char m[4096]; static int mlen; static int64_t pos; static char hist[64]; static int hn; GHOST static int nfin;
static void init_file(int n) { for (int i = 0; i < n; i++) m[i] = pat(i); mlen = n; vk_file_set(PATH, m, n); }
static void same(const char *what) { static unsigned char b[4096]; long n = vk_file_get(PATH, b, sizeof b); CHECK(n == mlen, "%s: file has %ld bytes, %d expected (%s)", what, n, mlen, hist); CHECK(!memcmp(b, m, n), "%s: file content differs (%s)", what, hist); }
static int can_r(int mode) { return mode == fileRead || mode == fileReadWrite || mode == fileWriteRead; }
static int can_w(int mode) { return mode != fileRead; }
static kfiber_file *open_mode(int mode) {
	bool had = mlen >= 0; kfiber_file *f = kfiber_file_open(PATH, (fileModel)mode, 0);
	if ((mode == fileRead || mode == fileReadWrite) && !had) { CHECK(f == NULL, "a file that does not exist was opened"); return NULL; }
	CHECK(f != NULL, "open failed (mode %d)", mode); if (mode == fileWrite || mode == fileWriteRead || !had) mlen = 0; pos = 0; CHECK(kfiber_file_tell(f) == 0, "position after open"); CHECK(kfiber_file_size(f) == mlen, "size after open is %d", (int)kfiber_file_size(f)); return f;
}
static int wseq; static bool faulty, safely; /* safely: by the calls that may be made from other event loops */
static void do_read(kfiber_file *f, int n, int mode, int full) {
	unsigned char b[64]; memset(b, 0xEE, sizeof b); int e = mlen - pos; if (e > n) e = n; if (e < 0) e = 0; int r, len = n; if (full) { bool ok = kfiber_file_read_full(f, (char *)b, &len); r = n - len; CHECK(ok == (len == 0), "read_full result"); if (!can_r(mode)) { CHECK(r == 0, "read"); r = -1; } } else if (safely) r = kfiber_file_safe_read(f, (char *)b, n); else r = kfiber_file_read(f, (char *)b, n);
	if (!can_r(mode)) { CHECK(r < 0, "a read from a write-only file returned %d", r); e = 0; r = 0; }
	else if (!faulty) CHECK(r == e, "read of %d at %d of %d returned %d (%s)", n, (int)pos, mlen, r, hist);
	else CHECK(r <= e, "read of %d at %d of %d returned %d", n, (int)pos, mlen, r);
	if (r < 0) r = 0; for (int i = 0; i < r; i++) CHECK(b[i] == m[pos + i], "read wrong data (%s)", hist); for (int i = r; i < n && !faulty; i++) CHECK(b[i] == 0xEE, "read past its result"); CHECK(b[n] == 0xEE, "read past its length"); pos += r; CHECK(kfiber_file_tell(f) == pos, "position %d after a read, %d expected (%s)", (int)kfiber_file_tell(f), (int)pos, hist);
}
static void do_write(kfiber_file *f, int n, int mode, int full) {
	unsigned char b[64]; for (int i = 0; i < n; i++) b[i] = (unsigned char)(0x80 + wseq++); int r, len = n; if (full) { bool ok = safely ? kfiber_file_safe_write_full(f, (char *)b, &len) : kfiber_file_write_full(f, (char *)b, &len); r = n - len; CHECK(ok == (len == 0), "write_full result"); } else r = kfiber_file_write(f, (char *)b, n);
	if (!can_w(mode)) { CHECK(r <= 0, "a write to a read-only file returned %d", r); return; }
	if (!faulty) CHECK(r == n, "write of %d returned %d (%s)", n, r, hist); else CHECK(r <= n, "write returned %d", r); if (r < 0) r = 0;
	int64_t at = mode == fileAppend ? mlen : pos; if (r > 0) { if (at > mlen) memset(m + mlen, 0, at - mlen); memcpy(m + at, b, r); if (at + r > mlen) mlen = at + r; } pos += r; CHECK(kfiber_file_tell(f) == pos, "position %d after a write, %d expected (%s)", (int)kfiber_file_tell(f), (int)pos, hist);
}
static int hist_fiber(void *a, int depth) {
	int mode = kmc_choose(6), exists = kmc_choose(2); if (exists) init_file(5); else mlen = -1; kfiber_file *f = open_mode(mode);
	for (int i = 0; i < depth && f; i++) {
		int o = kmc_choose(10); hist[hn++] = "rRwWsSfFzo"[o]; hist[hn] = 0;
		switch (o) {
		case 0: do_read(f, 1, mode, 0); break;
		case 1: do_read(f, 4, mode, 0); break;
		case 2: do_write(f, 1, mode, 0); break;
		case 3: do_write(f, 3, mode, 0); break;
		case 4: CHECK(kfiber_file_seek(f, seekBegin, 2) == 0, "seek"); pos = 2; break;
		case 5: CHECK(kfiber_file_seek(f, seekCur, 3) == 0, "seek"); pos += 3; break;
		case 6: do_read(f, 3, mode, 1); break;
		case 7: do_write(f, 2, mode, 1); break;
		case 8: CHECK(kfiber_file_size(f) == mlen, "size %d, %d expected (%s)", (int)kfiber_file_size(f), mlen, hist); CHECK(kfiber_file_seek(f, seekEnd, 0) == -1, "seekEnd"); break;
		case 9: kfiber_file_close(f); mode = kmc_choose(6); f = open_mode(mode); break;
		}
		CHECK(!f || kfiber_file_tell(f) == pos, "position (%s)", hist);
		if (mlen >= 0) same("after an operation");
	}
	if (f) kfiber_file_close(f); rt_done(); return 0;
}
static void one(kfiber_start_func fn, int arg) { rt_start(1); rt_mark(); kfiber_create2(SEL(0), fn, NULL, arg, 0, NULL); rt_wait(1); rt_check_released("file"); kmc_outcome("%d %d", mlen, (int)pos); kmc_end(); }
SCEN(history4, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { one(hist_fiber, 4); }
SCEN(history5, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { one(hist_fiber, 5); }
/* the device fails, cuts short or refuses any of the operations */
static int fault_fiber(void *, int n) { init_file(8); kfiber_file *f = open_mode(fileReadWrite); faulty = true; for (int i = 0; i < n; i++) { int o = kmc_choose(5); hist[hn++] = "rwfFb"[o]; hist[hn] = 0; switch (o) { case 0: do_read(f, 4, fileReadWrite, 0); break; case 1: do_write(f, 4, fileReadWrite, 0); break; case 2: do_read(f, 4, fileReadWrite, 1); break; case 3: do_write(f, 4, fileReadWrite, 1); break; case 4: kfiber_file_seek(f, seekBegin, 1); pos = 1; break; } same("after a failure"); } kfiber_file_close(f); rt_done(); return 0; }
SCEN(faults, B({0,0},{0,1},{0,2},{0,3}), B({0,4},{0,5}), 9000, 0, KMC_F_SEQ) { vk_aio_faults(1); one(fault_fiber, 4); }
/* several fibers with files of their own and one shared; the device completes in any order */
struct job { int id, loop, steps; kfiber_file *f; int64_t p; char path[16]; }; static job J[4]; GHOST static unsigned char shared_own[64];
static int job_fiber(void *a, int shared) {
	job *j = (job *)a; kfiber_file *f; unsigned char b[16]; f = kfiber_file_open(shared ? PATH : j->path, fileReadWrite, 0); CHECK(f, "open"); int base = shared ? (j->id - 1) * 16 : 0; kfiber_file_seek(f, seekBegin, base);
	for (int i = 0; i < j->steps; i++) { memset(b, j->id * 16 + i, 4); CHECK(kfiber_file_write(f, (char *)b, 4) == 4, "write"); }
	kfiber_file_seek(f, seekBegin, base); for (int i = 0; i < j->steps; i++) { memset(b, 0xEE, 16); CHECK(kfiber_file_read(f, (char *)b, 4) == 4, "read"); for (int k = 0; k < 4; k++) CHECK(b[k] == j->id * 16 + i, "fiber %d read %02x, wrote %02x", j->id, b[k], j->id * 16 + i); CHECK(b[4] == 0xEE, "read too much"); CHECK(sel_index() == j->loop, "resumed on loop %d", sel_index()); }
	CHECK(kfiber_file_tell(f) == base + 4 * j->steps, "position"); kfiber_file_close(f); nfin++; rt_done(); return 0;
}
static void jobs(int n, int loops, int shared, int steps) {
	rt_start(loops); rt_mark(); kmc_explore(0); unsigned char z[64]; memset(z, 0, 64); vk_file_set(PATH, z, 64); for (int i = 0; i < n; i++) { job *j = &J[i]; j->id = i + 1; j->loop = i % loops; j->steps = steps; sprintf(j->path, "/v/j%d", i); vk_file_set(j->path, z, 16); } kmc_explore(1);
	for (int i = 0; i < n; i++) kfiber_create2(SEL(J[i].loop), job_fiber, &J[i], shared, 0, NULL); rt_wait(n); rt_check_released("files"); kmc_end();
}
SCEN(order_own, B({0,0},{1,0}), B({2,0}), 9000, 1, 0) { jobs(3, 1, 0, 1); }
SCEN(order_shared, B({0,0},{1,0}), B({2,0}), 9000, 1, 0) { jobs(2, 1, 1, 2); }
SCEN(two_loops, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 1, 0) { jobs(2, 2, 0, 2); }
SCEN(two_loops_shared, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 1, 0) { jobs(3, 2, 1, 1); }
SCEN(many, B({0,0}), B({1,0}), 9000, 1, KMC_F_SEQ) { jobs(4, 2, 1, 3); }
/* callbacks: each fires once with its arguments on the loop of the file; the next operation may be started from it */
static kasync_file AF; static char abuf[8]; GHOST static int acb; static int aleft;
static kev_result a_done(KOPAQUE data, void *arg, int got) {
	CHECK(data == (KOPAQUE)&AF && arg == (void *)(long)(100 + acb), "callback arguments"); CHECK(sel_index() == 0, "callback on loop %d", sel_index()); acb++;
	if (acb & 1) { CHECK(got == 4, "write returned %d", got); CHECK(kgl_selector_module.aio_read(&AF, a_done, abuf, 8, (void *)(long)(100 + acb)), "submit"); return kev_ok; }
	CHECK(got == (acb > aleft ? 8 : 8), "read returned %d", got); CHECK(!memcmp(abuf, "abcdabcd", 4), "data"); if (acb >= aleft) { kasync_file_close(&AF); rt_done(); return kev_ok; } CHECK(kgl_selector_module.aio_write(&AF, a_done, "abcd", 4, (void *)(long)(100 + acb)), "submit"); return kev_ok;
}
static kev_result a_start(KOPAQUE, void *, int) { FILE_HANDLE fp = kfopen(PATH, fileReadWrite, KFILE_ASYNC); CHECK(kflike(fp), "open"); memset(&AF, 0, sizeof AF); kgl_selector_module.aio_open(kgl_get_tls_selector(), &AF, fp); kasync_file_bind_opaque(&AF, &AF); CHECK(kgl_selector_module.aio_write(&AF, a_done, "abcd", 4, (void *)(long)100), "submit"); return kev_ok; }
SCEN(callbacks, B({0,0},{2,0},{3,0}), B({4,0}), 9000, 0, 0) { rt_start(2); rt_mark(); vk_file_set(PATH, "12345678", 8); aleft = 4; kgl_selector_module.next(SEL(0), NULL, a_start, NULL, 0); rt_wait(1); CHECK(acb == 4, "callbacks"); rt_check_released("file"); kmc_end(); }
/* safe_*: the file belongs to another event loop */
static kfiber_file *SF; GHOST static int ready_, sdone; static int owner(void *, int) { SF = kfiber_file_open(PATH, fileReadWrite, 0); CHECK(SF, "open"); ready_ = 1; rt_done(); return 0; }
static int owner_close(void *, int) { kfiber_file_close(SF); rt_done(); return 0; }
static int user(void *a, int k) {
	int me = sel_index(), id = (int)(long)a; char b[8]; int len = 4; memset(b, 'A' + id, 4);
	if (k & 1) { CHECK(kfiber_file_safe_write_full(SF, b, &len) && len == 0, "safe_write_full left %d", len); }
	else { memset(b, 0xEE, 8); int r = kfiber_file_safe_read(SF, b, 4); CHECK(r == 4 || r == 0 || ((k & 4) && r == 2), "safe_read returned %d", r); CHECK((unsigned char)b[r] == 0xEE, "read too much"); for (int i = 0; i < r; i++) CHECK(b[i] == b[0] || !(k & 2), "torn data"); if (!(k & 2) && r == 4) CHECK(!memcmp(b, "0123", 4) || !memcmp(b, "4567", 4), "wrong data"); }
	CHECK(sel_index() == me, "resumed on another loop"); sdone++; rt_done(); return 0;
}
static void safe(int l1, int k1, int l2, int k2, int size) {
	rt_start(3); rt_mark(); vk_file_set(PATH, "0123456789", size); kmc_explore(0); kfiber_create2(SEL(0), owner, NULL, 0, 0, NULL); rt_wait(1); kmc_explore(1); kfiber_create2(SEL(l1), user, (void *)0L, k1, 0, NULL); if (k2 >= 0) kfiber_create2(SEL(l2), user, (void *)1L, k2, 0, NULL); rt_wait(k2 >= 0 ? 3 : 2);
	int wr = (k1 & 1) + (k2 >= 0 && (k2 & 1)), rd = (k2 >= 0 ? 2 : 1) - wr; if (k2 < 0) CHECK(kfiber_file_tell(SF) == 4, "position %d", (int)kfiber_file_tell(SF)); char b[16]; long n = vk_file_get(PATH, b, 16); if (wr == 1 && rd == 0) CHECK(n == size && b[0] == 'A' && b[3] == 'A' && b[4] == '4', "content"); if (!wr) CHECK(!memcmp(b, "0123456789", size), "a read changed the file");
	kfiber_create2(SEL(0), owner_close, NULL, 0, 0, NULL); rt_wait(k2 >= 0 ? 4 : 3); rt_check_released("file"); kmc_end();
}
SCEN(safe_read, B({0,0},{2,0},{3,0}), B({4,0}), 9000, 1, 0) { safe(1, 0, 0, -1, 10); }
SCEN(safe_write, B({0,0},{2,0},{3,0}), B({4,0}), 9000, 1, 0) { safe(1, 1, 0, -1, 10); }
SCEN(safe_same_loop, B({0,0},{2,0}), B({3,0}), 9000, 1, 0) { safe(0, kmc_choose(2), 0, -1, 10); }
/* histories of such calls, of any length, from an event loop of their own, while the owner's reads and seeks go on in between */
static int sh_mode; static int sh_own(void *, int k) { safely = false; if (k == 0) { SF = open_mode(sh_mode); ready_ = 1; } else if (k == 1) { CHECK(kfiber_file_seek(SF, seekBegin, 1) == 0, "seek"); pos = 1; } else if (k == 2) do_read(SF, 2, sh_mode, 0); else kfiber_file_close(SF); safely = true; return 0; }
static void sh_owner(int k) { kfiber *f; CHECK(kfiber_create2(SEL(0), sh_own, NULL, k, 0, &f) == 0, "create"); kfiber_join(f, NULL); }
static int sh_fiber(void *, int depth) {
	static const int modes[] = { fileReadWrite, fileRead, fileWrite }, lens[] = { 1, 2, 3, 5 }; int me = sel_index(); init_file(7); sh_mode = modes[kmc_choose(3)]; sh_owner(0);
	for (int i = 0; i < depth; i++) { int o = kmc_choose(10); hist[hn++] = "rrrrWWWWso"[o]; hist[hn] = 0; if (o < 4) do_read(SF, lens[o], sh_mode, 0); else if (o < 8) do_write(SF, lens[o - 4], sh_mode, 1); else sh_owner(o - 7); CHECK(sel_index() == me, "resumed on another loop"); same("safe calls"); }
	sh_owner(3); rt_done(); return 0;
}
static void safe_hist(int depth) { rt_start(2); rt_mark(); kfiber_create2(SEL(1), sh_fiber, NULL, depth, 0, NULL); rt_wait(1); rt_check_released("file"); kmc_outcome("%d %d", mlen, (int)pos); kmc_end(); }
SCEN(safe_history, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { safe_hist(4); }
SCEN(safe_history5, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { safe_hist(5); }
SCEN(safe_faults, B({0,0},{0,1},{0,2}), B({0,3},{0,4}), 9000, 0, KMC_F_SEQ) { vk_aio_faults(1); faulty = true; safe_hist(3); }
/* direct I/O: any position, length and size of the file; buffers aligned; the data starts at the adjusted address */
static int direct_fiber(void *, int) {
	static const int sizes[] = { 0, 1, 100, 511, 512, 513, 1000, 1024, 1500, 2048 }, offs[] = { 0, 1, 100, 511, 512, 513, 700, 1023, 1024, 1300, 1499, 1500, 1501, 2047, 2048, 2500, 4000 }, lens[] = { 1, 100, 511, 512, 513, 1024, 1500 };
	int size = sizes[kmc_choose(10)], off = offs[kmc_choose(17)], len = lens[kmc_choose(7)], wr = kmc_choose(2); init_file(size); kfiber_file *f = kfiber_file_open(PATH, fileReadWrite, 0); CHECK(f, "open"); CHECK(kasync_file_direct(f, true), "direct"); char *buf = (char *)aio_alloc_buffer(len); CHECK(((uintptr_t)buf & (kgl_aio_align_size - 1)) == 0, "alignment of the buffer");
	snprintf(hist, sizeof hist, "size %d offset %d length %d", size, off, len);
	if (wr) { if (off & 511) { kmc_end(); } kfiber_file_seek(f, seekBegin, off); for (int i = 0; i < len; i++) buf[i] = pat(i + 77); int r = kfiber_file_write(f, buf, len); if (len & 511) CHECK(r < 0, "unaligned direct write returned %d (%s)", r, hist); else { CHECK(r == len, "direct write returned %d (%s)", r, hist); if (off > mlen) memset(m + mlen, 0, off - mlen); for (int i = 0; i < len; i++) m[off + i] = pat(i + 77); if (off + len > mlen) mlen = off + len; } CHECK(kfiber_file_tell(f) == off + (r > 0 ? r : 0), "position (%s)", hist); }
	else { int at = off; kfiber_file_seek(f, seekBegin, off); for (int k = 0; k < 40; k++) { memset(buf, 0xEE, len); int r = kfiber_file_read(f, buf, len), left = mlen - at; if (left <= 0) { CHECK(r == 0, "a direct read at the end of the file returned %d (%s)", r, hist); break; } CHECK(r > 0 && r <= len && r <= left, "direct read at %d returned %d (%s)", at, r, hist); const char *d = kfiber_file_adjust(f, buf); for (int i = 0; i < r; i++) CHECK((unsigned char)d[i] == m[at + i], "direct read gave wrong data (%s)", hist); at += r; CHECK(kfiber_file_tell(f) == at, "position %d after a direct read, %d expected (%s)", (int)kfiber_file_tell(f), at, hist); } CHECK(at >= mlen || at >= off + 40 * (len < 100 ? 1 : len), "direct reads did not reach the end"); }
	same("direct"); if (kmc_choose(2)) { CHECK(kasync_file_direct(f, false), "direct off"); faulty = false; kfiber_file_seek(f, seekBegin, 3); pos = 3; do_read(f, 5, fileReadWrite, 0); } aio_free_buffer(buf); kfiber_file_close(f); rt_done(); return 0;
}
SCEN(direct, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { one(direct_fiber, 0); }
/* a device error during direct I/O is an error */
static int direct_fault(void *, int n) { init_file(1500); kfiber_file *f = kfiber_file_open(PATH, fileReadWrite, 0); CHECK(kasync_file_direct(f, true), "direct"); char *buf = (char *)aio_alloc_buffer(1024); int off = kmc_choose(3) * 300, wr = off % 512 == 0 ? kmc_choose(2) : 0; kfiber_file_seek(f, seekBegin, off); if (wr) memcpy(buf, m, 512); for (int i = 0; i < n; i++) { kfiber_file_seek(f, seekBegin, off); int r = wr ? kfiber_file_write(f, buf, 512) : kfiber_file_read(f, buf, 512); CHECK(r <= 512, "result %d", r); const char *d = kfiber_file_adjust(f, buf); if (!wr) for (int k = 0; k < r; k++) CHECK((unsigned char)d[k] == m[off + k], "wrong data"); CHECK(kfiber_file_tell(f) == off + (r > 0 ? r : 0), "position"); } same("direct fault"); aio_free_buffer(buf); kfiber_file_close(f); rt_done(); return 0; }
SCEN(direct_faults, B({0,0},{0,1},{0,2}), B({0,3}), 9000, 0, KMC_F_SEQ) { vk_aio_faults(1); one(direct_fault, 3); }
/* plain (blocking) file helpers: every mode of opening, flags, seeking, reading it all */
SCEN(plain, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	rt_start(1); rt_mark(); int mode = kmc_choose(6), exists = kmc_choose(2), sk = kmc_choose(4), rd = kmc_choose(2), n = 1 + kmc_choose(7); if (exists) init_file(6); else mlen = -1; FILE_HANDLE h = kfopen(PATH, (fileModel)mode, 0); if ((mode == fileRead || mode == fileReadWrite) && !exists) { CHECK(!kflike(h), "a file that does not exist was opened"); kmc_end(); } CHECK(kflike(h), "open"); if (mode == fileWrite || mode == fileWriteRead || !exists) mlen = 0;
	CHECK(kfsize(h) == mlen, "size"); int64_t p = 0; switch (sk) { case 1: CHECK(kfseek(h, 2, seekBegin), "seek"); p = 2; break; case 2: CHECK(kfseek(h, 1, seekCur) && kfseek(h, 2, seekCur), "seek"); p = 3; break; case 3: CHECK(kfseek(h, 0, seekEnd), "seek"); p = mlen; if (mlen > 0) { CHECK(kfseek(h, -1, seekEnd), "seek"); p = mlen - 1; } break; } CHECK(!kfseek(h, -100, seekCur), "seek before the start");
	unsigned char b[16]; memset(b, 0xEE, 16); if (rd) { bool ok = kfread_all(h, (char *)b, n); int e = mlen - p; CHECK(ok == (can_r(mode) && e >= n), "kfread_all of %d with %d left returned %d", n, e, ok); if (can_r(mode)) for (int i = 0; i < n && i < e; i++) CHECK(b[i] == m[p + i], "data"); CHECK(b[n] == 0xEE, "read too much"); }
	else { for (int i = 0; i < n; i++) b[i] = 0x90 + i; int r = kfwrite(h, (char *)b, n); CHECK(can_w(mode) ? r == n : r < 0, "write returned %d", r); if (r > 0) { if (mode == fileAppend) p = mlen; if (p > mlen) memset(m + mlen, 0, p - mlen); memcpy(m + p, b, n); if (p + n > mlen) mlen = p + n; } }
	same("plain"); CHECK(kfsize(h) == mlen, "size after"); kfclose(h); rt_check_released("file"); kmc_end();
}

/* positions beyond 31 and 32 bits */
static int big_fiber(void *, int depth) {
	static const int64_t at[] = { (1LL << 31) - 2, (1LL << 31) + 5, (1LL << 32) - 2, (1LL << 32) + 3, 5LL << 32 }; int64_t base = at[kmc_choose(5)] & ~511LL, p = base + (at[kmc_choose(5)] & 511); int dio = kmc_choose(2); unsigned char d[1600]; for (int i = 0; i < 1600; i++) d[i] = pat(i); vk_file_set_at(PATH, base, d, 1600); int64_t end = base + 1600; int step = 0;
	kfiber_file *f = kfiber_file_open(PATH, fileReadWrite, 0); CHECK(f, "open"); CHECK(kfiber_file_size(f) == end, "size of a big file is %lld", (long long)kfiber_file_size(f)); if (dio) CHECK(kasync_file_direct(f, true), "direct"); static unsigned char buf[2048] __attribute__((aligned(512)));
	for (int i = 0; i < depth; i++) switch (kmc_choose(6)) {
	case 0: CHECK(kfiber_file_seek(f, seekBegin, p) == 0, "seek"); CHECK(kfiber_file_tell(f) == p, "tell gave %lld after a seek to %lld", (long long)kfiber_file_tell(f), (long long)p); step = 1; break;
	case 1: CHECK(kfiber_file_seek(f, seekCur, p) == 0, "seek"); step = step ? 2 : 1; CHECK(kfiber_file_tell(f) >= p, "tell gave %lld", (long long)kfiber_file_tell(f)); if (step == 2) { CHECK(kfiber_file_seek(f, seekCur, -p) == 0, "seek"); step = 1; } break;
	case 2: CHECK(kfiber_file_seek(f, seekBegin, end) == 0, "seek"); step = 1; break;
	case 3: case 4: { int64_t t = kfiber_file_tell(f), e = end - t; int n = 6; if (e > n) e = n; if (e < 0) e = 0; memset(buf, 0xEE, 1024); int r = kfiber_file_read(f, (char *)buf, n); CHECK(dio ? r <= e && (r > 0 || e == 0) : r == e, "read of %d at %lld of %lld gave %d", n, (long long)t, (long long)end, r); const char *q = dio ? kfiber_file_adjust(f, (char *)buf) : (char *)buf; for (int k = 0; k < r; k++) CHECK((unsigned char)q[k] == (t + k < base ? 0 : d[t + k - base]), "wrong data at %lld", (long long)(t + k)); CHECK(kfiber_file_tell(f) == t + r, "position %lld after a read of %d at %lld", (long long)kfiber_file_tell(f), r, (long long)t); break; }
	case 5: { if (dio || kfiber_file_tell(f) < base || kfiber_file_tell(f) + 2 > end) break; int64_t t = kfiber_file_tell(f); buf[0] = 0x91 + i; buf[1] = 0x92; int r = kfiber_file_write(f, (char *)buf, 2); CHECK(r == 2, "write gave %d", r); d[t - base] = buf[0]; d[t - base + 1] = buf[1]; CHECK(kfiber_file_tell(f) == t + 2, "position after a write"); break; }
	}
	kfiber_file_close(f); static unsigned char b[1700]; CHECK(vk_file_get(PATH, b, 1700) == 1600 && !memcmp(b, d, 1600), "the file has other bytes"); rt_done(); return 0;
}
SCEN(big_positions, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { one(big_fiber, 3); }
/* lengths around and beyond what 15, 16 and 17 bits hold, and none at all */
static const int LEN[] = { 0, 1, 511, 4097, 32767, 32768, 65535, 65536, 65537, 100000, 200001 };
static int len_fiber(void *, int depth) {
	const int CAP = 450000; unsigned char *d = (unsigned char *)calloc(1, CAP), *b = (unsigned char *)malloc(CAP), *g = (unsigned char *)malloc(CAP); int have = 150000, first = 3; int64_t at = first; for (int i = 0; i < have; i++) d[i] = (unsigned char)(i * 31 + (i >> 8) * 17); vk_file_set(PATH, d, have);
	kfiber_file *f = kfiber_file_open(PATH, fileReadWrite, 0); CHECK(f, "open"); CHECK(kfiber_file_seek(f, seekBegin, first) == 0, "seek");
	for (int s = 0; s < depth; s++) {
		int o = kmc_choose(6), n = LEN[kmc_choose(11)]; memset(b, 0xEE, CAP); int e = have - at; if (e > n) e = n; if (e < 0) e = 0; int r = 0, len = n;
		if (at + n > CAP - 8) { CHECK(kfiber_file_seek(f, seekBegin, 0) == 0, "seek"); at = 0; e = have < n ? have : n; }
		if (o < 3) { if (o == 0) r = kfiber_file_read(f, (char *)b, n); else if (o == 1) r = kfiber_file_safe_read(f, (char *)b, n); else { bool ok = kfiber_file_read_full(f, (char *)b, &len); r = n - len; CHECK(ok == (e == n), "read_full of %d with %d left returned %d", n, e, ok); }
			CHECK(r == e, "read of %d at %d of %d returned %d", n, (int)at, have, r); for (int i = 0; i < r; i++) CHECK(b[i] == d[at + i], "a read of %d gave a wrong byte %d", n, i); CHECK(b[r] == 0xEE, "a read of %d wrote past its result", n); at += r; }
		else { for (int i = 0; i < n; i++) b[i] = (unsigned char)(i * 13 + (i >> 8) * 5 + s); if (o == 3) r = kfiber_file_write(f, (char *)b, n); else { bool ok = o == 4 ? kfiber_file_safe_write_full(f, (char *)b, &len) : kfiber_file_write_full(f, (char *)b, &len); r = n - len; CHECK(ok, "write_full of %d failed", n); } CHECK(r == n, "write of %d returned %d", n, r); memcpy(d + at, b, n); at += n; if (n && at > have) have = at; }
		CHECK(kfiber_file_tell(f) == at, "position %d, %d expected", (int)kfiber_file_tell(f), (int)at); CHECK(kfiber_file_size(f) == have, "size %d, %d expected", (int)kfiber_file_size(f), have); long l = vk_file_get(PATH, g, CAP); CHECK(l == have && !memcmp(g, d, l), "the file's content differs after an operation of %d bytes", n);
	}
	kfiber_file_close(f); free(d); free(b); free(g); rt_done(); return 0;
}
SCEN(lengths, B({0,0}), B({-1,-1}), 9000, 0, KMC_F_SEQ) { one(len_fiber, 2); }
SCEN(lengths_deep, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { one(len_fiber, 3); }
/* a crowd of operations is in flight at once */
#define CROWD 300
GHOST static int cr_n;
static int cr_op(void *, int i) { char path[16]; snprintf(path, sizeof path, "/v/f%d", i % 10); kfiber_file *f = kfiber_file_open(path, fileReadWrite, 0); CHECK(f, "open"); unsigned char b[8]; CHECK(kfiber_file_seek(f, seekBegin, i / 10 * 8) == 0, "seek"); int r = kfiber_file_read(f, (char *)b, 8); CHECK(r == 8, "read %d returned %d", i, r); for (int j = 0; j < 8; j++) { CHECK(b[j] == pat(i % 10 + i / 10 * 8 + j), "read %d wrong", i); b[j] ^= 0xff; } CHECK(kfiber_file_seek(f, seekBegin, i / 10 * 8) == 0, "seek"); r = kfiber_file_write(f, (char *)b, 8); CHECK(r == 8, "write %d returned %d", i, r); kfiber_file_close(f); cr_n++; return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(1); kmc_explore(0); rt_mark(); static unsigned char c[10][CROWD / 10 * 8], g[CROWD]; for (int k = 0; k < 10; k++) { char path[16]; snprintf(path, sizeof path, "/v/f%d", k); for (int i = 0; i < CROWD / 10 * 8; i++) c[k][i] = pat(k + i); vk_file_set(path, c[k], sizeof c[k]); } kmc_explore(1);
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(0), cr_op, NULL, i, 4096, NULL); rt_settle(2000); CHECK(cr_n == CROWD, "%d of %d ended", cr_n, CROWD);
	for (int k = 0; k < 10; k++) { char path[16]; snprintf(path, sizeof path, "/v/f%d", k); long n = vk_file_get(path, g, sizeof g); CHECK(n == sizeof c[k], "length %ld", n); for (int i = 0; i < n; i++) CHECK(g[i] == (c[k][i] ^ 0xff), "byte %d of file %d", i, k); } rt_check_released("crowd"); kmc_end();
}
