/* C22: events between threads (kcond), read-write spin locks (krw_mutex, kwr_mutex), atomic counters (katom) */
#include "common.h"
#include "ksync.h"
#include "katom.h"
static void thr(void *(*f)(void *), long a) { pthread_t t; CHECK(!pthread_create(&t, NULL, f, (void *)a), "thread"); pthread_detach(t); }
/* ---- kcond */
static kcond *C; GHOST static int waiting, passed, notices, tries_ok;
static void *w_wait(void *) { waiting++; kcond_wait(C); passed++; rt_done(); return NULL; }
static void *w_notice(void *) { notices++; kcond_notice(C); rt_done(); return NULL; }
static void *w_try(void *) { if (kcond_try_wait(C, 0)) tries_ok++; rt_done(); return NULL; }
static void *w_reset(void *) { kcond_reset(C); rt_done(); return NULL; }
static void *w_handoff(void *a) { for (int i = 0; i < (long)a; i++) { kcond_wait(C); passed++; } rt_done(); return NULL; }
static int p_passed(void *a) { return passed >= (long)a; }
/* auto reset: a notice lets one waiter through, whoever comes first; one that nobody waits for is kept for the next, but only one */
static void autoreset(int nw) {
	size_t live = kmc_live_allocs(); C = kcond_init(true); passed = notices = 0;
	for (int i = 0; i < nw; i++) thr(w_wait, i);
	for (int i = 0; i < nw; i++) { thr(w_notice, i); kmc_wait_until(p_passed, (void *)(long)(i + 1)); CHECK(passed == i + 1, "%d passed after %d notices", passed, i + 1); }
	rt_wait(2 * nw); CHECK(!kcond_try_wait(C, 0), "still set"); rt_settle(1); kcond_destroy(C); CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
SCEN(auto2, B({4,3}), B({6,4}), 5000, 0, KMC_F_SPURIOUS) { autoreset(2); }
SCEN(auto3, B({2,1}), B({3,2}), 5000, 0, KMC_F_SPURIOUS) { autoreset(3); }
/* several notices at once: at least one waiter passes, never more than notices; who is left has no notice pending */
SCEN(auto_many, B({3,2}), B({5,3}), 5000, 0, KMC_F_SPURIOUS) {
	C = kcond_init(true); passed = notices = tries_ok = 0; thr(w_wait, 0); thr(w_wait, 1); thr(w_try, 0); thr(w_notice, 0); thr(w_notice, 1);
	rt_settle(5); int used = passed + tries_ok; CHECK(used >= 1 && used <= 2, "%d notices used", used); if (passed < 2) CHECK(!kcond_try_wait(C, 0), "a notice pending while %d wait", 2 - passed);
	kmc_outcome("%d+%d", passed, tries_ok); while (passed < 2) { int b = passed; kcond_notice(C); kmc_wait_until(p_passed, (void *)(long)(b + 1)); } rt_wait(5); rt_settle(1); kmc_end();
}
/* manual: one notice lets everyone through, also later ones, until it is reset */
SCEN(manual3, B({2,1}), B({3,2}), 5000, 0, KMC_F_SPURIOUS) { C = kcond_init(false); passed = 0; for (int i = 0; i < 3; i++) thr(w_wait, i); thr(w_notice, 0); rt_wait(4); CHECK(passed == 3, "passed"); CHECK(kcond_try_wait(C, 0) && kcond_try_wait(C, 0), "no longer set"); kcond_wait(C); kcond_reset(C); CHECK(!kcond_try_wait(C, 0), "still set after a reset"); rt_settle(1); kcond_destroy(C); kmc_end(); }
SCEN(manual_reset, B({5,3}), B({8,4}), 5000, 0, KMC_F_SPURIOUS) { C = kcond_init(false); passed = tries_ok = 0; thr(w_wait, 0); thr(w_notice, 0); thr(w_reset, 0); thr(w_try, 0); rt_settle(5); int p = passed, t = tries_ok; kmc_outcome("%d %d", p, t); if (!p) { CHECK(!kcond_try_wait(C, 0), "set and one waits"); kcond_notice(C); } rt_wait(4); kmc_end(); }
/* ping-pong: no notice is lost however waiter and notifier interleave */
SCEN(handoff, B({6,3}), B({9,4}), 5000, 0, KMC_F_SPURIOUS) { C = kcond_init(true); passed = 0; thr(w_handoff, 3); for (int i = 0; i < 3; i++) { kcond_notice(C); kmc_wait_until(p_passed, (void *)(long)(i + 1)); } rt_wait(1); CHECK(!kcond_try_wait(C, 0), "set"); kmc_end(); }
/* every history of one thread against a flag */
static void cond_hist(int n) {
	kmc_explore(0); int au = kmc_choose(2), set = 0; C = kcond_init(au); char h[20];
	for (int i = 0; i < n; i++) { int o = kmc_choose(set ? 4 : 3); h[i] = "ntrw"[o]; h[i + 1] = 0; switch (o) { case 0: kcond_notice(C); set = 1; break; case 1: CHECK(kcond_try_wait(C, 0) == set, "try_wait (%s)", h); if (au) set = 0; break; case 2: kcond_reset(C); set = 0; break; case 3: kcond_wait(C); if (au) set = 0; break; } }
	CHECK(kcond_try_wait(C, 0) == set, "set (%s)", h); kcond_destroy(C); kmc_end();
}
SCEN(cond_hist8, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { cond_hist(8); }
/* ---- read-write locks */
static krw_mutex RW; static kwr_mutex WR; GHOST static int rd_in, wr_in, kind; static int shared_v, shared_w; /* not atomic on purpose */
static void rlock(int hp) { if (kind) kwr_mutex_rlock(&WR, hp); else krw_mutex_rlock(&RW); }
static void runlock() { if (kind) kwr_mutex_runlock(&WR); else krw_mutex_runlock(&RW); }
static void wlock() { if (kind) kwr_mutex_wlock(&WR); else krw_mutex_wlock(&RW); }
static void wunlock() { if (kind) kwr_mutex_wunlock(&WR); else krw_mutex_wunlock(&RW); }
static void *reader(void *a) { long n = (long)a; for (int i = 0; i < (n & 7); i++) { rlock(n >> 3); rd_in++; CHECK(!wr_in, "a reader beside a writer"); int v = shared_v; CHECK(v == shared_w, "half a write seen"); rd_in--; runlock(); } rt_done(); return NULL; }
static void *writer(void *a) { for (int i = 0; i < (long)a; i++) { wlock(); wr_in++; CHECK(wr_in == 1 && !rd_in, "a writer beside %d writers and %d readers", wr_in - 1, rd_in); shared_v++; shared_w++; wr_in--; wunlock(); } rt_done(); return NULL; }
static void locks(int k, int r, int rn, int hp, int w, int wn) { kind = k; krw_mutex_init(&RW); kwr_mutex_init(&WR); rd_in = wr_in = shared_v = shared_w = 0; for (int i = 0; i < w; i++) thr(writer, wn); for (int i = 0; i < r; i++) thr(reader, rn | ((hp >> i) & 1) << 3); rt_wait(r + w); CHECK(shared_v == w * wn, "%d writes of %d", shared_v, w * wn); wlock(); wunlock(); rlock(0); rlock(1); runlock(); runlock(); wlock(); wunlock(); kmc_end(); }
SCEN(rw_1r1w, B({6,0}), B({9,0}), 5000, 0, 0) { locks(0, 1, 2, 0, 1, 2); }
SCEN(rw_2r2w, B({3,0}), B({5,0}), 5000, 0, 0) { locks(0, 2, 1, 0, 2, 1); }
SCEN(wr_1r2w, B({4,0}), B({6,0}), 5000, 0, 0) { locks(1, 1, 2, 0, 2, 1); }
SCEN(wr_2r2w, B({3,0}), B({4,0}), 5000, 0, 0) { locks(1, 2, 1, 2, 2, 1); }
/* readers share: one inside does not keep another out */
GHOST static int stage[4];
static int p_stage(void *a) { return stage[(long)a]; }
static void *share(void *a) { rlock(0); stage[(long)a] = 1; kmc_wait_until(p_stage, (void *)(1 - (long)a)); runlock(); rt_done(); return NULL; }
SCEN(readers_share, B({4,0}), B({6,0}), 5000, 0, 0) { kind = kmc_choose(2); krw_mutex_init(&RW); kwr_mutex_init(&WR); stage[0] = stage[1] = 0; thr(share, 0); thr(share, 1); rt_wait(2); wlock(); wunlock(); kmc_end(); }
/* a crowd of readers inside, of notices, of waiting threads */
static void *cr_w(void *) { wlock(); wr_in = 1; CHECK(!rd_in, "a writer beside %d readers", rd_in); wunlock(); rt_done(); return NULL; }
SCEN(crowd_readers, B({0,0}), B({0,0},{1,0}), 50000, 0, 0) {
	static const int N[] = { 2, 127, 128, 255, 256, 257, 20000 }; kind = kmc_choose(2); int n = N[kmc_choose(7)]; krw_mutex_init(&RW); kwr_mutex_init(&WR); kmc_explore(0); wr_in = 0;
	for (int i = 0; i < n; i++) { rlock(i & 1); rd_in++; } kmc_explore(1); thr(cr_w, 0); kmc_yield(); CHECK(!wr_in, "writer inside"); for (int i = 0; i < n; i++) { rd_in--; CHECK(!wr_in, "a writer beside %d of %d readers", rd_in + 1, n); runlock(); }
	rt_wait(1); CHECK(wr_in, "writer"); rlock(0); runlock(); wlock(); wunlock(); kmc_end();
}
SCEN(crowd_notices, B({0,0}), B({0,0}), 50000, 0, 0) {
	if (kmc_choose(2)) goto manual; C = kcond_init(true); passed = 0; for (int i = 0; i < 300; i++) kcond_notice(C); kcond_wait(C); CHECK(!kcond_try_wait(C, 0), "more than one notice kept");
	for (int i = 0; i < 12; i++) thr(w_wait, i); rt_settle(5); kmc_explore(1); for (int i = 0; i < 12; i++) { CHECK(passed == i, "%d passed after %d notices", passed, i); kcond_notice(C); kmc_wait_until(p_passed, (void *)(long)(i + 1)); rt_settle(1); } rt_wait(12); kcond_destroy(C); kmc_end();
manual:	C = kcond_init(false); passed = 0; for (int i = 0; i < 12; i++) thr(w_wait, i); rt_settle(5); kcond_notice(C); rt_wait(12); CHECK(passed == 12, "%d passed", passed); for (int i = 0; i < 300; i++) kcond_wait(C); kcond_reset(C); CHECK(!kcond_try_wait(C, 0), "still set"); kcond_destroy(C); kmc_end();
}
/* a waiting writer of a kwr_mutex keeps new readers out, but not those of high priority */
static void *wr_w(void *) { kwr_mutex_wlock(&WR); wr_in = 1; CHECK(!rd_in, "a writer beside readers"); stage[0] = 1; wr_in = 0; kwr_mutex_wunlock(&WR); rt_done(); return NULL; }
static void *wr_r(void *hp) { kwr_mutex_rlock(&WR, hp != NULL); CHECK(!wr_in, "a reader beside a writer"); if (!hp) CHECK(stage[0], "a reader overtook the waiting writer"); else CHECK(!stage[0], "order"); stage[hp ? 2 : 1] = 1; kwr_mutex_runlock(&WR); rt_done(); return NULL; }
SCEN(prefer_writer, B({4,0}), B({5,0}), 5000, 0, 0) { kmc_explore(0); kwr_mutex_init(&WR); rd_in = 1; wr_in = 0; stage[0] = stage[1] = stage[2] = 0; kwr_mutex_rlock(&WR, false); thr(wr_w, 0); usleep(1000); kmc_explore(1); thr(wr_r, 0); thr(wr_r, 1); kmc_wait_until(p_stage, (void *)2L); CHECK(!stage[0] && !stage[1], "entered while a reader was inside"); rd_in = 0; kwr_mutex_runlock(&WR); rt_wait(3); CHECK(stage[0] && stage[1], "stuck"); kmc_end(); }
/* ---- atomics: nothing is lost between threads, and neighbours are left alone */
static struct { int16_t l; uint16_t a16; uint16_t r; uint32_t a32; uint32_t n32; uint64_t a64; uint64_t n64; } A; GHOST static int got16, got32, got64, won;
static void *at(void *a) { long i = (long)a; int16_t x = katom_inc16(&A.a16); got16 |= 1 << x; uint32_t y = katom_inc(&A.a32); got32 |= 1 << y; uint64_t z = katom_inc64(&A.a64); got64 |= 1 << z; if (katom_cas(&A.n32, 7, 100 + i)) won++; katom_sub64(&A.n64, 3); katom_dec64(&A.n64); rt_done(); return NULL; }
SCEN(atoms3, B({4,0}), B({6,0}), 5000, 0, 0) { memset(&A, 0, sizeof A); A.l = 0x55; A.r = 0xaa; A.n32 = 7; A.n64 = 12; got16 = got32 = got64 = won = 0; for (int i = 0; i < 3; i++) thr(at, i); rt_wait(3); CHECK(A.a16 == 3 && A.a32 == 3 && A.a64 == 3 && A.n64 == 0 && A.l == 0x55 && A.r == 0xaa, "lost"); CHECK(got16 == 14 && got32 == 14 && got64 == 14, "values %x %x %x", got16, got32, got64); CHECK(won == 1 && A.n32 >= 100 && A.n32 <= 102, "cas %d", won); kmc_end(); }
static void *cas16(void *a) { for (int i = 0; i < 2; i++) for (;;) { uint16_t v = *(volatile uint16_t *)&A.a16; if (katom_cas16(&A.a16, (int16_t)v, (int16_t)(v + 1))) break; } for (int i = 0; i < 2; i++) for (;;) { uint64_t v = katom_get64(&A.a64); if (katom_cas64(&A.a64, (int64_t)v, (int64_t)(v + 0x100000001ll))) break; } rt_done(); return NULL; }
SCEN(cas_loops, B({6,0}), B({9,0}), 5000, 0, 0) { memset(&A, 0, sizeof A); thr(cas16, 0); thr(cas16, 1); rt_wait(2); CHECK(A.a16 == 4 && A.a64 == 0x400000004ull && !A.l && !A.r, "lost"); kmc_end(); }
/* what each gives back, at every edge value */
SCEN(atom_values, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) {
	static const uint64_t V[] = { 0, 1, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull }; kmc_explore(0);
	uint64_t v = V[kmc_choose(13)], w = V[kmc_choose(13)], c = V[kmc_choose(13)]; int o = kmc_choose(18); struct { uint64_t g0, x, g1; } m = { 0x1111111111111111ull, v, 0x2222222222222222ull }; uint64_t r = 0, want = 0, after = v; int bits = 64;
	uint64_t lo32 = v & 0xffffffff00000000ull, lo16 = v & ~0xffffull;
	switch (o) {
	case 0: r = katom_inc64(&m.x); want = after = v + 1; break;
	case 1: r = katom_dec64(&m.x); want = after = v - 1; break;
	case 2: r = katom_add64(&m.x, w); want = v; after = v + w; break;
	case 3: r = katom_sub64(&m.x, w); want = v; after = v - w; break;
	case 4: r = katom_set64(&m.x, w); want = v; after = w; break;
	case 5: r = katom_get64(&m.x); want = v; break;
	case 6: r = katom_cas64(&m.x, c, w); want = v == c; after = want ? w : v; break;
	case 7: bits = 32; r = katom_inc(&m.x); want = (uint32_t)(v + 1); after = lo32 | want; break;
	case 8: bits = 32; r = katom_dec(&m.x); want = (uint32_t)(v - 1); after = lo32 | want; break;
	case 9: bits = 32; r = katom_add(&m.x, (int32_t)w); want = (uint32_t)v; after = lo32 | (uint32_t)(v + w); break;
	case 10: bits = 32; if ((uint32_t)w == 0x80000000u) kmc_end(); r = katom_sub(&m.x, (int32_t)w); want = (uint32_t)v; after = lo32 | (uint32_t)(v - w); break;
	case 11: bits = 32; r = katom_set(&m.x, (uint32_t)w); want = (uint32_t)v; after = lo32 | (uint32_t)w; break;
	case 12: bits = 32; r = katom_get(&m.x); want = (uint32_t)v; break;
	case 13: r = katom_cas(&m.x, (int32_t)c, (int32_t)w); want = (uint32_t)v == (uint32_t)c; after = want ? (lo32 | (uint32_t)w) : v; break;
	case 14: r = (uint16_t)katom_inc16(&m.x); want = (uint16_t)(v + 1); after = lo16 | want; break;
	case 15: r = (uint16_t)katom_dec16(&m.x); want = (uint16_t)(v - 1); after = lo16 | want; break;
	case 16: r = katom_set16(&m.x, (uint16_t)w); want = (uint16_t)v; after = lo16 | (uint16_t)w; break;
	case 17: r = katom_cas16(&m.x, (int16_t)c, (int16_t)w); want = (uint16_t)v == (uint16_t)c; after = want ? (lo16 | (uint16_t)w) : v; break;
	}
	(void)bits; CHECK(r == want, "operation %d on %llx gave %llx, expected %llx", o, (long long)v, (long long)r, (long long)want); CHECK(m.x == after, "operation %d on %llx left %llx, expected %llx", o, (long long)v, (long long)m.x, (long long)after); CHECK(m.g0 == 0x1111111111111111ull && m.g1 == 0x2222222222222222ull, "neighbour"); kmc_end();
}
