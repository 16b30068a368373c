/* C25: memory pools, their clean-up handlers and growing arrays against a list of what was handed out */
#include "common.h"
extern "C" unsigned kgl_pagesize;
static char hist[64]; static int nh;
struct piece { unsigned char *p; size_t n; unsigned char v; int big, live; };
static piece P[128]; static int np; static kgl_pool_t *pool; static unsigned char val;
static int ran[64], nran, added[64], nadded;
static void handler(void *d) { CHECK(nran < 64, "handlers"); ran[nran++] = (int)(long)d; }
static void handler2(void *d) { CHECK(nran < 64, "handlers"); ran[nran++] = 1000 + (int)(long)d; }
static void fill(piece *x) { memset(x->p, x->v, x->n); }
static void verify(piece *x) { for (size_t i = 0; i < x->n; i++) if (x->p[i] != x->v) kmc_fail("byte %zu of a piece of %zu changed (%s)", i, x->n, hist); }
static void got(void *p, size_t n, size_t al, int big) {
	CHECK(p, "no memory (%s)", hist); CHECK(((uintptr_t)p & (al - 1)) == 0, "%p not aligned to %zu (%s)", p, al, hist);
	for (int i = 0; i < np; i++) if (P[i].live && n && P[i].n) CHECK((unsigned char *)p + n <= P[i].p || P[i].p + P[i].n <= (unsigned char *)p, "a piece of %zu overlaps one of %zu (%s)", n, P[i].n, hist);
	P[np] = piece{ (unsigned char *)p, n, ++val, big, 1 }; fill(&P[np]); np++;
}
static void verify_all() { for (int i = 0; i < np; i++) if (P[i].live) verify(&P[i]); }
static void check_ran(int from) { CHECK(nran == nadded, "%d handlers ran, %d added (%s)", nran, nadded, hist); for (int i = from; i < nadded; i++) CHECK(ran[i] == added[nadded - 1 - i], "handler %d ran at place %d (%s)", ran[i], i, hist); }
static size_t begin() { kmc_explore(0); np = nran = nadded = nh = 0; hist[0] = 0; val = 0; pool = NULL; return kmc_live_allocs(); }
static void mkpool() { static const size_t S[] = { KGL_MIN_POOL_SIZE, 160, 256, 256, KGL_MIN_POOL_SIZE + 5 }; int k = kmc_choose(5); kgl_pagesize = k == 3 ? 33 : 4096; pool = kgl_create_pool(S[k]); CHECK(pool, "pool"); CHECK(((uintptr_t)pool & 15) == 0, "pool alignment"); }
/* prefix: blocks too full for what comes next (the pool stops looking into a block that failed often) */
static void prefix(int max) { int n = kmc_choose(max + 1); for (int i = 0; i < n; i++) got(kgl_palloc(pool, pool->max), pool->max, 8, 0); snprintf(hist, sizeof hist, "%d:", n); nh = (int)strlen(hist); }
static void allocs(int depth, int pre) {
	size_t live = begin(); mkpool(); prefix(pre); int ins = -1;
	for (int i = 0; i < depth; i++) {
		int o = kmc_choose(13); hist[nh++] = "018mMpqaAficr"[o]; hist[nh] = 0; size_t n = 0;
		switch (o) {
		case 0: kgl_palloc(pool, 0); break;
		case 1: got(kgl_palloc(pool, 1), 1, 8, 0); break;
		case 2: got(kgl_palloc(pool, 24), 24, 8, 24 > pool->max); break;
		case 3: n = pool->max; got(kgl_palloc(pool, n), n, 8, 0); break;
		case 4: n = pool->max + 1; got(kgl_palloc(pool, n), n, 8, 1); break;
		case 5: got(kgl_pnalloc(pool, 3), 3, 1, 0); break;
		case 6: n = pool->max + 8; got(kgl_pnalloc(pool, n), n, 1, 1); break;
		case 7: got(kgl_pmemalign(pool, 24, 64), 24, 64, 1); break;
		case 8: { kbuf *b = kmc_choose(2) ? new_pool_kbuf_align(pool, 40) : new_pool_kbuf(pool, 10); CHECK(b, "buffer"); CHECK(b->used == 40 || b->used == 10, "used"); got(b->data, b->used, b->used == 40 ? kgl_aio_align_size : 1, b->used == 40 ? 1 : -1); } break;
		case 9: { /* free some piece: only large ones can be given back alone, each once */
			int k = -1; for (int j = 0; j < np; j++) if (P[j].live) { if (P[j].big == 1) { k = j; break; } else k = j; } if (k < 0) break; bool r = kgl_pfree(pool, P[k].p); if (P[k].big >= 0) CHECK(r == (P[k].big == 1), "kgl_pfree said %d of a piece of %zu (%s)", r, P[k].n, hist); if (r) { unsigned char *q = P[k].p; P[k].live = 0; CHECK(!kgl_pfree(pool, q), "freed twice (%s)", hist); } } break;
		case 10: { kgl_cleanup_t *c = kgl_cleanup_insert(pool, handler2); CHECK(c, "insert"); if (ins < 0) { CHECK(!kgl_cleanup_get_data(c), "data of a new handler"); ins = nadded; added[nadded++] = 1000; } else CHECK(kgl_cleanup_get_data(c) == (void *)(long)(added[ins] - 1000), "another handler (%s)", hist); kgl_cleanup_set_data(c, (void *)(long)(i + 1)); added[ins] = 1000 + i + 1; } break;
		case 11: CHECK(kgl_cleanup_add(pool, handler, (void *)(long)(i + 1)), "add"); added[nadded++] = i + 1; break;
		case 12: verify_all(); kgl_reset_pool(pool); check_ran(0); for (int j = 0; j < np; j++) P[j].live = 0; nran = nadded = 0; ins = -1; break;
		}
		verify_all();
	}
	kgl_destroy_pool(pool); check_ran(0); CHECK(kmc_live_allocs() == live, "%zd allocations left (%s)", (ssize_t)(kmc_live_allocs() - live), hist); kmc_end();
}
SCEN(allocs4, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { allocs(4, 8); }
SCEN(allocs5, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { allocs(5, 8); }
/* arrays: two of them and single pieces in one pool */
static kgl_array_t *A[2]; static unsigned char *M[2]; static int ML[2]; static unsigned char Mb[2][4096];
static void averify() { for (int k = 0; k < 2; k++) if (A[k]) { CHECK(A[k]->nelts * A[k]->size == (size_t)ML[k], "%zu elements, %d bytes (%s)", A[k]->nelts, ML[k], hist); CHECK(!memcmp(A[k]->elts, Mb[k], ML[k]), "elements of array %d changed (%s)", k, hist); } verify_all(); }
static void pushed(int k, void *e, int n) { CHECK(e, "push (%s)", hist); int b = n * (int)A[k]->size; CHECK((char *)e == (char *)A[k]->elts + ML[k], "a new element is not behind the last (%s)", hist);
	unsigned char *lo = (unsigned char *)e; for (int i = 0; i < np; i++) if (P[i].n && P[i].live) CHECK(lo + b <= P[i].p || P[i].p + P[i].n <= lo, "a new element overlaps another piece (%s)", hist);
	int o = 1 - k; if (A[o] && ML[o]) { unsigned char *q = (unsigned char *)A[o]->elts; CHECK(lo + b <= q || q + ML[o] <= lo, "arrays overlap (%s)", hist); }
	for (int j = 0; j < 2; j++) if (A[j]) CHECK(lo + b <= (unsigned char *)A[j] || (unsigned char *)(A[j] + 1) <= lo, "a new element overlaps an array head (%s)", hist);
	val++; memset(e, val, b); memset(Mb[k] + ML[k], val, b); ML[k] += b; }
static void arrays(int depth, int pre, int nops) {
	size_t live = begin(); mkpool(); A[0] = A[1] = NULL; ML[0] = ML[1] = 0; prefix(pre); static const int N[] = { 0, 1, 3 };
	for (int i = 0; i < depth; i++) {
		int o = kmc_choose(nops); hist[nh++] = "01ABabpdD"[o]; hist[nh] = 0; int k = o & 1;
		switch (o) {
		case 0: case 1: { if (A[k]) kmc_end(); int n = N[kmc_choose(3)]; hist[nh++] = '0' + n; hist[nh] = 0; A[k] = kgl_array_create(pool, n, k ? 4 : 12); CHECK(A[k] && A[k]->nelts == 0, "create"); ML[k] = 0; } break;
		case 2: case 3: if (!A[k]) kmc_end(); pushed(k, kgl_array_push(A[k]), 1); break;
		case 4: case 5: if (!A[k]) kmc_end(); pushed(k, kgl_array_push_n(A[k], 3), 3); break;
		case 6: got(kgl_palloc(pool, 8), 8, 8, 0); break;
		case 7: case 8: k = o - 7; if (!A[k]) kmc_end(); kgl_array_destroy(A[k]); A[k] = NULL; break;
		}
		averify();
	}
	kgl_destroy_pool(pool); CHECK(kmc_live_allocs() == live, "leak (%s)", hist); kmc_end();
}
SCEN(arrays6, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { arrays(6, 1, 9); }
SCEN(arrays8, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { arrays(8, 0, 9); }
SCEN(arrays_one, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { size_t live = begin(); mkpool(); int n = kmc_choose(4), sz = 1 + kmc_choose(20); kgl_array_t *a = kgl_array_create(pool, n, sz); A[0] = a; A[1] = NULL; ML[0] = 0; int gap = kmc_choose(30); for (int i = 0; i < 40; i++) { if (i == gap) got(kgl_palloc(pool, 8), 8, 8, 0); pushed(0, kgl_array_push(a), 1); averify(); } kgl_destroy_pool(pool); CHECK(kmc_live_allocs() == live, "leak"); kmc_end(); }
/* memory runs out at every point: said so, and the pool stays whole */
static void oom(int depth) {
	size_t live = begin(); mkpool(); int at = 1 + kmc_choose(depth + 2), failed = 0; 
	for (int i = 0; i < depth; i++) { if (i == 0) kmc_fail_alloc_after(at); int o = kmc_choose(5); hist[nh++] = "smlac"[o]; hist[nh] = 0; size_t n = o == 0 ? 24 : o == 1 ? pool->max : o == 2 ? pool->max + 50 : 30; void *p = o == 3 ? kgl_pmemalign(pool, n, 64) : o == 4 ? (void *)kgl_cleanup_add(pool, handler, (void *)(long)i) : kgl_palloc(pool, n);
		if (!p) { failed++; CHECK(failed == 1, "failed twice (%s)", hist); } else if (o == 4) added[nadded++] = i; else got(p, n, o == 3 ? 64 : 8, o > 1); verify_all(); }
	kmc_fail_alloc_after(0); kgl_destroy_pool(pool); check_ran(0); CHECK(kmc_live_allocs() == live, "leak (%s)", hist); kmc_end();
}
SCEN(oom5, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { oom(5); }
SCEN(oom7, B({-1,-1}), B({0,0}), 1000, 0, KMC_F_SEQ) { oom(7); }
/* many pieces, handlers and elements at once */
SCEN(crowd, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	enum { N = 700 }; size_t live = begin(); mkpool(); static unsigned char *q[N]; static int done[N]; static kgl_array_t *a; static unsigned n0; a = kgl_array_create(pool, 2, 12); CHECK(a, "array"); n0 = 0;
	for (int round = 0; round < 2; round++) {
		memset(done, 0, sizeof done);
		for (int i = 0; i < N; i++) { size_t n = 1 + i * 7 % (i % 50 == 0 ? 900 : 60); q[i] = (unsigned char *)(i % 3 == 0 ? kgl_pnalloc(pool, n) : i % 50 == 7 ? kgl_pmemalign(pool, n, 32) : kgl_palloc(pool, n)); CHECK(q[i], "piece %d", i); memset(q[i], i, n); if (!round) { unsigned *e = (unsigned *)kgl_array_push(a); CHECK(e && a->nelts == (size_t)i + 1, "element %d", i); e[0] = e[1] = e[2] = i * 5; }
			if (i % 2) CHECK(kgl_cleanup_add(pool, [](void *d) { ++*(int *)d; }, &done[i]), "handler %d", i); }
		for (int i = 0; i < N; i++) { size_t n = 1 + i * 7 % (i % 50 == 0 ? 900 : 60); for (size_t j = 0; j < n; j++) CHECK(q[i][j] == (unsigned char)i, "piece %d of %d changed", i, N); }
		if (!round) for (int i = 0; i < N; i++) for (int j = 0; j < 3; j++) CHECK(((unsigned *)a->elts)[i * 3 + j] == (unsigned)i * 5, "element %d of %d changed", i, N);
		if (round) kgl_destroy_pool(pool); else kgl_reset_pool(pool);
		for (int i = 0; i < N; i++) CHECK(done[i] == i % 2, "handler %d ran %d times", i, done[i]);
	}
	CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
