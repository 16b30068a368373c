/* kmc engine: scheduler, explorer, memory and race tracking, pthread layer. */
#include "kmc_int.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <semaphore.h>
#include <atomic>
#include <algorithm>
#include <map>
#include <set>

static Eng eng; Eng *G = &eng;

/* ------------------------------------------------------------------ memory layout */
#define ARENA 0x100000000000ull
#ifndef REGION_MB
#define REGION_MB 64
#endif
#define REGION ((unsigned long long)REGION_MB << 20)
#define ARENA_SZ (REGION * MAXT)
struct Cell { u32 stamp, wpc, rpc; u16 wclk; u8 wt, pad; u16 rclk[MAXT]; };
static u8 *amap;          /* one byte per 8-byte granule of the arena: 0 ok, 1..7 first k bytes ok, 0xFA never, 0xFD freed */
static Cell *acells, *dcells;
static char *dstart, *dend, *gstart, *gend; static char *dsave, *gsave;
static char *text_base;
#define PCBITS (1u << 24)
static u64 *promo;        /* local copy */
static u64 *visible_pcs;

struct AllocRec { char *p; size_t n; void *pc; u8 live; u8 tid; };
static AllocRec *recs; static u32 nrecs; static const u32 MAXREC = 1 << 18;

/* ------------------------------------------------------------------ shared state between workers */
#define POOL_N 512
#define POOL_LEN 60000
struct Shm {
	std::atomic<int> stop, lock, npool, idle, nworkers, promo_new, viol, outlock, nout, capped, internal;
	std::atomic<u64> execs, pruned, trans, states, maxtrace, devexecs, choicepts;
	u32 poollen[POOL_N]; u16 pool[POOL_N][POOL_LEN];
	u64 promo[PCBITS / 64];
	char vmsg[4096]; u32 vlen; u16 vchoices[POOL_LEN]; int vP, vE; u64 vpromo[PCBITS / 64];
	char imsg[2048];
	struct { u64 h; u32 n; char s[112]; } out[4096];
	struct { u32 n, dev; char s[240]; } samp[8]; std::atomic<int> nsamp;
	/* fork mode: result of one execution */
	int f_outcome; u32 f_n; Choice f_tr[POOL_LEN]; u64 f_steps;
	double deadline; std::atomic<u64> known[64];
};
static Shm *S;
static std::atomic<u64> *vis; static u64 vis_mask; 
static double nowd() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

/* ------------------------------------------------------------------ context switch */
extern "C" void kmc_swtch(void **save, void *to);
asm(R"(
.text
.globl kmc_swtch
.type kmc_swtch,@function
kmc_swtch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8,%rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp,(%rdi)
	movq %rsi,%rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8,%rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

void ktrace(const char *fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	char o[1200]; int n = snprintf(o, sizeof o, "  [%d t=%lld.%03llu #%llu] %s\n", G->cur ? G->cur->id : -1, (long long)(G->now / 1000), (unsigned long long)(G->now % 1000), (unsigned long long)G->trace.size(), b);
	syscall(SYS_write, 1, o, n);
}
void internal_error(const char *fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (S) { snprintf(S->imsg, sizeof S->imsg, "%s", b); S->internal = 1; S->stop = 1; }
	fprintf(stderr, "kmc internal error: %s\n", b);
	_exit(3);
}
[[noreturn]] void finish(int o) {
	G->outcome = o; G->in_sim = 0; void *dummy; kmc_swtch(&dummy, G->main_sp); abort();
}
static void dump_threads(std::string &m) {
	char b[256];
	for (int i = 0; i < G->nt; i++) { Thread &t = G->t[i]; if (t.state != 1 || t.device) continue;
		snprintf(b, sizeof b, " T%d:%s", t.id, t.blocked ? t.why : "runnable"); m += b; }
}
/* messages and outcomes go into one line of a file each */
static void printable(char *b) { for (; *b; b++) if ((unsigned char)*b < 0x20 || (unsigned char)*b > 0x7e) *b = '?'; }
void violation(const char *fmt, ...) {
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); printable(b);
	G->msg = b; TRACE("VIOLATION: %s", b); finish(2);
}
extern "C" void kmc_fail(const char *fmt, ...) {
	char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (!G->in_sim) { fprintf(stderr, "kmc_fail outside a run: %s\n", b); _exit(3); }
	violation("%s", b);
}
/* ------------------------------------------------------------------ objects */
#define NOBJ (1u << 15)
static Obj *objs;
static inline u32 ohash(u64 k) { return (u32)((k * 0x9E3779B97F4A7C15ull) >> 40); }
Obj *obj(const void *a) {
	u64 k = (u64)a; u32 i = ohash(k) & (NOBJ - 1);
	for (u32 n = 0; n < NOBJ; n++, i = (i + 1) & (NOBJ - 1)) {
		Obj *o = &objs[i];
		if (o->stamp != (u32)G->stamp) { memset(o, 0, sizeof *o); o->key = k; o->stamp = G->stamp; o->owner = -1; return o; }
		if (o->key == k) return o;
	}
	endless("new objects"); return 0;
}
static inline void seth(Thread *t, u64 nh) { G->fp -= mix64(t->h, t->id + 1); t->h = nh; G->fp += mix64(t->h, t->id + 1); }
void mixh(u64 v) { if (G->cur) seth(G->cur, mix64(G->cur->h, v)); }
/* more than any terminating run of the scenario needs: code that goes on without end */
void endless(const char *what) { if (G->in_sim) violation("hang: %s without end (thread %d)", what, G->cur ? G->cur->id : -1); internal_error("%s without end", what); }
static inline void vcjoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void obj_op(Obj *o, int write) {
	Thread *t = G->cur;
	vcjoin(t->vc, o->vc);
	seth(t, mix64(mix64(t->h, o->key), o->h + write));
	if (write) { o->h = t->h ^ 0x5bd1e995; o->ver++; vcjoin(o->vc, t->vc); if (t->vc.c[t->id] == 0xffff) endless("steps"); t->vc.c[t->id]++; }
}
void visible(const void *addr, int write, const char *what) {
	if (!G->in_sim) return;
	Thread *t = G->cur;
	if (!write && t->sp_addr == addr) {
		Obj *o = obj(addr);
		if (t->sp_ver == o->ver) { t->sp_cnt++; } else { t->sp_ver = o->ver; t->sp_cnt = 1; sched_point(); obj_op(o, 0); t->sp_ver = o->ver; return; }
		if (t->sp_cnt > 60) {
			struct W { Obj *o; u32 v; } w = { o, o->ver };
			block([](void *p) { W *w = (W *)p; return (int)(w->o->ver != w->v); }, &w, -1, "spinning", addr);
			t->sp_cnt = 1; t->sp_ver = o->ver; obj_op(o, 0); return;
		}
		return; /* same value, same version: nothing to schedule around */
	}
	sched_point();
	Obj *o = obj(addr);
	TRACE("%s %s %p", what, write ? "w" : "r", addr);
	obj_op(o, write); G->steps++;
	if (write) t->sp_addr = 0; else { t->sp_addr = addr; t->sp_ver = o->ver; t->sp_cnt = 1; }
}
/* ------------------------------------------------------------------ choices */
static bool seen_before(u64 key0) {
	/* dominated if visited with no more budget spent */
	for (int p = 0; p <= G->usedP; p++) for (int e = 0; e <= G->usedE; e++) {
		u64 k = mix64(key0, 1000 + p * 16 + e); if (k < 2) k += 2;
		u64 i = k & vis_mask;
		bool self = (p == G->usedP && e == G->usedE);
		for (int n = 0; n < 64; n++, i = (i + 1) & vis_mask) {
			u64 v = vis[i].load(std::memory_order_relaxed);
			if (v == k) return true;
			if (v == 0) {
				if (!self) break;
				if (vis[i].compare_exchange_strong(v, k)) { S->states++; return false; }
				if (v == k) return true;
			}
		}
	}
	return false;
}
int choose(int n, int cls) {
	if (n <= 1) return 0;
	if (cls == CLS_P && G->usedP >= G->boundP) return 0;
	if (cls == CLS_E && G->usedE >= G->boundE) return 0;
	size_t idx = G->trace.size();
	if (idx >= POOL_LEN - 1) endless("choices");
	int c = 0;
	if (idx < G->plen) { c = G->prefix[idx]; if (c >= n) internal_error("replay divergence at %zu: choice %d of %d (%s)", idx, c, n, G->sc->name); }
	else if (G->seq) { if (!G->replay && S) S->states++; }
	else if (!G->replay && seen_before(mix64(mix64(G->fp, G->cur ? G->cur->id : 99), mix64(n * 8 + cls, G->now + G->wall_off)))) finish(3);
	Choice ch; ch.n = n; ch.c = c; ch.cls = cls; ch.uP = G->usedP; ch.uE = G->usedE;
	G->trace.push_back(ch);
	if (c) { if (cls == CLS_P) G->usedP++; if (cls == CLS_E) G->usedE++; }
	return c;
}
extern "C" int kmc_choose(int n) { int c = choose(n, CLS_FREE); mixh(c + 77); TRACE("choose %d of %d", c, n); return c; }
extern "C" int kmc_deviate(int n) { int c = choose(n, CLS_E); mixh(c + 99); if (c) TRACE("deviate %d of %d", c, n); return c; }
extern "C" void kmc_seen(u64 h) {
	if (G->trace.size() < G->plen || G->replay) return;
	if (seen_before(mix64(h, 0xABCDEF))) finish(3);
}
/* ------------------------------------------------------------------ scheduling */
static inline int is_ready(Thread *t) {
	if (t->state != 1) return 0;
	if (!t->blocked) return 1;
	if (t->pred && t->pred(t->parg)) return 1;
	if (t->deadline >= 0 && G->now >= t->deadline) return 1;
	return 0;
}
static void switch_to(Thread *n) {
	Thread *c = G->cur; if (n == c) return;
	c->err = errno; G->cur = n; errno = n->err;
	kmc_swtch(&c->sp, n->sp);
}
static void check_horizon() {
	if (G->sc->horizon_ms && G->now > (i64)G->sc->horizon_ms * 1000) {
		std::string m = "hang: not finished within the virtual-time horizon;"; dump_threads(m); violation("%s", m.c_str());
	}
	if (G->steps > 400000) { std::string m = "livelock: more than 400000 steps;"; dump_threads(m); violation("%s", m.c_str()); }
}
static int advance_clock() { /* to the earliest deadline; 0 if none */
	i64 d = -1;
	for (int i = 0; i < G->nt; i++) { Thread *t = &G->t[i]; if (t->state == 1 && t->blocked && t->deadline >= 0 && t->deadline > G->now && (d < 0 || t->deadline < d)) d = t->deadline; }
	if (d < 0) return 0;
	G->now = d; check_horizon(); return 1;
}
void sched_point(void) {
	if (!G->explore || G->seq) return;
	if (++G->steps > 400000) check_horizon();
	Thread *c = G->cur;
	if ((G->sc->flags & KMC_F_TIME) && G->usedE < G->boundE) {
		i64 d = -1; for (int i = 0; i < G->nt; i++) { Thread *t = &G->t[i]; if (t != c && t->state == 1 && t->blocked && t->deadline > G->now && (d < 0 || t->deadline < d)) d = t->deadline; }
		if (d >= 0 && choose(2, CLS_E)) { TRACE("clock jumps"); G->now = d; check_horizon(); }
	}
	if (G->usedP >= G->boundP) return;
	Thread *en[MAXT]; int n = 0; en[n++] = c;
	for (int i = 1; i <= G->nt; i++) { Thread *t = &G->t[(c->id + i) % G->nt]; if (t != c && is_ready(t)) en[n++] = t; }
	if (n == 1) return;
	int k = choose(n, CLS_P);
	if (k) { TRACE("preempted -> T%d", en[k]->id); switch_to(en[k]); }
}
static void pick_next(void) { /* current thread cannot run; returns when it has been scheduled again */
	Thread *c = G->cur;
	for (;;) {
		Thread *en[MAXT]; int n = 0;
		for (int i = 1; i <= G->nt; i++) { Thread *t = &G->t[(c->id + i) % G->nt]; if (is_ready(t)) en[n++] = t; }
		if (!n) {
			if (advance_clock()) continue;
			std::string m = "deadlock: no thread can run;"; dump_threads(m); violation("%s", m.c_str());
		}
		int k = 0;
		if ((G->sc->flags & KMC_F_TIME) && G->explore && G->usedE < G->boundE) {
			i64 d = -1; for (int i = 0; i < G->nt; i++) { Thread *t = &G->t[i]; if (t->state == 1 && t->blocked && t->deadline > G->now && (d < 0 || t->deadline < d)) d = t->deadline; }
			if (d >= 0 && choose(2, CLS_E)) { TRACE("clock jumps"); G->now = d; check_horizon(); continue; }
		}
		if (n > 1 && G->explore && !G->seq) k = choose(n, G->sc->npcost ? CLS_P : CLS_FREE);
		switch_to(en[k]); return;
	}
}
int block(predfn p, void *arg, i64 deadline, const char *why, const void *wobj) {
	Thread *t = G->cur;
	if (p && p(arg)) return 1;
	t->pred = p; t->parg = arg; t->deadline = deadline; t->why = why; t->wobj = wobj; t->blocked = 1;
	if (deadline >= 0 && G->now >= deadline) { t->blocked = 0; return 0; }
	TRACE("blocks: %s %p", why, wobj);
	pick_next();
	int r = (p && p(arg));
	if (deadline >= 0) mixh(r + 0x51);
	t->blocked = 0; t->pred = 0; t->sp_addr = 0;
	TRACE("resumes: %s %s", why, r ? "" : "(timeout)");
	return r;
}
extern "C" void kmc_yield(void) { visible((void *)"yield", 0, "yield"); G->cur->sp_addr = 0; }
extern "C" void kmc_explore(int on) { G->explore = on; }
extern "C" int kmc_tid(void) { return G->cur ? G->cur->id : 0; }
extern "C" int64_t kmc_now_us(void) { return G->now; }
extern "C" void kmc_set_clock_us(int64_t us) { G->wall_off = us - G->now; }
extern "C" void kmc_advance_us(int64_t us) { G->now += us; check_horizon(); }
extern "C" int kmc_replaying(void) { return G->replay; }
extern "C" void kmc_wait_until(int (*pred)(void *), void *arg) { block(pred, arg, -1, "ghost-wait", arg); obj_op(obj(arg), 1); }
extern "C" void kmc_end(void) { finish(1); }
extern "C" void kmc_trace(const char *fmt, ...) { if (!G->replay) return; char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); ktrace("%s", b); }
extern "C" void kmc_outcome(const char *fmt, ...) {
	char b[256]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); printable(b); G->outcome_str = b; TRACE("outcome: %s", b);
}
extern "C" uint64_t kmc_hash(const void *p, size_t n, uint64_t s) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) s = (s ^ b[i]) * 0x100000001b3ull; return mix64(s, n); }

/* ------------------------------------------------------------------ arena */
int in_arena(const void *p) { return (u64)p - ARENA < ARENA_SZ; }
static void map_set(char *p, size_t n, u8 v) { memset(amap + (((u64)p - ARENA) >> 3), v, n >> 3); }
void *karena_alloc(size_t n, size_t align, void *pc) {
	Thread *t = G->cur;
	if (G->fail_alloc > 0 && --G->fail_alloc == 0) return 0;
	if (align < 16) align = 16;
	size_t rn = (n + 7) & ~7ull;
	char *p = (char *)(((u64)t->brk + 16 + align - 1) & ~(u64)(align - 1));
	if (p + rn + 16 > t->brk_end) { if (G->in_sim) violation("memory is asked for without end (thread %d)", t->id); internal_error("arena of thread %d exhausted", t->id); }
	t->brk = p + rn; if (t->brk > t->hi) t->hi = t->brk;
	if (nrecs >= MAXREC) { if (G->in_sim) violation("memory is asked for without end (%u allocations)", (unsigned)MAXREC); internal_error("too many allocations"); }
	u32 id = nrecs++; recs[id] = { p, n, pc, 1, (u8)t->id };
	((u32 *)p)[-1] = id; ((u32 *)p)[-2] = 0xA110C8ED;
	u64 g = ((u64)p - ARENA) >> 3; memset(amap + g, 0, rn >> 3); if (n & 7) amap[g + (n >> 3)] = n & 7; if (n == 0) {}
	/* forget access history */
	size_t clr = n < 4096 ? (rn >> 3) : 512; for (size_t i = 0; i < clr; i++) acells[g + i].stamp = 0;
	memset(p, 0xA5, n < 1024 ? n : 1024);
	G->live_n++; G->live_b += n;
	return p;
}
static AllocRec *rec_of(void *p) {
	if (!in_arena(p) || ((u64)p & 7)) return 0;
	if (((u32 *)p)[-2] != 0xA110C8ED) return 0;
	u32 id = ((u32 *)p)[-1]; if (id >= nrecs || recs[id].p != p) return 0;
	return &recs[id];
}
static std::string pcname(void *pc) { char b[64]; snprintf(b, sizeof b, "+0x%lx", (long)((char *)pc - text_base)); return b; }
void karena_free(void *p, void *pc) {
	if (!p) return;
	if (G->cur) G->cur->sp_addr = 0; /* progress: not a spin */
	if (!in_arena(p)) { violation("memory: free of a pointer that was not allocated (%p at %s)", p, pcname(pc).c_str()); }
	AllocRec *r = rec_of(p);
	if (!r) violation("memory: invalid free at %s", pcname(pc).c_str());
	if (!r->live) violation("memory: double free of a %zu-byte block at %s", r->n, pcname(pc).c_str());
	/* a free conflicts with every access to the block */
	size_t rn = (r->n + 7) & ~7ull;
	range_access(p, r->n < 512 ? r->n : 512, 1, pc);
	map_set((char *)p, rn, 0xFD); r->live = 0; G->live_n--; G->live_b -= r->n;
}
extern "C" size_t kmc_live_allocs(void) { return G->live_n; }
extern "C" size_t kmc_live_bytes(void) { return G->live_b; }
extern "C" void kmc_fail_alloc_after(int n) { G->fail_alloc = n; }
extern "C" void kmc_dump_live(void) { if (!G->replay) return; for (u32 i = 0; i < nrecs; i++) if (recs[i].live) ktrace("live block %p %zu bytes allocated at %s", recs[i].p, recs[i].n, pcname(recs[i].pc).c_str()); }

static void bad_access(const void *a, size_t n, int w, void *pc, u8 v) {
	const char *k = v == 0xFD ? "use after free" : v == 0xFA ? "access outside any allocation" : "access past the end of an allocation";
	violation("memory: %s: %s of %zu bytes at %s", k, w ? "write" : "read", n, pcname(pc).c_str());
}
static inline u32 pcoff(void *pc) { return (u32)((char *)pc - text_base) & (PCBITS - 1); }
static inline int is_promo(u32 o) { return (promo[o >> 6] >> (o & 63)) & 1; }
static void promote(u32 o) {
	if (is_promo(o) || ((visible_pcs[o >> 6] >> (o & 63)) & 1)) return;
	u64 b = 1ull << (o & 63);
	if (!(__atomic_fetch_or(&S->promo[o >> 6], b, __ATOMIC_RELAXED) & b)) S->promo_new++;
}
static inline void race_check(Cell *c, int write, u32 po) {
	Thread *t = G->cur; int id = t->id;
	if (c->stamp != (u32)G->stamp) { memset(c, 0, sizeof *c); c->stamp = G->stamp; c->wt = 0xff; }
	if (c->wt != 0xff && c->wt != id && c->wclk > t->vc.c[c->wt]) { promote(po); promote(c->wpc); }
	if (write) {
		for (int i = 0; i < G->nt; i++) if (i != id && c->rclk[i] > t->vc.c[i]) { promote(po); promote(c->rpc); break; }
		c->wt = id; c->wclk = t->vc.c[id]; c->wpc = po;
	} else { c->rclk[id] = t->vc.c[id]; c->rpc = po; }
}
static void memop(const void *a, int size, int write, int atomic, void *pc) {
	if (!G->in_sim) return;
	if (++G->accesses > 60000000ull) violation("livelock: runaway loop");
	u64 off = (u64)a - ARENA; Cell *cell;
	if (off < ARENA_SZ) {
		u64 g = off >> 3; u8 v = amap[g];
		if (v && (v >= 0x80 || (off & 7) + (size < 8 ? size : 8) > v)) bad_access(a, size, write, pc, v);
		if (size >= 8 && ((off & 7) || size > 8)) { u8 v2 = amap[(off + size - 1) >> 3]; if (v2 && (v2 >= 0x80 || ((off + size - 1) & 7) + 1 > v2)) bad_access(a, size, write, pc, v2); }
		cell = &acells[g];
	} else if ((u64)((char *)a - gstart) < (u64)(gend - gstart)) {
		if (write && G->cur) G->cur->sp_addr = 0;
		if (G->seq || !G->explore) return;
		Obj *o = obj((void *)((u64)a & ~7ull)); Thread *t = G->cur;
		seth(t, mix64(mix64(t->h, o->key), o->h + write)); if (write) o->h = t->h ^ 0x5bd1e995;
		return;
	} else if ((u64)((char *)a - dstart) < (u64)(dend - dstart)) cell = &dcells[((char *)a - dstart) >> 3];
	else return;
	if (G->seq) return;
	u32 po = pcoff(pc);
	if (atomic) { visible_pcs[po >> 6] |= 1ull << (po & 63); visible((void *)((u64)a & ~7ull), write, "atomic"); }
	else if (is_promo(po)) visible((void *)((u64)a & ~7ull), write, "shared");
	else if (G->cur->sp_addr && write) G->cur->sp_addr = 0;
	race_check(cell, write, po);
	if (size > 8 || ((u64)a & 7) + size > 8) for (u64 x = ((u64)a & ~7ull) + 8; x < (u64)a + size; x += 8) race_check(++cell, write, po);
}
void range_access(const void *p, size_t n, int write, void *pc) {
	if (!G->in_sim || !n) return;
	u64 a = (u64)p, e = a + n;
	u64 off = a - ARENA;
	if (off < ARENA_SZ) {
		for (u64 x = a & ~7ull; x < e; x += 8) { u8 v = amap[(x - ARENA) >> 3]; if (!v) continue; u64 hi = e - x < 8 ? e - x : 8; if (v >= 0x80 || hi > v) bad_access(p, n, write, pc, v); }
		if (G->seq) return;
		u32 po = pcoff(pc); if (is_promo(po)) visible((void *)(a & ~7ull), write, "shared-range");
		for (u64 x = a & ~7ull; x < e; x += 8) race_check(&acells[(x - ARENA) >> 3], write, po);
	} else if ((u64)(a - (u64)gstart) < (u64)(gend - gstart)) { for (u64 x = a & ~7ull; x < e; x += 8) memop((void *)x, 8, write, 0, pc);
	} else if (!G->seq && (u64)(a - (u64)dstart) < (u64)(dend - dstart)) {
		u32 po = pcoff(pc); if (is_promo(po)) visible((void *)(a & ~7ull), write, "shared-range");
		for (u64 x = a & ~7ull; x < e && x < (u64)dend; x += 8) race_check(&dcells[(x - (u64)dstart) >> 3], write, po);
	}
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define RW(N) void __tsan_read##N(void *a) { memop(a, N, 0, 0, RA); } void __tsan_write##N(void *a) { memop(a, N, 1, 0, RA); } \
 void __tsan_unaligned_read##N(void *a) { memop(a, N, 0, 0, RA); } void __tsan_unaligned_write##N(void *a) { memop(a, N, 1, 0, RA); } \
 void __tsan_volatile_read##N(void *a) { memop(a, N, 0, 1, RA); } void __tsan_volatile_write##N(void *a) { memop(a, N, 1, 1, RA); } \
 void __tsan_unaligned_volatile_read##N(void *a) { memop(a, N, 0, 1, RA); } void __tsan_unaligned_volatile_write##N(void *a) { memop(a, N, 1, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { range_access(a, n, 0, RA); }
void __tsan_write_range(void *a, size_t n) { range_access(a, n, 1, RA); }
#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { memop((void *)a, B / 8, 0, 1, RA); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { memop((void *)a, B / 8, v != 0, 1, RA); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { memop((void *)a, B / 8, v != 0, 1, RA); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { memop((void *)a, B / 8, 1, 1, RA); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

/* ---------------------------------------------------------------- libc memory */
void *__wrap_malloc(size_t n) { if (!G->in_sim) return malloc(n); return karena_alloc(n, 16, RA); }
void __wrap_free(void *p) { if (!in_arena(p)) { if (p && G->in_sim) { free(p); return; } free(p); return; } if (!G->in_sim) return; karena_free(p, RA); }
void *__wrap_calloc(size_t a, size_t b) { if (!G->in_sim) return calloc(a, b); void *p = karena_alloc(a * b, 16, RA); if (p) memset(p, 0, a * b); return p; }
void *__wrap_memalign(size_t al, size_t n) { return karena_alloc(n, al, RA); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return karena_alloc(n, al, RA); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = karena_alloc(n, al, RA); return *p ? 0 : ENOMEM; }
void *__wrap_realloc(void *p, size_t n) {
	if (!G->in_sim) return realloc(p, n);
	if (!p) return karena_alloc(n, 16, RA);
	AllocRec *r = rec_of(p); if (!r || !r->live) violation("memory: invalid realloc at %s", pcname(RA).c_str());
	void *q = karena_alloc(n, 16, RA); if (!q) return 0;
	memcpy(q, p, r->n < n ? r->n : n); karena_free(p, RA); return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; range_access(s, n, 0, RA); char *p = (char *)karena_alloc(n, 16, RA); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)karena_alloc(n + 1, 16, RA); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { range_access(s, n, 0, RA); range_access(d, n, 1, RA); return memmove(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range_access(s, n, 0, RA); range_access(d, n, 1, RA); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range_access(d, n, 1, RA); return memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { range_access(a, n, 0, RA); range_access(b, n, 0, RA); return memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { return (void *)memchr(a, c, n); }
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); range_access(s, n + 1, 0, RA); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; range_access(s, n, 0, RA); range_access(d, n, 1, RA); return strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { range_access(d, n, 1, RA); return strncpy(d, s, n); }
int __wrap_strcmp(const char *a, const char *b) { range_access(a, 1, 0, RA); range_access(b, 1, 0, RA); return strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (n) { range_access(a, 1, 0, RA); range_access(b, 1, 0, RA); } return strncmp(a, b, n); }
int __wrap_strcasecmp(const char *a, const char *b) { range_access(a, 1, 0, RA); range_access(b, 1, 0, RA); return strcasecmp(a, b); }

/* ---------------------------------------------------------------- failure exits */
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); if (!G->in_sim) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(3); } violation("assertion failed: %s (%s in %s)", e, b ? b + 1 : f, fn); }
void __wrap_abort(void) { if (!G->in_sim) abort(); violation("abort() called at %s", pcname(RA).c_str()); }
void __wrap_exit(int c) { if (!G->in_sim) exit(c); violation("exit(%d) called", c); }
void __wrap_perror(const char *s) { TRACE("perror %s: %s", s, strerror(errno)); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { if (G->in_sim) return 0; va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_printf(const char *fmt, ...) { if (G->in_sim) return 0; va_list ap; va_start(ap, fmt); int r = vprintf(fmt, ap); va_end(ap); return r; }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { if (G->in_sim) return 0; return vfprintf(f, fmt, ap); }
int __wrap_puts(const char *s) { return 0; }
int __wrap_fputs(const char *s, FILE *) { return 0; }
int __wrap_fputc(int c, FILE *) { return c; }
int __wrap_putchar(int c) { return c; }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (G->in_sim && (f == stderr || f == stdout)) return b; return fwrite(p, a, b, f); }

/* ---------------------------------------------------------------- time */
i64 wall_us() { return G->now + G->wall_off; }
static char clockobj;
static void clock_read() { if (G->in_sim && !G->seq) { Obj *o = obj(&clockobj); seth(G->cur, mix64(G->cur->h, (u64)wall_us() + o->key)); } }
int __wrap_gettimeofday(struct timeval *tv, void *) { clock_read(); i64 w = wall_us(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0; }
time_t __wrap_time(time_t *t) { clock_read(); time_t r = wall_us() / 1000000; if (t) *t = r; return r; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { clock_read(); i64 w = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall_us() : G->now; ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0; }
static void vsleep(i64 us) { visible((void *)"sleep", 0, "sleep"); G->cur->sp_addr = 0; block(0, 0, G->now + us, "sleep", 0); mixh(us); }
int __wrap_usleep(unsigned us) { vsleep(us); return 0; }
unsigned __wrap_sleep(unsigned s) { vsleep((i64)s * 1000000); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *) { vsleep((i64)a->tv_sec * 1000000 + a->tv_nsec / 1000); return 0; }
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *) { i64 t = (i64)a->tv_sec * 1000000 + a->tv_nsec / 1000; if (fl & TIMER_ABSTIME) t -= id == CLOCK_REALTIME ? wall_us() : G->now; vsleep(t > 0 ? t : 0); return 0; }
int __wrap_sched_yield(void) { kmc_yield(); return 0; }
void __wrap_srand(unsigned) {} int __wrap_rand(void) { return 4; }

/* ---------------------------------------------------------------- pthreads */
static int nkeys;
int __wrap_pthread_key_create(pthread_key_t *k, void (*)(void *)) { if (nkeys >= 64) internal_error("keys"); *k = nkeys++; return 0; }
int __wrap_pthread_key_delete(pthread_key_t k) { for (int i = 0; i < MAXT; i++) G->t[i].keys[k] = 0; return 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { return k < 64 ? (void *)G->cur->keys[k] : 0; }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= 64) return EINVAL; G->cur->keys[k] = v; return 0; }
/* uninstrumented libraries (OpenSSL): thread-specific data per simulated thread, virtual time */
struct RKeys { const void *v[64]; int touched; }; static RKeys rkeys[MAXT];
void *pthread_getspecific(pthread_key_t k) { static void *(*real)(pthread_key_t) = (void *(*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_getspecific"); if (G->in_sim && G->cur && k < 64 && (G->sc->flags & KMC_F_FORK)) return (void *)rkeys[G->cur->id].v[k]; return real(k); }
int pthread_setspecific(pthread_key_t k, const void *v) { static int (*real)(pthread_key_t, const void *) = (int (*)(pthread_key_t, const void *))dlsym(RTLD_NEXT, "pthread_setspecific"); if (G->in_sim && G->cur && k < 64 && (G->sc->flags & KMC_F_FORK)) { rkeys[G->cur->id].v[k] = v; return 0; } return real(k, v); }
time_t time(time_t *t) { time_t r; if (G->in_sim) r = wall_us() / 1000000; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; } if (t) *t = r; return r; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(0x7000 + G->cur->id * 16); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static Thread *tof(pthread_t p) { int i = ((long)p - 0x7000) / 16; if ((long)p < 0x7000 || i >= G->nt) return 0; return &G->t[i]; }
int __wrap_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { *(int *)a = (s == PTHREAD_CREATE_DETACHED); return 0; }
int __wrap_pthread_attr_setstacksize(pthread_attr_t *a, size_t s) { return 0; }
static char throbj[MAXT];
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	visible(&throbj[MAXT - 1], 1, "pthread_create");
	if ((G->sc->flags & KMC_F_THREADFAIL) && G->explore && kmc_deviate(2)) return EAGAIN;
	Thread *t = new_thread(fn, arg, "thread"); t->detached = a ? *(int *)a : 0; t->sigblock = G->cur->sigblock;
	t->vc = G->cur->vc; t->vc.c[t->id] = 1; G->cur->vc.c[G->cur->id]++;
	seth(t, mix64(t->h, G->cur->h));
	range_access(p, sizeof *p, 1, RA); *p = 0x7000 + t->id * 16; return 0;
}
int __wrap_pthread_detach(pthread_t p) { return 0; }
int __wrap_pthread_join(pthread_t p, void **r) {
	Thread *t = tof(p); if (!t) return ESRCH;
	visible(&throbj[t->id], 1, "join");
	block([](void *q) { return (int)(((Thread *)q)->state == 2); }, t, -1, "join", t);
	obj_op(obj(&throbj[t->id]), 1); vcjoin(G->cur->vc, t->vc);
	if (r) *r = t->ret; return 0;
}
void __wrap_pthread_exit(void *) { violation("pthread_exit called"); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { if (!objs) { memset(m, 0, sizeof *m); return 0; } range_access(m, 8, 1, RA); Obj *o = obj(m); o->owner = -1; o->a = 0; memset(m, 0, sizeof *m); return 0; }
struct MW { Obj *o; };
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	range_access(m, 1, 0, RA);
	visible(m, 1, "lock");
	Obj *o = obj(m);
	while (o->owner >= 0) block([](void *p) { return (int)(((Obj *)p)->owner < 0); }, o, -1, "mutex", m);
	obj_op(o, 1); o->owner = G->cur->id; return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	range_access(m, 1, 0, RA); visible(m, 1, "trylock"); Obj *o = obj(m);
	if (o->owner >= 0) return EBUSY; o->owner = G->cur->id; return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	range_access(m, 1, 0, RA);
	Obj *o = obj(m); TRACE("unlock %p", (void *)m);
	if (o->owner != G->cur->id) violation("mutex unlocked by a thread that does not hold it");
	o->owner = -1; obj_op(o, 1); G->cur->sp_addr = 0; return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { range_access(m, 1, 0, RA); Obj *o = obj(m); if (o->owner >= 0) violation("mutex destroyed while held"); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { range_access(c, 8, 1, RA); memset(c, 0, sizeof *c); Obj *o = obj(c); o->waiters = 0; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { range_access(c, 1, 0, RA); Obj *o = obj(c); if (o->waiters) violation("condition variable destroyed with waiters"); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline, void *ra) {
	range_access(c, 1, 0, ra); range_access(m, 1, 0, ra);
	visible(c, 1, "cond_wait");
	Obj *o = obj(c), *mo = obj(m); Thread *t = G->cur;
	if (mo->owner != t->id) violation("condition wait without holding the mutex");
	o->waiters |= 1ull << t->id; mo->owner = -1; obj_op(mo, 1);
	int spurious = (G->sc->flags & KMC_F_SPURIOUS) && G->explore ? kmc_deviate(2) : 0;
	struct W { Obj *o; int id; } w = { o, t->id };
	int r = 0;
	if (spurious) { TRACE("spurious wakeup"); o->waiters &= ~(1ull << t->id); obj_op(o, 1); sched_point(); }
	else { if (!block([](void *p) { W *w = (W *)p; return (int)!((w->o->waiters >> w->id) & 1); }, &w, deadline, "cond", c)) { r = ETIMEDOUT; o->waiters &= ~(1ull << t->id); } obj_op(o, 1); }
	while (mo->owner >= 0) block([](void *p) { return (int)(((Obj *)p)->owner < 0); }, mo, -1, "mutex", m);
	obj_op(mo, 1); mo->owner = t->id; return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1, RA); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, (i64)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 - G->wall_off, RA); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
	range_access(c, 1, 0, RA); visible(c, 1, "signal"); Obj *o = obj(c);
	int w[MAXT], n = 0; for (int i = 0; i < G->nt; i++) if ((o->waiters >> i) & 1) w[n++] = i;
	if (n) { int k = n > 1 && G->explore ? choose(n, CLS_FREE) : 0; mixh(k); o->waiters &= ~(1ull << w[k]); }
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { range_access(c, 1, 0, RA); visible(c, 1, "broadcast"); obj(c)->waiters = 0; return 0; }
/* rwlock: a = readers, owner = writer */
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { Obj *o = obj(m); o->owner = -1; o->a = 0; memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { visible(m, 1, "rdlock"); Obj *o = obj(m); while (o->owner >= 0) block([](void *p) { return (int)(((Obj *)p)->owner < 0); }, o, -1, "rwlock", m); obj_op(o, 1); o->a++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { visible(m, 1, "wrlock"); Obj *o = obj(m); while (o->owner >= 0 || o->a) block([](void *p) { Obj *o = (Obj *)p; return (int)(o->owner < 0 && !o->a); }, o, -1, "rwlock", m); obj_op(o, 1); o->owner = G->cur->id; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { Obj *o = obj(m); if (o->owner >= 0) o->owner = -1; else o->a--; obj_op(o, 1); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { visible(m, 1, "tryrdlock"); Obj *o = obj(m); if (o->owner >= 0) return EBUSY; o->a++; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { visible(m, 1, "trywrlock"); Obj *o = obj(m); if (o->owner >= 0 || o->a) return EBUSY; o->owner = G->cur->id; return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { visible((void *)m, 1, "spin_trylock"); Obj *o = obj((void *)m); if (o->owner >= 0) return EBUSY; o->owner = G->cur->id; return 0; }
int __wrap_pthread_setname_np(pthread_t, const char *) { return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int) { Obj *o = obj((void *)m); o->owner = -1; *m = 0; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { visible((void *)m, 1, "spin_lock"); Obj *o = obj((void *)m); while (o->owner >= 0) block([](void *p) { return (int)(((Obj *)p)->owner < 0); }, o, -1, "spinlock", (void *)m); obj_op(o, 1); o->owner = G->cur->id; return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { Obj *o = obj((void *)m); o->owner = -1; obj_op(o, 1); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int __wrap_sem_init(sem_t *s, int, unsigned v) { obj(s)->a = v; return 0; }
int __wrap_sem_destroy(sem_t *) { return 0; }
int __wrap_sem_post(sem_t *s) { visible(s, 1, "sem_post"); obj(s)->a++; return 0; }
int __wrap_sem_wait(sem_t *s) { visible(s, 1, "sem_wait"); Obj *o = obj(s); while (!o->a) block([](void *p) { return (int)(((Obj *)p)->a > 0); }, o, -1, "sem", s); obj_op(o, 1); o->a--; return 0; }
int __wrap_sem_trywait(sem_t *s) { visible(s, 1, "sem_try"); Obj *o = obj(s); if (!o->a) { errno = EAGAIN; return -1; } o->a--; return 0; }
int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) { visible(s, 1, "sem_timedwait"); Obj *o = obj(s); i64 dl = (i64)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 - G->wall_off; while (!o->a) if (!block([](void *p) { return (int)(((Obj *)p)->a > 0); }, o, dl, "sem", s)) { obj_op(o, 1); errno = ETIMEDOUT; return -1; } obj_op(o, 1); o->a--; return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { visible(s, 1, "sem_getvalue"); *v = (int)obj(s)->a; return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*(int *)o == 0) { *(int *)o = 1; f(); } return 0; }
/* signals */
static char sigobj[MAXT];
sighandler_t __wrap_signal(int, sighandler_t) { return SIG_DFL; }
int __wrap_pthread_sigmask(int how, const sigset_t *set, sigset_t *) {
	u64 m = *(const u64 *)set; Thread *t = G->cur;
	if (how == SIG_BLOCK) t->sigblock |= m; else if (how == SIG_UNBLOCK) { t->sigblock &= ~m; if (t->sigpend & m) { TRACE("pending signal handled (lost)"); } t->sigpend &= ~m; } else { t->sigblock = m; t->sigpend &= m; }
	obj_op(obj(&sigobj[t->id]), 1); return 0;
}
int __wrap_pthread_kill(pthread_t p, int sig) {
	Thread *t = tof(p); if (!t || t->state != 1) return ESRCH;
	visible(&sigobj[t->id], 1, "pthread_kill");
	u64 m = 1ull << (sig - 1);
	if (t->sigblock & m) t->sigpend |= m; else TRACE("signal handled by the ignore handler (lost)");
	return 0;
}
int __wrap_sigwait(const sigset_t *set, int *sig) {
	Thread *t = G->cur; u64 m = *(const u64 *)set;
	visible(&sigobj[t->id], 1, "sigwait");
	struct W { Thread *t; u64 m; } w = { t, m };
	block([](void *p) { W *w = (W *)p; return (int)!!(w->t->sigpend & w->m); }, &w, -1, "sigwait", 0);
	obj_op(obj(&sigobj[t->id]), 1);
	int s = __builtin_ctzll(t->sigpend & m) + 1; t->sigpend &= ~(1ull << (s - 1)); *sig = s; return 0;
}
}
/* ------------------------------------------------------------------ threads */
static void thread_exit() {
	Thread *t = G->cur; obj_op(obj(&throbj[t->id]), 1);
	t->state = 2; TRACE("thread exits");
	pick_next(); internal_error("dead thread resumed");
}
static void tramp() { Thread *t = G->cur; t->ret = t->fn(t->arg); if (t->id == 0) finish(1); thread_exit(); abort(); }
Thread *new_thread(void *(*fn)(void *), void *arg, const char *) {
	if (G->nt >= MAXT) endless("threads");
	Thread *t = &G->t[G->nt]; char *hi = t->hi; memset(t, 0, sizeof *t);
	t->id = G->nt++; t->state = 1; t->fn = fn; t->arg = arg; t->h = t->id + 1000; G->fp += mix64(t->h, t->id + 1);
	t->brk_base = (char *)ARENA + REGION * t->id; t->brk_end = t->brk_base + REGION - 4096;
	t->stk = t->brk_base; t->stk_sz = 512 * 1024; t->brk = t->brk_base + t->stk_sz + 64; t->hi = hi > t->brk ? hi : t->brk;
	map_set(t->stk, t->stk_sz, 0);
	u64 *sp = (u64 *)(t->stk + t->stk_sz - 64); *--sp = 0; *--sp = (u64)tramp; for (int i = 0; i < 6; i++) *--sp = 0; --sp; ((u32 *)sp)[0] = 0x1f80; ((u32 *)sp)[1] = 0x37f;
	t->sp = sp; t->vc.c[t->id] = 1;
	return t;
}
/* ------------------------------------------------------------------ one execution */
static sigjmp_buf crash_jb; static char crash_msg[256];
static void on_crash(int sig, siginfo_t *si, void *) {
	if (!G->in_sim) { const char m[] = "kmc: crash inside the engine\n"; syscall(SYS_write, 2, m, sizeof m - 1); if (S) { strcpy(S->imsg, "crash inside the engine"); S->internal = 1; S->stop = 1; } _exit(3); }
	if (sig == SIGALRM) snprintf(crash_msg, sizeof crash_msg, "hang: an execution ran for more than 20 s of CPU time without finishing");
	else snprintf(crash_msg, sizeof crash_msg, "crash: signal %d%s", sig, sig == SIGSEGV && (u64)si->si_addr < 65536 ? " (null pointer)" : "");
	siglongjmp(crash_jb, 1);
}
static void *thread0(void *) { G->sc->fn(); return 0; }
static void reset_exec() {
	if (dsave) { memcpy(dstart, dsave, dend - dstart); if (gend > gstart) memcpy(gstart, gsave, gend - gstart); }
	for (int i = 0; i < MAXT; i++) { Thread &t = G->t[i]; if (t.hi) { char *b = (char *)ARENA + REGION * i; memset(amap + ((b - (char *)ARENA) >> 3), 0xFA, (t.hi - b + 64) >> 3); t.hi = 0; } t.state = 0; }
	G->stamp++; G->nt = 0; G->cur = 0; G->now = 1000000ll * 1000; G->wall_off = 0; G->usedP = G->usedE = 0; G->trace.clear(); G->fp = 0; G->steps = G->accesses = 0;
	G->outcome = 0; G->msg.clear(); G->live_n = 0; G->live_b = 0; nrecs = 0; nkeys = 0; G->fail_alloc = 0; G->explore = 1; G->outcome_str.clear();
	G->seq = !!(G->sc->flags & KMC_F_SEQ); G->now = 0; G->wall_off = 1000000ll * 1000000;
	vk_reset();
}
static void run_one(const u16 *prefix, size_t plen) {
	reset_exec(); G->prefix = prefix; G->plen = plen;
	struct itimerval it = { { 0, 0 }, { 20, 0 } }; 
	static u64 cnt; if ((cnt++ & 1023) == 0 || G->replay || (G->sc->flags & KMC_F_FORK)) setitimer(ITIMER_PROF, &it, 0);
	Thread *t = new_thread(thread0, 0, "main");
	G->cur = t;
	if (sigsetjmp(crash_jb, 1) == 0) { G->in_sim = 1; kmc_swtch(&G->main_sp, t->sp); }
	else { G->in_sim = 0; G->outcome = 2; G->msg = crash_msg; TRACE("VIOLATION: %s", crash_msg); }
	G->in_sim = 0;
}
/* ------------------------------------------------------------------ explorer */
static void spin_lock(std::atomic<int> &l) { int e = 0; while (!l.compare_exchange_weak(e, 1)) { e = 0; sched_yield(); } }
static void spin_unlock(std::atomic<int> &l) { l = 0; }
static void record(const std::vector<Choice> &tr, int outcome) {
	S->execs++; S->trans += G->steps ? G->steps : tr.size(); S->choicepts += tr.size();
	if (tr.size() > S->maxtrace) S->maxtrace = tr.size();
	bool dev = false; for (auto &c : tr) if (c.c) { dev = true; break; }
	if (dev) S->devexecs++;
	if (outcome == 3) S->pruned++;
	if (outcome == 1 && !G->outcome_str.empty()) {
		u64 h = kmc_hash(G->outcome_str.data(), G->outcome_str.size(), 7);
		spin_lock(S->outlock); int i, n = S->nout; for (i = 0; i < n; i++) if (S->out[i].h == h) { S->out[i].n++; break; }
		if (i == n && n < 4096) { S->out[n].h = h; S->out[n].n = 1; snprintf(S->out[n].s, sizeof S->out[n].s, "%s", G->outcome_str.c_str()); S->nout = n + 1; }
		spin_unlock(S->outlock);
	}
	if (outcome == 1 && S->nsamp < 8 && (S->execs % 37 == 1)) { int k = S->nsamp++; if (k < 8) { std::string s; for (auto &c : tr) { s += std::to_string(c.c); s += ","; if (s.size() > 150) { s += "..."; break; } } snprintf(S->samp[k].s, sizeof S->samp[k].s, "choices=%s outcome=%s", s.c_str(), G->outcome_str.c_str()); } }
}
static void report_violation(const std::vector<Choice> &tr, const std::string &msg) {
	spin_lock(S->outlock);
	if (!S->viol) { S->viol = 1; snprintf(S->vmsg, sizeof S->vmsg, "%s", msg.c_str()); S->vlen = tr.size(); for (size_t i = 0; i < tr.size(); i++) S->vchoices[i] = tr[i].c; S->vP = G->boundP; S->vE = G->boundE; memcpy(S->vpromo, promo, PCBITS / 8); }
	spin_unlock(S->outlock); S->stop = 1;
}
static std::vector<std::pair<std::string, std::string>> known;
static bool is_known(const std::string &m) { for (size_t i = 0; i < known.size() && i < 64; i++) if (known[i].first == G->sc->name && known[i].second == m) { S->known[i]++; return true; } return false; }
typedef std::vector<u16> Item;
static void expand(const std::vector<Choice> &tr, size_t plen, std::vector<Item> &st) {
	for (size_t i = plen; i < tr.size(); i++) {
		const Choice &c = tr[i];
		if (c.cls == CLS_P && c.uP >= G->boundP) continue;
		if (c.cls == CLS_E && c.uE >= G->boundE) continue;
		for (int a = c.n - 1; a >= 1; a--) { Item it(i + 1); for (size_t j = 0; j < i; j++) it[j] = tr[j].c; it[i] = a; st.push_back(std::move(it)); }
	}
}
static void worker() {
	std::vector<Item> st; bool idle = false; u32 tick = 0;
	for (;;) {
		if (S->stop) return;
		if ((++tick & 15) == 0 && nowd() > S->deadline) { S->capped = 1; S->stop = 1; return; }
		if (st.empty()) {
			spin_lock(S->lock);
			int n = S->npool;
			if (n > 0) { n--; st.emplace_back(S->pool[n], S->pool[n] + S->poollen[n]); S->npool = n; if (idle) { idle = false; S->idle--; } spin_unlock(S->lock); }
			else { if (!idle) { idle = true; S->idle++; } bool done = S->idle == S->nworkers; spin_unlock(S->lock); if (done) return; if (nowd() > S->deadline) { S->capped = 1; S->stop = 1; return; } usleep(50); continue; }
		}
		Item it = std::move(st.back()); st.pop_back();
		if (G->sc->flags & KMC_F_FORK) {
			/* the child needs private result slot: use a per-worker mapping */
			static Shm *mine = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			mine->f_outcome = 0;
			pid_t p = fork();
			if (p == 0) {
				run_one(it.data(), it.size());
				mine->f_outcome = G->outcome; mine->f_n = G->trace.size(); for (size_t i = 0; i < G->trace.size(); i++) mine->f_tr[i] = G->trace[i]; mine->f_steps = G->steps;
				record(G->trace, G->outcome);
				if (G->outcome == 2 && !is_known(G->msg)) report_violation(G->trace, G->msg);
				_exit(0);
			}
			int stt; while (waitpid(p, &stt, 0) < 0 && errno == EINTR) {}
			if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) { if (S->stop) return; S->internal = 1; snprintf(S->imsg, sizeof S->imsg, "child ended abnormally (%d)", stt); S->stop = 1; return; }
			if (S->stop) return;
			std::vector<Choice> tr(mine->f_tr, mine->f_tr + mine->f_n); expand(tr, it.size(), st);
		} else {
			run_one(it.data(), it.size());
			if (G->trace.size() < it.size()) internal_error("run ended inside its prefix (%zu < %zu, outcome %d %s)", G->trace.size(), it.size(), G->outcome, G->msg.c_str());
			record(G->trace, G->outcome);
			if (G->outcome == 2 && !is_known(G->msg)) { report_violation(G->trace, G->msg); return; }
			expand(G->trace, it.size(), st);
		}
		if (st.size() > 1 && S->npool < 64 && S->idle > 0) {
			spin_lock(S->lock); size_t give = std::min<size_t>(st.size() / 2, 16), k = 0;
			while (k < give && S->npool < POOL_N) { Item &x = st[k]; int n = S->npool; memcpy(S->pool[n], x.data(), x.size() * 2); S->poollen[n] = x.size(); S->npool = n + 1; k++; }
			spin_unlock(S->lock);
			st.erase(st.begin(), st.begin() + k);
		}
	}
}
static std::vector<const kmc_scenario *> *scs;
extern "C" void kmc_register(const kmc_scenario *s) { if (!scs) scs = new std::vector<const kmc_scenario *>; scs->push_back(s); }
static std::string jesc(const char *s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((u8)*s < 32) o += ' '; else o += *s; } return o; }

struct Round { int P, E; u64 execs, states, trans, dev; bool complete; };
static int run_round(int P, int E, int nw, double deadline) {
	/* iterate until the set of racy program points visible to the scheduler is stable */
	for (int iter = 0; iter < 200; iter++) {
		memcpy(promo, S->promo, PCBITS / 8); S->promo_new = 0;
		if (madvise(vis, (vis_mask + 1) * 8, MADV_REMOVE)) memset((void *)vis, 0, (vis_mask + 1) * 8);
		S->stop = 0; S->internal = 0; S->lock = 0; S->outlock = 0; S->npool = 1; S->poollen[0] = 0; S->idle = 0; S->nworkers = nw; S->capped = 0; S->deadline = deadline;
		S->execs = S->pruned = S->trans = S->states = S->maxtrace = S->devexecs = S->choicepts = 0; S->nout = 0; S->nsamp = 0; S->viol = 0;
		G->boundP = P; G->boundE = E;
		std::vector<pid_t> ps; fflush(stdout);
		for (int w = 0; w < nw; w++) { pid_t p = fork(); if (p == 0) { worker(); _exit(0); } ps.push_back(p); }
		for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (!S->internal) { S->internal = 1; snprintf(S->imsg, sizeof S->imsg, "worker died with status %d", st); } S->stop = 1; } }
		if (S->viol) return 1;
		if (S->internal) return 3;
		if (S->capped) return 2;
		if (!S->promo_new) return 0;
	}
	snprintf(S->imsg, sizeof S->imsg, "promotion did not converge"); return 3;
}
#include <dlfcn.h>
#include <link.h>
extern "C" int kmc_main(int argc, char **argv, char *ds, char *de, char *gs, char *ge, char *tb) {
	const char *only = 0, *replay = 0, *tier = "quick", *out = 0, *vdir = "."; double budget = 0; int nw = 8, oP = -1, oE = -1, list = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--scenario") only = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--tier") tier = argv[++i];
		else if (a == "--out") out = argv[++i]; else if (a == "--vdir") vdir = argv[++i]; else if (a == "--budget") budget = atof(argv[++i]);
		else if (a == "-j") nw = atoi(argv[++i]); else if (a == "-P") oP = atoi(argv[++i]); else if (a == "-E") oE = atoi(argv[++i]); else if (a == "--list") list = 1;
		else if (a == "--known") { FILE *kf = fopen(argv[++i], "r"); char b[4096]; while (kf && fgets(b, sizeof b, kf)) { char *t = strchr(b, '\t'); if (!t) continue; *t = 0; std::string m = t + 1; if (!m.empty() && m.back() == '\n') m.pop_back(); known.push_back({ b, m }); } if (kf) fclose(kf); }
		else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
	}
	if (list) { for (auto s : *scs) puts(s->name); return 0; }
	setvbuf(stdout, 0, _IOLBF, 0);
	dstart = (char *)((u64)ds & ~7ull); dend = de; gstart = gs; gend = ge; text_base = tb;
	if (mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA) { perror("mmap arena"); return 3; }
	amap = (u8 *)mmap(0, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	acells = (Cell *)mmap(0, ARENA_SZ / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dcells = (Cell *)mmap(0, ((dend - dstart) / 8 + 16) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	objs = (Obj *)mmap(0, NOBJ * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	recs = (AllocRec *)mmap(0, MAXREC * sizeof(AllocRec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	promo = (u64 *)calloc(1, PCBITS / 8); visible_pcs = (u64 *)calloc(1, PCBITS / 8);
	S = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	vis_mask = (1ull << 26) - 1;
	vis = (std::atomic<u64> *)mmap(0, (vis_mask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (acells == MAP_FAILED || vis == MAP_FAILED || S == MAP_FAILED || amap == MAP_FAILED) { perror("mmap"); return 3; }
	for (int i = 0; i < MAXT; i++) G->t[i].hi = 0;
	/* the never-allocated state must read as 0xFA: mark lazily by region high-water marks */
	dsave = (char *)malloc(dend - dstart); memcpy(dsave, dstart, dend - dstart); gsave = (char *)malloc(gend - gstart + 1); memcpy(gsave, gstart, gend - gstart);
	/* prefill 8 MB per region: everything beyond is only reached by wild pointers */
	for (int i = 0; i < MAXT; i++) memset(amap + REGION * i / 8, 0xFA, (REGION < (24ull << 20) ? REGION : 24ull << 20) / 8);
	stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, 0);
	sa.sa_sigaction = [](int, siginfo_t *si, void *c) { if (G->in_sim) on_crash(SIGALRM, si, c); }; sigaction(SIGPROF, &sa, 0);
	signal(SIGPIPE, SIG_IGN);

	if (replay) {
		FILE *f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
		char line[1 << 16]; std::string name, msg; std::vector<u16> ch; int P = 0, E = 0;
		while (fscanf(f, "%31s", line) == 1) {
			if (!strcmp(line, "scenario")) { char b[256]; if (fscanf(f, "%255s", b) != 1) return 2; name = b; }
			else if (!strcmp(line, "bound")) { if (fscanf(f, "%d %d", &P, &E) != 2) return 2; }
			else if (!strcmp(line, "promo")) { int n; if (fscanf(f, "%d", &n) != 1) return 2; while (n--) { u32 o; if (fscanf(f, "%x", &o) != 1) return 2; promo[o >> 6] |= 1ull << (o & 63); } }
			else if (!strcmp(line, "choices")) { int n; if (fscanf(f, "%d", &n) != 1) return 2; while (n--) { int c; if (fscanf(f, "%d", &c) != 1) return 2; ch.push_back(c); } }
			else if (!strcmp(line, "message")) { if (!fgets(line, sizeof line, f)) return 2; msg = line + 1; if (!msg.empty() && msg.back() == '\n') msg.pop_back(); }
			else if (line[0] == '#') { if (!fgets(line, sizeof line, f)) break; }
		}
		fclose(f);
		for (auto s : *scs) if (name == s->name) G->sc = s;
		if (!G->sc) { fprintf(stderr, "no scenario %s\n", name.c_str()); return 2; }
		G->boundP = P; G->boundE = E; G->replay = getenv("KMC_QUIET") ? 2 : 1;
		if (G->replay == 2) G->replay = 0, G->nolog = 1;
		run_one(ch.data(), ch.size());
		printf("replay: scenario=%s outcome=%s message=%s\n", name.c_str(), G->outcome == 2 ? "VIOLATION" : G->outcome == 1 ? "ok" : "other", G->msg.c_str());
		/* addresses of shared libraries differ between processes */
		auto norm = [](const std::string &m) { std::string r; for (size_t i = 0; i < m.size(); i++) { if (m[i] == '0' && i + 1 < m.size() && m[i + 1] == 'x') { r += "0x"; for (i += 2; i < m.size() && isxdigit((unsigned char)m[i]); i++); i--; } else r += m[i]; } return r; };
		if (G->outcome == 2) return norm(G->msg) == norm(msg) ? 1 : 4;
		return 0;
	}
	FILE *fo = out ? fopen(out, "w") : stdout; if (!fo) { perror(out); return 2; }
	bool thorough = !strcmp(tier, "thorough"); int rc = 0, internal = 0; bool first = true;
	fprintf(fo, "[");
	int nsel = 0; for (auto s : *scs) if (!only || !strcmp(only, s->name)) nsel++;
	if (!nsel) { fprintf(stderr, "no scenario\n"); return 2; }
	double t_end = budget > 0 ? nowd() + budget : 1e18; int left = nsel;
	for (auto s : *scs) {
		if (only && strcmp(only, s->name)) continue;
		G->sc = s; double t0 = nowd(); double sdl = budget > 0 ? t0 + (t_end - t0) / left : 1e18; left--;
		memset(S->promo, 0, PCBITS / 8);
		const kmc_bound *bs = thorough ? s->thorough : s->quick; kmc_bound one[2] = { { oP, oE < 0 ? 0 : oE }, KMC_BOUNDS_END }; if (oP >= 0) bs = one;
		std::string rounds; int r = 0; bool capped = false; u64 totx = 0, tots = 0, tott = 0, totd = 0, totp = 0; std::string lastfull = "none"; int npromo = 0;
		std::string outs, samps; int nout = 0; u64 maxtr = 0; std::string lastr;
		for (; bs->P >= 0; bs++) {
			r = run_round(bs->P, bs->E, nw, sdl);
			totx += S->execs; tots += S->states; tott += S->trans; totd += S->devexecs; totp += S->pruned; if (S->maxtrace > maxtr) maxtr = S->maxtrace;
			char b[400]; snprintf(b, sizeof b, "%s{\"preemptions\":%d,\"deviations\":%d,\"executions\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,\"complete\":%s}", rounds.empty() ? "" : ",", bs->P, bs->E, (unsigned long long)S->execs, (unsigned long long)S->pruned, (unsigned long long)S->states, (unsigned long long)S->trans, r == 0 ? "true" : "false"); rounds += b;
			if (r == 3) { fprintf(stderr, "kmc: %s: internal error: %s\n", s->name, S->imsg); internal = 1; break; }
			if (S->nout) { nout = S->nout; outs.clear(); for (int i = 0; i < S->nout && i < 12; i++) { char c[256]; snprintf(c, sizeof c, "%s\"%s\"", i ? "," : "", jesc(S->out[i].s).c_str()); outs += c; } }
			if (S->nsamp) { samps.clear(); for (int i = 0; i < S->nsamp && i < 3; i++) { if (i) samps += ","; samps += "\"" + jesc(S->samp[i].s) + "\""; } }
			if (r == 2) { capped = true; break; }
			if (r == 1) break;
			snprintf(b, sizeof b, "P=%d,E=%d", bs->P, bs->E); lastfull = b;
		}
		if (r == 3) continue;
		for (u32 o = 0; o < PCBITS / 64; o++) npromo += __builtin_popcountll(S->promo[o]);
		double wall = nowd() - t0;
		fprintf(stderr, "kmc: %-28s %s execs=%llu states=%llu trans=%llu completed=%s outcomes=%d racy-pcs=%d maxlen=%llu%s %.2fs\n", s->name, r == 1 ? "VIOLATION" : "ok", (unsigned long long)totx, (unsigned long long)tots, (unsigned long long)tott, lastfull.c_str(), nout, npromo, (unsigned long long)maxtr, capped ? " CAPPED" : "", wall);
		std::string vfile;
		if (r == 1) {
			rc = 1; vfile = std::string(vdir) + "/" + s->name + ".replay";
			FILE *f = fopen(vfile.c_str(), "w"); if (!f) { perror(vfile.c_str()); return 3; }
			int np = 0; for (u32 o = 0; o < PCBITS; o++) if ((S->vpromo[o >> 6] >> (o & 63)) & 1) np++;
			fprintf(f, "scenario %s\nbound %d %d\nmessage %s\npromo %d", s->name, S->vP, S->vE, S->vmsg, np);
			for (u32 o = 0; o < PCBITS; o++) if ((S->vpromo[o >> 6] >> (o & 63)) & 1) fprintf(f, " %x", o);
			fprintf(f, "\nchoices %u", S->vlen); for (u32 i = 0; i < S->vlen; i++) fprintf(f, " %u", S->vchoices[i]); fprintf(f, "\n"); fclose(f);
			fprintf(stderr, "kmc: %s: %s\n", s->name, S->vmsg);
		}
		std::string kn; for (size_t i = 0; i < known.size() && i < 64; i++) if (S->known[i]) { kn += std::string(kn.empty() ? "" : ",") + "{\"message\":\"" + jesc(known[i].second.c_str()) + "\",\"executions\":" + std::to_string((u64)S->known[i]) + "}"; S->known[i] = 0; }
		fprintf(fo, "%s{\"known\":[%s],\"scenario\":\"%s\",\"result\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",\"executions\":%llu,\"pruned\":%llu,\"deviating\":%llu,\"states\":%llu,\"transitions\":%llu,\"bounds_completed\":\"%s\",\"capped\":%s,\"rounds\":[%s],\"outcomes\":%d,\"outcome_samples\":[%s],\"samples\":[%s],\"racy_points\":%d,\"longest\":%llu,\"wall_s\":%.3f}",
			first ? "" : ",\n", kn.c_str(), s->name, r == 1 ? "violation" : "ok", r == 1 ? jesc(S->vmsg).c_str() : "", vfile.c_str(), (unsigned long long)totx, (unsigned long long)totp, (unsigned long long)totd, (unsigned long long)tots, (unsigned long long)tott, lastfull.c_str(), capped ? "true" : "false", rounds.c_str(), nout, outs.c_str(), samps.c_str(), npromo, (unsigned long long)maxtr, wall);
		first = false;
	}
	fprintf(fo, "]\n"); if (fo != stdout) fclose(fo);
	return rc ? rc : internal ? 3 : 0; /* a violation found and replayed stands, whatever became of another scenario */
}
