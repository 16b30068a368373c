/* C01 fibers: every started fiber runs its function exactly once with the arguments given, every join
 * returns once, after the function returned, with its value; fiber, stack and join state are released. */
#include "common.h"
#define NF 3
GHOST static int runs[8], argsok[8], finished[8], joined[8], retv[8];
GHOST static size_t base_live; GHOST static int expect_main;
struct A { int id, how; };
static A as[8];
static int child(void *arg, int len);
static int leaf(void *arg, int len) { A *a = (A *)arg; runs[a->id]++; CHECK(len == 40 + a->id, "fiber got length %d", len); if (a->how) kfiber_msleep(a->how); finished[a->id] = 1; return 200 + a->id; }
static int child(void *arg, int len) {
	A *a = (A *)arg; CHECK(a >= as && a < as + 8, "wrong argument pointer"); runs[a->id]++;
	CHECK(len == 10 + a->id, "fiber %d got length %d", a->id, len);
	switch (a->how) {
	case 0: break;
	case 1: kfiber_msleep(2); break;
	case 2: kfiber_msleep(2 + a->id); break;
	case 3: { A *b = &as[a->id + 4]; b->id = a->id + 4; b->how = 0; kfiber *f = NULL; CHECK(kfiber_create(leaf, b, 40 + b->id, 0, &f) == 0, "create failed"); kfiber_msleep(1); int rv = -7; CHECK(kfiber_join(f, &rv) == 0 && rv == 200 + b->id, "nested join gave %d", rv); CHECK(finished[b->id], "join returned before the fiber finished"); break; }
	case 4: { A *b = &as[a->id + 4]; b->id = a->id + 4; b->how = 3; kfiber *f = NULL; CHECK(kfiber_create(leaf, b, 40 + b->id, 8192, &f) == 0, "create failed"); int rv = -7; CHECK(kfiber_join(f, &rv) == 0 && rv == 200 + b->id, "nested join gave %d", rv); CHECK(finished[b->id], "join returned before the fiber finished"); break; }
	}
	finished[a->id] = 1; return a->id == 2 ? -1 : 100 + a->id;
}
static int want(int id) { return id == 2 ? -1 : 100 + id; }
/* one selector: every combination of child behaviour and join order */
static int main1(void *arg, int len) {
	CHECK(len == 5, "main fiber got argc %d", len);
	int c0 = kfiber_get_count(); CHECK(c0 == 1, "fiber count %d with only the main fiber", c0);
	kfiber *f[NF];
	for (int i = 0; i < NF; i++) { as[i].id = i; as[i].how = kmc_choose(5); f[i] = NULL; CHECK(kfiber_create(child, &as[i], 10 + i, 0, &f[i]) == 0 && f[i], "create failed"); }
	int order[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; int o = kmc_choose(6), mode = kmc_choose(3);
	if (mode == 2) kfiber_msleep(10);
	for (int k = 0; k < NF; k++) {
		int i = order[o][k], rv = -99;
		if (mode == 1) { while (kfiber_try_join(f[i], &rv) != 0) { CHECK(rv == -99, "failed try_join stored %d", rv); kfiber_msleep(1); } }
		else CHECK(kfiber_join(f[i], &rv) == 0, "join failed");
		CHECK(finished[i], "join of fiber %d returned before it finished", i);
		CHECK(rv == want(i), "join of fiber %d gave %d, expected %d", i, rv, want(i)); joined[i]++;
	}
	for (int i = 0; i < 8; i++) CHECK(runs[i] == (i < NF ? 1 : as[i - 4 < NF ? i - 4 : 0].how >= 3 && i - 4 >= 0 && i - 4 < NF ? 1 : 0), "fiber %d ran %d times", i, runs[i]);
	kfiber_msleep(5);
	CHECK(kfiber_get_count() == 1, "%d fibers left", kfiber_get_count() - 1);
	return 77;
}
SCEN(f1_join_orders, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) {
	int r = kasync_main(main1, NULL, 5); CHECK(r == 77, "kasync_main returned %d", r); CHECK(kfiber_get_count() == 0, "fibers left: %d", kfiber_get_count());
	kmc_outcome("%d%d%d", as[0].how, as[1].how, as[2].how);
}
/* live memory returns to what it was */
static int main_leak(void *arg, int len) {
	kfiber_msleep(1); kfiber_msleep(1); base_live = kmc_live_allocs(); size_t b = kmc_live_bytes();
	for (int r = 0; r < 2; r++) {
		kfiber *f = NULL; A *a = &as[0]; a->id = 0; a->how = kmc_choose(3);
		int kind = kmc_choose(4);
		if (kind == 0) { kfiber_create(child, a, 10, 0, &f); int rv; kfiber_join(f, &rv); CHECK(rv == 100, "join gave %d", rv); }
		else if (kind == 1) { kfiber_create(child, a, 10, 0, NULL); }
		else if (kind == 2) { f = kfiber_new(child, a, 0); CHECK(f != NULL, "no fiber"); CHECK(runs[0] == 0, "a paused fiber ran"); kfiber_start(f, 10); int rv; kfiber_join(f, NULL); (void)rv; }
		else { kfiber_create(child, a, 10, 0, &f); kfiber_msleep(6); int rv; kfiber_join(f, &rv); CHECK(rv == 100, "late join gave %d", rv); }
		kfiber_msleep(350); CHECK(runs[0] == 1, "ran %d times", runs[0]); runs[0] = 0;
		kmc_dump_live();
		CHECK(kmc_live_allocs() == base_live && kmc_live_bytes() == b, "memory left behind by a finished, joined fiber: %zu blocks (%zu before)", kmc_live_allocs(), base_live);
	}
	return 0;
}
SCEN(f1_leak, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { kasync_main(main_leak, NULL, 0); }
/* join state can be observed by several parties: exit callbacks, a reference taken by the fiber itself */
GHOST static int cb_n, cb_got[4];
static kfiber *selfref;
static kev_result on_exit_cb(KOPAQUE d, void *arg, int got) { cb_n++; cb_got[(long)arg & 3] = got; CHECK(finished[0], "exit callback before the function returned"); return kev_ok; }
static int selfchild(void *arg, int len) {
	int n = kmc_choose(3); for (int i = 0; i < n; i++) kfiber_exit_callback(NULL, on_exit_cb, (void *)(long)i);
	if (kmc_choose(2)) { selfref = kfiber_ref_self(kmc_choose(2)); }
	if (kmc_choose(2)) kfiber_msleep(2);
	cb_got[3] = n; finished[0] = 1; return 55;
}
static int main_cb(void *arg, int len) {
	kfiber_msleep(1); size_t b = kmc_live_allocs();
	kfiber_create(selfchild, NULL, 0, 0, NULL);
	if (kmc_choose(2)) kfiber_msleep(4);
	if (selfref) { int rv = 0; kfiber_join(selfref, &rv); CHECK(rv == 55, "join through a self reference gave %d", rv); CHECK(finished[0], "join returned early"); }
	kfiber_msleep(350); CHECK(cb_n == cb_got[3], "%d of %d exit callbacks", cb_n, cb_got[3]); for (int i = 0; i < cb_n; i++) CHECK(cb_got[i] == 55, "exit callback got %d", cb_got[i]);
	CHECK(kmc_live_allocs() == b, "memory left behind: %zu vs %zu", kmc_live_allocs(), b); return 0;
}
SCEN(f1_exit_callbacks, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { kasync_main(main_cb, NULL, 0); kmc_outcome("cb=%d", cb_n); }
/* two selectors: a fiber on one joins fibers that run on the other */
static int xchild(void *arg, int len) { A *a = (A *)arg; runs[a->id]++; CHECK(len == 10 + a->id, "fiber %d got length %d", a->id, len); CHECK(sel_index() == a->how, "fiber ran on selector %d, created on %d", sel_index(), a->how); if (a->id == 1) kfiber_msleep(1); finished[a->id] = 1; return 100 + a->id; }
static int xparent(void *arg, int len) {
	kfiber *f[2];
	for (int i = 0; i < 2; i++) { as[i].id = i; as[i].how = len ? (i + 1) & 1 : 1; CHECK(kfiber_create2(SEL(as[i].how), xchild, &as[i], 10 + i, 0, &f[i]) == 0, "create failed"); }
	for (int i = 1; i >= 0; i--) { int rv = -1; CHECK(kfiber_join(f[i], &rv) == 0, "join failed"); CHECK(finished[i], "join returned before the fiber finished"); CHECK(rv == 100 + i, "join gave %d", rv); joined[i]++; }
	rt_done(); return 0;
}
static void xfinish(int n) {
	rt_wait(n); rt_settle(300); for (int i = 0; i < 2; i++) CHECK(runs[i] == 1, "fiber %d ran %d times", i, runs[i]);
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count()); kmc_dump_live(); CHECK(kmc_live_allocs() == base_live, "memory left behind: %zu vs %zu", kmc_live_allocs(), base_live); kmc_end();
}
SCEN(f2_join_across, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) { rt_start(2); base_live = kmc_live_allocs(); kfiber_create2(SEL(0), xparent, NULL, 0, 0, NULL); xfinish(1); }
SCEN(f2_join_mixed, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) { rt_start(2); base_live = kmc_live_allocs(); kfiber_create2(SEL(0), xparent, NULL, 1, 0, NULL); xfinish(1); }
/* a plain thread starts a fiber and joins it synchronously */
SCEN(f2_create_sync, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) {
	rt_start(2); base_live = kmc_live_allocs(); kfiber *f[2];
	for (int i = 0; i < 2; i++) { as[i].id = i; as[i].how = i; kselector *s = get_perfect_selector(); (void)s; }
	for (int i = 0; i < 2; i++) { f[i] = NULL; as[i].how = -1; }
	struct L { static int fn(void *arg, int len) { A *a = (A *)arg; runs[a->id]++; CHECK(len == 10 + a->id, "length %d", len); CHECK(sel_index() >= 0, "not on a selector"); if (a->id) kfiber_msleep(1); finished[a->id] = 1; return 100 + a->id; } };
	for (int i = 0; i < 2; i++) CHECK(kfiber_create_sync(L::fn, &as[i], 10 + i, 0, &f[i]) == 0, "create failed");
	for (int i = 0; i < 2; i++) { int rv = -1; kfiber_join(f[i], &rv); CHECK(finished[i], "join returned before the fiber finished"); CHECK(rv == 100 + i, "join gave %d", rv); }
	xfinish(0);
}
/* polling join on fibers of the other selector */
static int tparent(void *arg, int len) {
	kfiber *f[2];
	for (int i = 0; i < 2; i++) { as[i].id = i; as[i].how = i; CHECK(kfiber_create2(SEL(i), xchild, &as[i], 10 + i, 0, &f[i]) == 0, "create failed"); }
	for (int i = 0; i < 2; i++) { int rv = -99; while (kfiber_try_join(f[i], &rv) != 0) { CHECK(rv == -99, "failed try_join stored a value"); kfiber_msleep(1); } CHECK(finished[i], "join returned before the fiber finished"); CHECK(rv == 100 + i, "join gave %d", rv); }
	rt_done(); return 0;
}
SCEN(f2_try_join, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) { rt_start(2); base_live = kmc_live_allocs(); kfiber_create2(SEL(0), tparent, NULL, 0, 0, NULL); xfinish(1); }
/* joining by callback, from the event loop itself: before, while and after the fiber ends, on its own loop or another */
static kev_result jcb(KOPAQUE d, void *arg, int got) {
	int i = (int)(long)arg; CHECK((long)d == 70 + i, "join callback data"); CHECK(sel_index() == 0, "join callback ran on selector %d", sel_index()); CHECK(finished[i], "join callback before the fiber finished"); CHECK(got == 100 + i, "join callback of fiber %d got %d", i, got); joined[i]++; rt_done(); return kev_ok;
}
static kfiber *jf[2];
static kev_result jlate(KOPAQUE, void *arg, int) { int i = (int)(long)arg; return kfiber_join2(jf[i], (KOPAQUE)(70L + i), jcb, arg); }
static kev_result jstart(KOPAQUE, void *arg, int len) {
	for (int i = 0; i < 2; i++) { as[i].id = i; as[i].how = len ? i ^ (len - 1) : 0; CHECK(kfiber_create2(SEL(as[i].how), xchild, &as[i], 10 + i, 0, &jf[i]) == 0, "create failed"); }
	for (int i = 0; i < 2; i++) if (arg) kselector_add_timer(kgl_get_tls_selector(), jlate, (void *)(long)i, (int)(long)arg, NULL); else jlate(NULL, (void *)(long)i, 0);
	return kev_ok;
}
#define J2(id, arg, len) SCEN(id, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) { rt_start(2); base_live = kmc_live_allocs(); kgl_selector_module.next(SEL(0), NULL, jstart, (void *)(long)arg, len); xfinish(2); }
J2(f2_join2_own, 0, 0)
J2(f2_join2_own_late, 30, 0)
J2(f2_join2_across, 0, 1)
J2(f2_join2_across_late, 30, 1)
J2(f2_join2_across_at_end, 1, 2)
/* how a fiber is made x what it does before it suspends for the first time (exit callbacks, references to itself) x when it is joined */
GHOST static int md_kind, md_cbs, md_refs, md_pos, md_fin, md_told, md_sum; static kfiber *md_ref[2];
static kev_result md_cb(KOPAQUE d, void *arg, int got) { CHECK((long)d == 5 + (long)arg, "exit callback %ld got other data", (long)arg); CHECK(md_fin, "exit callback before the function returned"); CHECK(got == 61, "exit callback got %d", got); md_told++; md_sum += 1 << (2 * (long)arg); return kev_ok; }
static int md_body(void *arg, int len) {
	CHECK(arg == &md_kind && len == 9, "fiber got other arguments (%d)", len);
	if (md_pos == 1) kfiber_msleep(2);
	for (int i = 0; i < md_cbs; i++) kfiber_exit_callback((KOPAQUE)(5L + i), md_cb, (void *)(long)i);
	for (int i = 0; i < md_refs; i++) { md_ref[i] = kfiber_ref_self(i == 1); CHECK(md_ref[i] == kfiber_self2(), "a reference to another fiber"); }
	if (md_pos == 2) kfiber_msleep(2);
	md_fin++; return 61;
}
static int md_main(void *arg, int len) {
	kfiber_msleep(1); kfiber_msleep(1);
	for (int round = 0; round < 2; round++) {
		md_kind = kmc_choose(5); md_cbs = kmc_choose(3); md_refs = kmc_choose(3); md_pos = kmc_choose(3); int when = kmc_choose(3); md_told = md_sum = md_fin = 0; size_t b = kmc_live_allocs();
		kfiber *f[3] = { NULL, NULL, NULL }; int n = 0;
		switch (md_kind) {
		case 0: f[n++] = kfiber_new(md_body, &md_kind, 0); CHECK(f[0] && !md_fin, "a fiber not started"); CHECK(kfiber_start(f[0], 9) == 0, "start failed"); break;
		case 1: CHECK(kfiber_create(md_body, &md_kind, 9, 0, &f[n++]) == 0, "create failed"); break;
		case 2: CHECK(kfiber_create(md_body, &md_kind, 9, 0, NULL) == 0, "create failed"); break;
		case 3: CHECK(kfiber_create2(kgl_get_tls_selector(), md_body, &md_kind, 9, 8192, &f[n++]) == 0, "create failed"); break;
		case 4: CHECK(kfiber_create2(kgl_get_tls_selector(), md_body, &md_kind, 9, 8192, NULL) == 0, "create failed"); break;
		}
		if (md_pos == 1) { if (when == 0) when = 1; kfiber_msleep(when == 1 ? 150 : 300); }
		else if (when == 2) kfiber_msleep(300);
		for (int i = 0; i < md_refs; i++) { CHECK(md_ref[i] != NULL, "no reference to itself"); f[n++] = md_ref[i]; md_ref[i] = NULL; }
		bool up = kmc_choose(2);
		for (int i = 0; i < n; i++) {
			kfiber *g = f[up ? i : n - 1 - i]; int rv = -9;
			if (i == 1) { while (kfiber_try_join(g, &rv) != 0) { CHECK(rv == -9, "a failed try-join stored %d", rv); kfiber_msleep(1); } }
			else CHECK(kfiber_join(g, &rv) == 0, "join failed");
			CHECK(md_fin == 1, "join returned before the fiber finished"); CHECK(rv == 61, "join gave %d", rv);
		}
		kfiber_msleep(350); CHECK(md_fin == 1, "the fiber ran %d times", md_fin);
		CHECK(md_told == md_cbs && md_sum == (md_cbs > 1 ? 5 : md_cbs), "%d of %d exit callbacks told", md_told, md_cbs);
		CHECK(kfiber_get_count() == 1, "%d fibers left", kfiber_get_count() - 1); CHECK(kmc_live_allocs() == b, "memory left behind: %zu vs %zu", kmc_live_allocs(), b);
	}
	return 0;
}
SCEN(f1_made, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { kasync_main(md_main, NULL, 0); kmc_outcome("%d%d%d%d", md_kind, md_cbs, md_refs, md_pos); }
/* a fiber hands references to itself to fibers of other loops, which join it */
GHOST static int sr_end, sr_n;
static int sr_join(void *arg, int len) {
	int rv = -9; CHECK(sel_index() == len, "joiner on selector %d", sel_index());
	CHECK(kfiber_join((kfiber *)arg, &rv) == 0, "join failed"); CHECK(sr_end, "join returned before the fiber finished"); CHECK(rv == 34, "join through a self reference gave %d", rv); rt_done(); return 0;
}
static kev_result sr_cb(KOPAQUE d, void *arg, int got) { CHECK(sr_end && got == 34, "exit callback got %d", got); CHECK(sel_index() == 1, "exit callback on selector %d", sel_index()); joined[0]++; return kev_ok; }
static int sr_body(void *arg, int len) {
	int first = len & 1, second = len >> 1 & 1;
	kfiber *f = kfiber_ref_self(true); CHECK(kfiber_create2(SEL(first), sr_join, f, first, 0, NULL) == 0, "create failed");
	if (len & 4) { f = kfiber_ref_self(true); CHECK(kfiber_create2(SEL(second), sr_join, f, second, 0, NULL) == 0, "create failed"); }
	if (len & 8) kfiber_exit_callback(NULL, sr_cb, NULL);
	if (len & 16) kfiber_msleep(1);
	sr_end = 1; return 34;
}
#define SR(id, len, n) SCEN(id, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 4000, 0, 0) { rt_start(2); base_live = kmc_live_allocs(); runs[0] = runs[1] = 1; CHECK(kfiber_create2(SEL(1), sr_body, NULL, len, 0, NULL) == 0, "create failed"); rt_wait(n); rt_settle(200); CHECK(joined[0] == (len & 8 ? 1 : 0), "%d exit callbacks", joined[0]); xfinish(n); }
SR(f2_self_ref, 0, 1)
SR(f2_self_ref_twice, 4 + 0, 2)
SR(f2_self_ref_mixed, 4 + 2 + 16, 2)
SR(f2_self_ref_callback, 8, 1)
/* a crowd: nothing depends on how many fibers there are */
#define CROWD 300
GHOST static int cr_runs[CROWD], cr_done[CROWD], cr_join[CROWD], cr_exit;
static kfiber *cr_f[CROWD];
static int cr_body(void *arg, int len) { int i = (int)(long)arg; CHECK(len == i + 7, "fiber %d got length %d", i, len); cr_runs[i]++; kfiber_msleep(1 + i % 5); cr_done[i]++; return 1000 + i; }
static int cr_joiner(void *arg, int k) { for (int i = k; i < CROWD; i += 3) { int rv = -1; CHECK(kfiber_join(cr_f[i], &rv) == 0 && rv == 1000 + i, "join of fiber %d gave %d", i, rv); CHECK(cr_done[i] == 1, "join of %d before its end", i); cr_join[i]++; } rt_done(); return 0; }
static kev_result cr_cb(KOPAQUE, void *arg, int got) { CHECK(got == 1000, "exit callback got %d", got); cr_exit++; return kev_ok; }
static int cr_many_cb(void *, int n) { for (int i = 0; i < n; i++) { CHECK(kfiber_exit_callback(NULL, cr_cb, (void *)(long)i) == 0, "exit callback refused"); } kfiber_msleep(2); return 1000; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 9000, 1, 0) {
	rt_start(2); rt_mark();
	for (int i = 0; i < CROWD; i++) CHECK(kfiber_create2(SEL(i & 1), cr_body, (void *)(long)i, i + 7, 4096, &cr_f[i]) == 0 && cr_f[i], "create %d failed", i);
	for (int k = 0; k < 3; k++) kfiber_create2(SEL(k & 1), cr_joiner, NULL, k, 0, NULL);
	rt_wait(3); for (int i = 0; i < CROWD; i++) CHECK(cr_runs[i] == 1 && cr_join[i] == 1, "fiber %d ran %d times", i, cr_runs[i]);
	kfiber_create2(SEL(0), cr_many_cb, NULL, CROWD, 0, NULL); rt_settle(300); CHECK(cr_exit == CROWD, "%d of %d exit callbacks", cr_exit, CROWD);
	rt_check_released("crowd"); CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count()); kmc_end();
}
/* a fiber has the whole stack it asked for to itself, whatever the size, also while it waits */
GHOST static int st_runs;
__attribute__((noinline, no_sanitize("thread"))) static int st_use(int bytes, int id) {
	volatile unsigned char *p = (volatile unsigned char *)__builtin_alloca(bytes);
	for (int i = 0; i < bytes; i += 128) p[i] = (unsigned char)(i / 128 * 7 + id);
	p[bytes - 1] = 0xA5; kfiber_msleep(2); CHECK(p[bytes - 1] == 0xA5, "fiber %d: its stack was overwritten at the end", id);
	for (int i = 0; i + 128 < bytes; i += 128) CHECK(p[i] == (unsigned char)(i / 128 * 7 + id), "fiber %d: its stack was overwritten at %d of %d", id, i, bytes);
	return 500 + id;
}
static const int st_sizes[] = { 0, 1, 4095, 4096, 5000, 8192, 65535, 65536, 100000, 1 << 18, 1 << 20, (1 << 20) + 5, 4 << 20, 16 << 20 };
static int st_body(void *arg, int id) { int sz = (int)(long)arg / 4096 * 4096; if (sz == 0) sz = 65536; st_runs++; return st_use(sz > 8192 ? sz - 6144 : 1024, id); }
static int st_main(void *, int) {
	int n = sizeof st_sizes / sizeof *st_sizes, a = kmc_choose(n), b = kmc_choose(n); kfiber *f[2]; long z[2] = { st_sizes[a], st_sizes[b] };
	for (int i = 0; i < 2; i++) { f[i] = NULL; CHECK(kfiber_create(st_body, (void *)z[i], i + 1, (int)z[i], &f[i]) == 0 && f[i], "no fiber with a stack of %ld", z[i]); }
	for (int i = 0; i < 2; i++) { int rv = -1; CHECK(kfiber_join(f[i], &rv) == 0 && rv == 501 + i, "fiber with a stack of %ld gave %d", z[i], rv); }
	CHECK(st_runs == 2, "%d of 2 fibers ran", st_runs); kmc_outcome("%d %d", a, b); return 3;
}
SCEN(f1_stacks, B({0,0}), B({0,0}), 5000, 0, KMC_F_SEQ) { int r = kasync_main(st_main, NULL, 0); CHECK(r == 3, "kasync_main returned %d", r); }
/* arguments, argument counts and results of every size */
GHOST static int va_n;
static kev_result va_cb(KOPAQUE d, void *arg, int got) { int k = (int)(long)arg; CHECK(d == WIDE(k), "exit callback got other data"); CHECK(got == g_values[k], "a fiber returned %d, its exit callback got %d", g_values[k], got); va_n++; return kev_ok; }
static int va_body(void *a, int n) { int k = *(int *)a, m = (k * 5 + 3) % NVALUES; CHECK(n == g_values[m], "argument count %d instead of %d", n, g_values[m]); CHECK(kfiber_exit_callback(WIDE(k), va_cb, (void *)(long)k) == 0, "exit callback"); if (k & 1) kfiber_msleep(1); return g_values[k]; }
static int va_wide(void *a, int n) { CHECK(a == WIDE(n), "argument %p instead of %p", a, WIDE(n)); return g_values[n]; }
static int va_main(void *a, int n) {
	for (int i = 0; i < NVALUES; i++) for (int late = 0; late < 2; late++) { kfiber *f = NULL; int k = i, rv = -9; CHECK(kfiber_create(va_body, &k, g_values[(i * 5 + 3) % NVALUES], 0, &f) == 0, "create"); if (late) kfiber_msleep(3); CHECK(kfiber_join(f, &rv) == 0 && rv == g_values[i], "a fiber returned %d, its join gave %d", g_values[i], rv); }
	for (int i = 0; i < NVALUES; i++) { kfiber *f = NULL; int rv = -9; CHECK(kfiber_create(va_wide, WIDE(i), i, 0, &f) == 0, "create"); CHECK(kfiber_join(f, &rv) == 0 && rv == g_values[i], "join gave %d", rv); }
	kfiber_msleep(2); CHECK(va_n == 2 * NVALUES, "%d exit callbacks", va_n); return n;
}
SCEN(f1_values, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { int k = kmc_choose(NVALUES), r = kasync_main(va_main, NULL, g_values[k]); CHECK(r == g_values[k], "kasync_main returned %d instead of %d", r, g_values[k]); kmc_outcome("%d", k); }
