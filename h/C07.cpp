/* timers and ticks of an event loop: each timer fires exactly once, not before its time, in due order, promptly;
 * timers may be added from timer callbacks; a backward step of the wall clock does not delay them; ticks run
 * every round and may be registered and closed at any time, also from tick callbacks. */
#include "common.h"
#define LATE 250
GHOST static int n_timers, n_fired; GHOST static int64_t due_cache[64], due_real[64]; GHOST static int fired[64]; GHOST static int64_t last_due; GHOST static int stepped, adjusted;
static int max_timers, nest;
static kev_result on_timer(KOPAQUE data, void *arg, int got);
static const int delays[6] = { 0, 40, 101, 101, 150, 320 };
static void add(int delay) {
	int id = n_timers++; due_cache[id] = kgl_current_msec + delay; due_real[id] = kmc_now_us() / 1000 + delay;
	CHECK(kselector_add_timer(kgl_get_tls_selector(), on_timer, (void *)(long)id, delay, (KOPAQUE)(long)(900 + id)) == 0, "add failed");
}
static kev_result on_timer(KOPAQUE data, void *arg, int got) {
	int id = (int)(long)arg; CHECK(id >= 0 && id < n_timers && (long)data == 900 + id && got == 0, "timer arguments");
	fired[id]++; n_fired++; CHECK(fired[id] == 1, "timer %d fired %d times", id, fired[id]);
	if (!stepped) { CHECK(kgl_current_msec >= due_cache[id], "timer %d fired %d ms early", id, (int)(due_cache[id] - kgl_current_msec));
		int late = (int)(kmc_now_us() / 1000 - due_real[id]); CHECK(late <= LATE, "timer %d fired %d ms late", id, late); }
	else { int late = (int)(kmc_now_us() / 1000 - due_real[id]); CHECK(late <= 1000 + LATE, "timer %d fired %d ms late after the clock was stepped", id, late); CHECK(late >= -1100, "timer %d fired %d ms early after the clock was stepped", id, -late); }
	if (nest && n_timers < max_timers) { int k = kmc_choose(4); if (k < 3) { static const int nd[3] = { 0, 60, 250 }; add(nd[k]); } }
	return kev_ok;
}
static kev_result on_order(KOPAQUE data, void *arg, int got) { int id = (int)(long)arg; CHECK(due_cache[id] >= last_due, "timer due at +%d ran after the one due at +%d", (int)(due_cache[id] % 10000), (int)(last_due % 10000)); last_due = due_cache[id]; fired[id]++; n_fired++; CHECK(fired[id] == 1, "fired twice"); CHECK(kgl_current_msec >= due_cache[id], "early"); return kev_ok; }
static kev_result setup(KOPAQUE, void *, int n) { for (int i = 0; i < n; i++) add(delays[kmc_choose(6)]); return kev_ok; }
static kev_result setup_order(KOPAQUE, void *arg, int n) {
	int gran = (int)(long)arg;
	for (int i = 0; i < n; i++) { int d = kmc_choose(gran) * 7; int id = n_timers++; due_cache[id] = kgl_current_msec + d; kselector_add_timer(kgl_get_tls_selector(), on_order, (void *)(long)id, d, NULL); }
	return kev_ok;
}
static void fin(int min) { rt_settle(900 + LATE); CHECK(n_fired == n_timers && n_timers >= min, "%d of %d timers fired", n_fired, n_timers); rt_check_released("timers"); kmc_outcome("%d", n_fired); kmc_end(); }
SCEN(delays5, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup, NULL, 5); fin(5); }
SCEN(order6, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup_order, (void *)6L, 6); fin(6); }
SCEN(order7, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup_order, (void *)4L, 7); fin(7); }
SCEN(order8, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup_order, (void *)6L, 8); fin(8); }
SCEN(nested, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); nest = 1; max_timers = 8; kgl_selector_module.next(SEL(0), NULL, setup, NULL, 2); rt_settle(2500); fin(2); }
SCEN(nested10, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); nest = 1; max_timers = 10; kgl_selector_module.next(SEL(0), NULL, setup, NULL, 3); rt_settle(3000); fin(3); }
/* clock stepped at any 37-ms boundary while timers are pending */
static void clock_steps(int n) {
	static const int64_t back[5] = { 400, 1500, 3600000, 86400000LL * 400, 5000 };
	rt_settle(0);
	for (int i = 0; i < n; i++) { int at = kmc_choose(4), k = kmc_choose(5); usleep(37000 * at + 1000); struct timeval tv; gettimeofday(&tv, 0); stepped++; kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec - back[k] * 1000); }
}
#include <sys/time.h>
SCEN(clock_back, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup, NULL, 3); usleep(100); clock_steps(1); usleep(1200000); fin(3); }
SCEN(clock_back_2sel, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { rt_start(2); rt_mark(); kgl_selector_module.next(SEL(1), NULL, setup, NULL, 2); kgl_selector_module.next(SEL(0), NULL, setup, NULL, 1); usleep(100); clock_steps(1); usleep(1200000); fin(3); }
SCEN(clock_back_twice, B({0,0}), B({0,0}), 12000, 0, KMC_F_SEQ) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, setup, NULL, 2); usleep(100); clock_steps(2); usleep(2200000); fin(2); }
static int main_back(void *, int n) { for (int i = 0; i < n; i++) { int64_t t0 = kmc_now_us(); if (i == 1) { struct timeval tv; gettimeofday(&tv, 0); kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec - (kmc_choose(2) ? 7000 : 3600000) * 1000LL); } kfiber_msleep(150); int64_t d = (kmc_now_us() - t0) / 1000; CHECK(d <= 1150 + LATE, "sleep of 150 ms took %lld ms", (long long)d); n_fired++; } return 5; }
SCEN(clock_back_main, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { kmc_explore(0); CHECK(kasync_main(main_back, NULL, 3) == 5, "ret"); CHECK(n_fired == 3, "sleeps"); kmc_end(); }
/* the step and its consequences interleaved with the other loop's work: timers waiting there, timers added there meanwhile */
static const char *early_msg; static int late_add;
static kev_result on_long(KOPAQUE, void *arg, int) {
	int id = (int)(long)arg; int64_t off = kmc_now_us() / 1000 - due_real[id]; fired[id]++; n_fired++; CHECK(fired[id] == 1, "timer %d fired %d times", id, fired[id]);
	CHECK(off <= 1000 + LATE, "a timer fired late after the clock was stepped"); if (off < -1100) CHECK(0, "%s", id ? "a timer added while the clock was stepped fired early" : "a timer waiting while the clock was stepped fired early"); return kev_ok;
}
static kev_result add_long(KOPAQUE, void *arg, int) { int id = n_timers++; due_real[id] = kmc_now_us() / 1000 + 3000; kselector_add_timer(kgl_get_tls_selector(), on_long, (void *)(long)id, 3000, NULL); return kev_ok; }
static int64_t before_step; __attribute__((no_sanitize("thread"))) static int clock_seen(void *) { return kgl_current_msec < before_step; }
static kev_result nop(KOPAQUE, void *, int) { return kev_ok; }
static void step_race(int sels, int adds) {
	rt_start(sels); rt_mark(); kmc_explore(0); kgl_selector_module.next(SEL(sels - 1), NULL, add_long, NULL, 0); usleep(200000); struct timeval tv; gettimeofday(&tv, 0); before_step = kgl_current_msec - 1000; kmc_explore(1);
	kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + tv.tv_usec - 5000000);
	if (adds) { kmc_wait_until(clock_seen, 0); kgl_selector_module.next(SEL(sels - 1), NULL, add_long, NULL, 0); } else for (int i = 0; i < 4; i++) { usleep(30000); kgl_selector_module.next(SEL(sels - 1), NULL, nop, NULL, 0); }
	usleep(150000); rt_settle(4500); CHECK(n_fired == n_timers && n_timers == 1 + adds, "%d of %d timers fired", n_fired, n_timers); rt_check_released("timers"); kmc_end();
}
SCEN(clock_back_waiting, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { step_race(2, 0); }
SCEN(clock_back_adding, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { step_race(2, 1); }
SCEN(clock_back_adding_1, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { step_race(1, 1); }
/* sleeping fibers of two event loops, all interleavings */
GHOST static int slept, ready_runs;
static kev_result ready_cb(KOPAQUE d, void *a, int g) { ready_runs++; CHECK((long)a == 8, "argument"); return kev_ok; }
static int sleeper(void *, int ms) { int64_t c = kgl_current_msec; CHECK(kfiber_msleep(ms) == 0, "sleep failed"); CHECK(kgl_current_msec - c >= ms, "slept %d of %d ms", (int)(kgl_current_msec - c), ms); c = kgl_current_msec; kfiber_msleep(ms); CHECK(kgl_current_msec - c >= ms, "slept %d of %d ms", (int)(kgl_current_msec - c), ms); slept++; rt_done(); return 0; }
SCEN(msleep, B({0,0},{1,0},{2,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { rt_start(2); rt_mark(); kfiber_create2(SEL(0), sleeper, NULL, 5, 0, NULL); kfiber_create2(SEL(1), sleeper, NULL, 5, 0, NULL); kfiber_create2(SEL(1), sleeper, NULL, 120, 0, NULL); rt_wait(3); CHECK(slept == 3, "slept"); rt_check_released("sleepers"); kmc_end(); }
/* timers given to the pool before the event loops exist, and after */
static kev_result mgr_cb(KOPAQUE d, void *a, int g) { n_fired++; CHECK(sel_index() >= 0, "not on an event loop"); CHECK((long)d == 3 && (long)a == 4, "arguments"); return kev_ok; }
SCEN(manager_timers, B({0,0},{1,0}), B({0,0},{1,0},{2,0},{3,0}), 3000, 0, 0) { kmc_explore(0); kasync_init(); selector_manager_add_timer(mgr_cb, (void *)4L, 20, (KOPAQUE)3L); selector_manager_add_timer(mgr_cb, (void *)4L, 120, (KOPAQUE)3L); selector_manager_on_ready(ready_cb, (void *)8L); CHECK(!is_selector_manager_init(), "init"); selector_manager_init(2, false); selector_manager_start(NULL, true); kmc_explore(1); selector_manager_add_timer(mgr_cb, (void *)4L, 20, (KOPAQUE)3L); rt_settle(700); selector_manager_on_ready(ready_cb, (void *)8L); usleep(100000); CHECK(n_fired == 3, "%d of 3 timers", n_fired); CHECK(ready_runs == 2, "ready callbacks %d", ready_runs); kmc_end(); }
/* the program's once-a-second hook: on event loop 0, once for each second that comes, at most the granularity after it began, also when the clock is stepped */
GHOST static int n_hook; static int64_t hook_sec[32];
static void sec_hook() { struct timeval tv; gettimeofday(&tv, 0); CHECK(sel_index() == 0, "the hook ran on event loop %d", sel_index()); CHECK(kgl_current_sec == tv.tv_sec, "the hook sees second %lld, it is %lld", (long long)kgl_current_sec, (long long)tv.tv_sec); CHECK(n_hook < 32, "hook runs without end"); if (n_hook) CHECK(hook_sec[n_hook - 1] != tv.tv_sec, "hook ran twice in a second"); CHECK(stepped || tv.tv_usec <= LATE * 1000, "the hook ran %d ms into the second", (int)(tv.tv_usec / 1000)); hook_sec[n_hook++] = tv.tv_sec; }
static void second_hook(int n) {
	kmc_explore(0); kasync_init(); struct timeval tv; gettimeofday(&tv, 0); static const int ph[] = { 0, 250, 999 }; kmc_explore(1); kmc_set_clock_us((int64_t)tv.tv_sec * 1000000 + ph[kmc_choose(3)] * 1000); kselector_update_time(); stepped = 1; selector_manager_init(n, false); selector_manager_start(sec_hook, true); int64_t s0 = kgl_current_sec;
	usleep(300000); stepped = 0; int base = n_hook; CHECK(base <= 1, "hook ran %d times", base); gettimeofday(&tv, 0); s0 = tv.tv_sec;
	if (kmc_choose(2)) kgl_selector_module.next(SEL(n - 1), NULL, setup, NULL, 2); usleep(2000000); gettimeofday(&tv, 0); int64_t s1 = tv.tv_sec; if (tv.tv_usec > LATE * 1000) CHECK(n_hook == base + (int)(s1 - s0), "hook ran %d times in %d seconds", n_hook - base, (int)(s1 - s0)); for (int i = base ? base : 1; i < n_hook; i++) CHECK(hook_sec[i] == hook_sec[i - 1] + 1, "a second was missed");
	static const int64_t by[] = { -1000, -3600000, 1000, 5000, 3600000, -300, 300 }; int64_t b = by[kmc_choose(7)]; stepped = 1; gettimeofday(&tv, 0); base = n_hook; s0 = tv.tv_sec; int64_t to = (int64_t)tv.tv_sec * 1000000 + tv.tv_usec + b * 1000; kmc_set_clock_us(to); usleep(LATE * 1000); gettimeofday(&tv, 0); if (tv.tv_sec != s0) CHECK(n_hook > base, "the second changed by %lld, the hook did not run", (long long)(tv.tv_sec - s0)); CHECK(n_hook - base <= 2, "hook ran %d times for one step of the clock", n_hook - base);
	stepped = 0; s0 = tv.tv_sec; base = n_hook; usleep(1000000); CHECK(n_hook - base == 1 || tv.tv_usec < LATE * 1000, "hook ran %d times in a second after the step", n_hook - base); rt_settle(1500); CHECK(n_fired == n_timers, "%d of %d timers fired", n_fired, n_timers); kmc_outcome("%d", n_hook); kmc_end(); }
SCEN(second_hook1, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { second_hook(1); }
SCEN(second_hook2, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) { second_hook(2); }
/* ticks */
GHOST static int tick_live[4], tick_runs[4], tick_budget; static kselector_tick *tk[4]; GHOST static int tick_round;
static int tick_cb(void *arg, int ev) {
	int id = (int)(long)arg; CHECK(tick_live[id], "closed tick %d ran", id); tick_runs[id]++;
	if (tick_budget > 0 && id != 3) { tick_budget--; int k = kmc_choose(5); /* 0,1,2: close (or re-register) tick k; 3: nothing; 4: register a new one */
		if (k < 3) { if (tick_live[k]) { tick_live[k] = 0; CHECK(kselector_close_tick(tk[k]), "close"); } else { tk[k] = kselector_new_tick(tick_cb, (void *)(long)k); tick_live[k] = 1; tick_runs[k] = 0; CHECK(kselector_register_tick(tk[k]), "register"); } } }
	return id == 1 ? 10 : 0;
}
static kev_result tick_setup(KOPAQUE, void *, int n) { for (int i = 0; i < n; i++) { tk[i] = kselector_new_tick(tick_cb, (void *)(long)i); tick_live[i] = 1; CHECK(kselector_register_tick(tk[i]), "register"); } return kev_ok; }
static kev_result tick_end(KOPAQUE, void *, int n) { int r[3]; for (int i = 0; i < 3; i++) if (tick_live[i]) { tick_live[i] = 0; kselector_close_tick(tk[i]); } return kev_ok; }
GHOST static int snap[4];
static void tick_go(int budget) {
	rt_start(1); rt_mark(); CHECK(!kselector_register_tick(NULL), "registering off an event loop"); tick_budget = budget; kgl_selector_module.next(SEL(0), NULL, tick_setup, NULL, 3); rt_settle(1200);
	for (int i = 0; i < 3; i++) snap[i] = tick_runs[i]; usleep(350000);
	for (int i = 0; i < 3; i++) if (tick_live[i]) CHECK(tick_runs[i] > snap[i], "tick %d stopped running", i); else CHECK(tick_runs[i] == snap[i], "closed tick runs");
	kgl_selector_module.next(SEL(0), NULL, tick_end, NULL, 0); usleep(200000); rt_check_released("ticks"); kmc_end();
}
SCEN(ticks, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_go(5); }
SCEN(ticks_deep, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_go(8); }
/* a tick says how soon it is to run again: the round comes by then, whatever the other ticks say */
GHOST static int tt_n, tt_left[3], tt_ran[3], tt_min; GHOST static uint64_t tt_at; static kselector_tick *tt[3];
static int tt_cb(void *arg, int ev) {
	static const int times[6] = { 0, 7, 40, 300, -5, 99 };
	int id = (int)(long)arg; uint64_t now = kmc_now_us();
	if (!tt_at || tt_ran[id]) { /* a new round */
		if (tt_at) CHECK(now - tt_at <= (uint64_t)tt_min * 1000, "the ticks ran after %d us, a tick asked for %d ms", (int)(now - tt_at), tt_min);
		tt_at = now; tt_min = 100; for (int i = 0; i < 3; i++) tt_ran[i] = 0;
	}
	tt_ran[id] = 1;
	if (tt_left[id] <= 0) { if (tt_left[id]-- == 0) { rt_done(); } return 0; }
	tt_left[id]--; int t = times[kmc_choose(tt_n == 1 ? 6 : 5)]; if (t > 0 && t < tt_min) tt_min = t;
	return t;
}
static kev_result tt_setup(KOPAQUE, void *arg, int n) { tt_n = n; for (int i = 0; i < n; i++) tt_left[i] = (int)(long)arg; for (int i = 0; i < n; i++) { tt[i] = kselector_new_tick(tt_cb, (void *)(long)i); CHECK(kselector_register_tick(tt[i]), "register"); } return kev_ok; }
static kev_result tt_end(KOPAQUE, void *, int n) { for (int i = 0; i < n; i++) CHECK(kselector_close_tick(tt[i]), "close"); return kev_ok; }
static void tick_times(int n, int rounds) {
	rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, tt_setup, (void *)(long)rounds, n); rt_wait(n);
	kgl_selector_module.next(SEL(0), NULL, tt_end, NULL, n); usleep(200000); rt_check_released("tick times"); kmc_end();
}
SCEN(tick_times1, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_times(1, 5); }
SCEN(tick_times2, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_times(2, 3); }
SCEN(tick_times3, B({0,0}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_times(3, 2); }
SCEN(tick_times2_deep, B({-1,-1}), B({0,0}), 6000, 0, KMC_F_SEQ) { tick_times(2, 4); }
/* long delays, days included: the wall clock is moved to a second before each is due, then it comes due */
static const int64_t LD[] = { 900, 32000, 34000, 65000, 66000, 131500, 4290000, 8400000, 86400000, 2147000000 };
GHOST static int64_t ld_t0; GHOST static int ld_ids[3], ld_fired[3];
static kev_result ld_on(KOPAQUE, void *a, int) { int i = (int)(long)a; ld_fired[i]++; int64_t el = kgl_current_msec - ld_t0; CHECK(el >= LD[ld_ids[i]], "a timer of %lld ms fired after %lld ms", (long long)LD[ld_ids[i]], (long long)el); CHECK(el < LD[ld_ids[i]] + LATE, "a timer of %lld ms fired after %lld ms", (long long)LD[ld_ids[i]], (long long)el); return kev_ok; }
static int ld_sleeper(void *a, int n) { kfiber_msleep(n); ld_on(NULL, a, 0); rt_done(); return 0; }
static kev_result ld_set(KOPAQUE, void *, int n) { ld_t0 = kgl_current_msec; for (int i = 0; i < n; i++) { if (i == 1) kfiber_create(ld_sleeper, (void *)(long)i, (int)LD[ld_ids[i]], 0, NULL); else CHECK(kselector_add_timer(kgl_get_tls_selector(), ld_on, (void *)(long)i, (int)LD[ld_ids[i]], NULL) == 0, "add"); } return kev_ok; }
SCEN(long_delays, B({0,0}), B({0,0}), 60000, 0, KMC_F_SEQ) {
	int n = 3; for (int i = 0; i < n; i++) ld_ids[i] = kmc_choose(10); rt_start(1); rt_mark(); kmc_explore(0); kgl_selector_module.next(SEL(0), NULL, ld_set, NULL, n); usleep(100000);
	for (int d = 0; d < 10; d++) {
		int here = 0, before = 0; for (int i = 0; i < n; i++) { here += ld_ids[i] == d; before += ld_ids[i] < d; } if (!here) continue;
		struct timeval tv; gettimeofday(&tv, 0); int64_t at = ld_t0 + LD[d] - 400; if ((int64_t)tv.tv_sec * 1000 + tv.tv_usec / 1000 < at) kmc_set_clock_us(at * 1000); usleep(300000);
		for (int i = 0; i < n; i++) CHECK(ld_fired[i] == (ld_ids[i] < d), "timer of %lld ms fired %d times a moment before %lld ms", (long long)LD[ld_ids[i]], ld_fired[i], (long long)LD[d]); usleep(500000); for (int i = 0; i < n; i++) CHECK(ld_fired[i] == (ld_ids[i] <= d), "timer of %lld ms fired %d times after %lld ms", (long long)LD[ld_ids[i]], ld_fired[i], (long long)LD[d]);
	}
	rt_wait(1); rt_check_released("timers"); kmc_end();
}
/* a crowd of timers, added in a scrambled order, and of ticks */
#define CROWD 500
GHOST static int cr_n, cr_got[CROWD], cr_busy; GHOST static int64_t cr_due[CROWD], cr_last;
static kev_result cr_tm(KOPAQUE, void *arg, int) { int i = (int)(long)arg; CHECK(++cr_got[i] == 1, "timer %d fired twice", i); CHECK(kgl_current_msec >= cr_due[i], "timer %d early", i); CHECK(cr_due[i] >= cr_last, "timer %d out of order", i); cr_last = cr_due[i]; int late = (int)(kgl_current_msec - cr_due[i]); CHECK(late <= LATE + cr_busy, "timer %d fired %d ms late", i, late); cr_n++; return kev_ok; }
static kev_result cr_set(KOPAQUE, void *, int) { for (int i = 0; i < CROWD; i++) { int d = (i * 211) % CROWD; cr_due[i] = kgl_current_msec + d; kselector_add_timer(kgl_get_tls_selector(), cr_tm, (void *)(long)i, d, NULL); } return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 9000, 1, 0) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, cr_set, NULL, 0); rt_settle(CROWD + 400); CHECK(cr_n == CROWD, "%d of %d timers fired", cr_n, CROWD); rt_check_released("crowd"); kmc_end(); }
/* the event loop was busy meanwhile: a crowd of timers of different times is due all at once */
static kev_result cr_stall(KOPAQUE d, void *a, int g) { cr_busy = CROWD + 500; cr_set(d, a, g); usleep((CROWD + 500) * 1000); return kev_ok; }
SCEN(stalled, B({0,0}), B({0,0},{0,1}), 9000, 1, 0) { rt_start(1); rt_mark(); kgl_selector_module.next(SEL(0), NULL, cr_stall, NULL, 0); rt_settle(2 * CROWD + 1000); CHECK(cr_n == CROWD, "%d of %d timers fired", cr_n, CROWD); rt_check_released("crowd"); kmc_end(); }
