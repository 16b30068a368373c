/* name lookups and their cache */
#include "common.h"
static const char *IP[4] = { 0, "10.0.0.1", "10.0.0.2", "10.0.0.3" };
static void dns(const char *h, int ip) { vk_dns_add(h, ip ? IP[ip] : 0, ip ? 0 : EAI_NONAME); }
static int ipof(kgl_addr *a) { if (!a) return 0; CHECK(a->refs > 0, "no reference"); sockaddr_i s; memset(&s, 0, sizeof s); kgl_addr_build(a->addr, 99, &s); CHECK(ntohs(s.v4.sin_port) == 99, "port"); char b[64]; CHECK(ksocket_sockaddr_ip(&s, b, sizeof b), "address"); for (int i = 1; i < 4; i++) if (!strcmp(b, IP[i])) return i; kmc_fail("wrong address %s", b); return 0; }
#include <sys/time.h>
static int64_t wall(void) { struct timeval tv; gettimeofday(&tv, 0); return tv.tv_sec * 1000000LL + tv.tv_usec; }
static void drop_all(void) { kgl_flush_addr_cache(time(NULL) + 360000); }
static void done_check(void) { kmc_explore(0); usleep(300000); drop_all(); CHECK(kgl_get_addr_cache_count() == 0, "%d entries left", kgl_get_addr_cache_count()); kthread_close_all_free(); rt_check_released("name cache"); }
/* a lookup by a fiber: which = index of the name */
static const char *NAME[4] = { "host.a", "HOST.A", "host.b", "nohost" };
GHOST static int res[32]; struct look { int slot, name, hold; };
GHOST static int cbs[32], cur_ip[3]; static int lookup(void *a, int n) { int slot = (int)(long)a & 31, name = ((int)(long)a >> 5) & 3, s = sel_index(); kgl_addr *ad = NULL; int rc = kfiber_net_getaddr(NAME[name], &ad); CHECK(sel_index() == s, "continued on another event loop"); CHECK(++cbs[slot] == 1, "twice"); CHECK((rc == 0) == (ad != NULL), "returned %d with%s address", rc, ad ? "" : "out"); res[slot] = ipof(ad); if (ad) { if (n) kfiber_msleep(n); res[slot] = ipof(ad); kgl_addr_release(ad); } rt_done(); return 0; }
static void go(int sel, int slot, int name, int hold) { CHECK(kfiber_create2(SEL(sel), lookup, (void *)(long)(slot | name << 5), hold, 0, NULL) == 0, "create"); }
static void begin(int n) { rt_start(n); kmc_explore(0); dns("host.a", 1); dns("host.b", 2); usleep(150000); rt_mark(); kmc_explore(1); }
/* several fibers look up names at once; one real lookup per name */
SCEN(same_name, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 1, 0) { begin(2); for (int i = 0; i < 3; i++) go(i & 1, i, i & 1, 0); rt_wait(3); for (int i = 0; i < 3; i++) CHECK(res[i] == 1, "lookup %d: %d", i, res[i]); CHECK(vk_dns_lookups() == 1, "%d lookups for one name", vk_dns_lookups()); CHECK(kgl_get_addr_cache_count() == 1, "%d entries", kgl_get_addr_cache_count()); done_check(); kmc_end(); }
SCEN(names, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { begin(2); go(0, 0, 0, 0); go(1, 1, 2, 0); go(0, 2, 3, 0); rt_wait(3); CHECK(res[0] == 1 && res[1] == 2 && res[2] == 0, "%d %d %d", res[0], res[1], res[2]); CHECK(vk_dns_lookups() == 3, "%d lookups", vk_dns_lookups()); CHECK(kgl_get_addr_cache_count() == 3, "%d entries", kgl_get_addr_cache_count()); done_check(); kmc_end(); }
/* no thread can be created */
SCEN(no_thread, B({0,0},{0,1},{1,1},{1,2},{2,2}), B({3,2},{3,3}), 20000, 1, KMC_F_THREADFAIL) { begin(2); go(0, 0, 0, 0); go(1, 1, 1, 0); rt_wait(2); for (int i = 0; i < 2; i++) CHECK(res[i] == 0 || res[i] == 1, "res"); int before = vk_dns_lookups(); kmc_explore(0); usleep(1000); go(0, 2, 0, 0); rt_wait(3); kmc_outcome("%d%d%d %d", res[0], res[1], res[2], before); CHECK(res[2] == 1, "a later lookup fails"); CHECK(vk_dns_lookups() == 1, "%d lookups", vk_dns_lookups()); done_check(); kmc_end(); }
/* a slow name holds up no other, its cache entry is filled once the answer is there, and addresses of others stay */
GHOST static int slow; static int slowed(void *) { return !slow; } static int slowf(const char *op, int n) { if (!strcmp(op, "lookup") && n == 1) kmc_wait_until(slowed, 0); return 0; }
static int releaser(void *a, int n) { kfiber_msleep(400); CHECK(g_done == 2, "other names waited (%d)", g_done); kgl_addr *x = kgl_find_cache_addr("host.a", kgl_addr_ip); CHECK(x == NULL, "address before the answer"); slow = 0; return 0; }
SCEN(slow, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { begin(1); slow = 1; vk_set_fault(slowf); go(0, 0, 0, 0); rt_settle(1); kmc_explore(1); go(0, 1, 2, 0); go(0, 2, 1, 0); go(0, 3, 3, 0); kfiber_create2(SEL(0), releaser, NULL, 0, 0, NULL); rt_wait(4); CHECK(res[0] == 1 && res[1] == 2 && res[2] == 1 && res[3] == 0, "results"); CHECK(vk_dns_lookups() == 3, "%d lookups", vk_dns_lookups()); vk_set_fault(0); done_check(); kmc_end(); }
/* the cache is flushed at any moment: between question and answer, during a refresh, while addresses are in use */
static void *flusher(void *a) { for (int i = 0; i < (int)(long)a; i++) { drop_all(); kmc_yield(); } rt_done(); return 0; }
SCEN(flush, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 1, 0) { begin(1); pthread_t t; go(0, 0, 0, 1); pthread_create(&t, 0, flusher, (void *)2L); pthread_detach(t); go(0, 1, 1, 1); rt_wait(3); CHECK(res[0] == 1 && res[1] == 1, "%d %d", res[0], res[1]); kmc_outcome("%d %d", vk_dns_lookups(), kgl_get_addr_cache_count()); done_check(); kmc_end(); }
SCEN(flush_refresh, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 1, 0) { begin(1); go(0, 0, 0, 0); rt_wait(1); kmc_explore(0); kmc_set_clock_us(wall() + 40000000); usleep(1000); dns("host.a", 3); kmc_explore(1); pthread_t t; go(0, 1, 0, 1); pthread_create(&t, 0, flusher, (void *)1L); pthread_detach(t); go(0, 2, 1, 1); rt_wait(4); for (int i = 1; i < 3; i++) CHECK(res[i] == 1 || res[i] == 3, "%d", res[i]); kmc_explore(0); usleep(1000); go(0, 3, 0, 0); rt_wait(5); CHECK(res[3] == 3, "after the refresh: %d", res[3]); kmc_outcome("%d %d %d", res[1], res[2], vk_dns_lookups()); done_check(); kmc_end(); }
/* same, the refresh's own lookup taking long: dropped and asked again meanwhile */
static int slow2f(const char *op, int n) { if (!strcmp(op, "lookup") && n == 2) kmc_wait_until(slowed, 0); return 0; }
SCEN(slow_refresh, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { begin(1); vk_set_fault(slow2f); go(0, 0, 0, 0); rt_wait(1); kmc_explore(0); kmc_set_clock_us(wall() + 40000000); usleep(1000); slow = 1; go(0, 1, 0, 0); rt_wait(2); CHECK(res[1] == 1, "%d", res[1]); int k = kmc_choose(3); usleep(1000); dns("host.a", k); kmc_explore(1); drop_all(); go(0, 2, 1, 0); slow = 0; go(0, 3, 0, 0); rt_wait(4); CHECK(res[2] == k && res[3] == k, "asked again: %d %d, answer now %d", res[2], res[3], k); CHECK(vk_dns_lookups() == 3 || vk_dns_lookups() == 2, "%d lookups", vk_dns_lookups()); CHECK(kgl_get_addr_cache_count() == 1, "%d entries", kgl_get_addr_cache_count()); kmc_explore(0); usleep(1000); go(0, 4, 0, 0); rt_wait(5); CHECK(res[4] == k, "finally %d, expected %d", res[4], k); done_check(); kmc_end(); }
/* one cached address used by two event loops for different ports */
static int builder(void *a, int n) { kgl_addr *ad = NULL; int rc = kfiber_net_getaddr("host.a", &ad); CHECK(rc == 0 && ad, "lookup"); sockaddr_i s; memset(&s, 0, sizeof s); kmc_yield(); kgl_addr_build(ad->addr, (uint16_t)n, &s); CHECK(ntohs(s.v4.sin_port) == n, "asked for port %d, got %d", n, ntohs(s.v4.sin_port)); kconnection *c = kconnection_new2(ad->addr, (uint16_t)(n + 1)); CHECK(ntohs(c->addr.v4.sin_port) == n + 1, "connection to port %d, got %d", n + 1, ntohs(c->addr.v4.sin_port)); kconnection_destroy(c); kgl_addr_release(ad); rt_done(); return 0; }
SCEN(ports, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 1, 0) { begin(2); go(0, 0, 0, 0); rt_wait(1); kfiber_create2(SEL(0), builder, NULL, 80, 0, NULL); kfiber_create2(SEL(1), builder, NULL, 443, 0, NULL); rt_wait(3); done_check(); kmc_end(); }
/* callback interface */
GHOST static kgl_addr *held; GHOST static int cbn; static kev_result acb(void *arg, kgl_addr *a) { CHECK((long)arg == 5, "argument"); CHECK(sel_index() == 1, "on event loop %d", sel_index()); cbn++; if (a) { kgl_addr_refs(a); held = a; } rt_done(); return kev_ok; }
static kev_result asker(KOPAQUE d, void *arg, int got) { kgl_find_addr("host.a", (kgl_addr_type)got, acb, (void *)5L, kgl_get_tls_selector()); return kev_ok; }
SCEN(callback, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 1, 0) { begin(2); int cn = kmc_choose(2); kgl_selector_module.next(SEL(1), NULL, asker, NULL, cn ? kgl_addr_cname : kgl_addr_ip); rt_wait(1); drop_all(); CHECK(ipof(held) == 1, "address"); if (cn) CHECK(held->addr->ai_canonname && !strcmp(held->addr->ai_canonname, "host.a"), "no canonical name"); kgl_addr_release(held); done_check(); CHECK(cbn == 1, "called %d times", cbn); kmc_end(); }
/* the same names looked up in both ways, in every order: each way has its own answer, found in the cache from then on */
GHOST static kgl_addr *kd_got; GHOST static int kd_told; static kev_result kd_cb(void *, kgl_addr *a) { kd_told++; if (a) kgl_addr_refs(a); kd_got = a; rt_done(); return kev_ok; }
static kev_result kd_ask(KOPAQUE, void *arg, int got) { kgl_find_addr((const char *)arg, (kgl_addr_type)got, kd_cb, NULL, kgl_get_tls_selector()); return kev_ok; }
static void kd_is(kgl_addr *a, int nm, int cn, const char *h) { CHECK(a && ipof(a) == nm + 1, "%s: wrong address (%s)", NAME[nm * 2], h); if (cn) CHECK(a->addr->ai_canonname && !strcasecmp(a->addr->ai_canonname, NAME[nm * 2]), "%s: no canonical name (%s)", NAME[nm * 2], h); else CHECK(!a->addr->ai_canonname, "%s: a canonical name nobody asked for (%s)", NAME[nm * 2], h); }
static void kinds(int n) {
	begin(1); int in[2][2] = {}, looks = 0, asked = 0; char h[20];
	for (int i = 0; i < n; i++) {
		int o = kmc_choose(6), nm = o >> 1, cn = o & 1, up = 0; h[i] = "aAbBcC"[o]; h[i + 1] = 0; if (nm == 2) { nm = 0; up = 1; }
		for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { kgl_addr *x = kgl_find_cache_addr(NAME[a * 2], b ? kgl_addr_cname : kgl_addr_ip); CHECK((x != NULL) == in[a][b], "%s (%d) is%s in the cache (%s)", NAME[a * 2], b, x ? "" : " not", h); if (x) { kd_is(x, a, b, h); kgl_addr_release(x); } }
		if (!in[nm][cn]) { in[nm][cn] = 1; looks++; } kd_got = NULL; kgl_selector_module.next(SEL(0), NULL, kd_ask, (void *)NAME[nm * 2 + up], cn ? kgl_addr_cname : kgl_addr_ip); rt_wait(++asked); CHECK(kd_told == asked, "told %d times (%s)", kd_told, h); kd_is(kd_got, nm, cn, h); kgl_addr_release(kd_got);
		CHECK(vk_dns_lookups() == looks && kgl_get_addr_cache_count() == looks, "%d lookups, %d entries, %d expected (%s)", vk_dns_lookups(), kgl_get_addr_cache_count(), looks, h);
	}
	done_check(); kmc_end();
}
SCEN(kinds4, B({0,0}), B({-1,-1}), 60000, 1, KMC_F_SEQ) { kinds(4); }
SCEN(kinds6, B({-1,-1}), B({0,0}), 60000, 1, KMC_F_SEQ) { kinds(6); }
/* names that differ only at one place, early or far in, or by being longer: each is looked up for itself and has its own address */
static char sm_n[9][300]; static const int sm_at[9] = { -1, 0, 15, 31, 63, 127, 200, 251, -2 };
GHOST static int sm_ip; static int sm_look(void *a, int) { kgl_addr *ad = NULL; int rc = kfiber_net_getaddr((char *)a, &ad); CHECK((rc == 0) == (ad != NULL), "rc %d", rc); sm_ip = ipof(ad); if (ad) kgl_addr_release(ad); rt_done(); return 0; }
static void similar(int n) {
	begin(1); bool in[9] = {}; int looks = 0, per = kmc_choose(2); for (int k = 0; k < 9; k++) { for (int j = 0; j < 252; j++) sm_n[k][j] = j % 20 == 19 ? '.' : 'a' + j % 7; sm_n[k][252] = 0; if (sm_at[k] >= 0) sm_n[k][sm_at[k]] = 'z'; if (sm_at[k] == -2) sm_n[k][251] = 0; dns(sm_n[k], 1 + (per ? k % 3 : k / 3)); }
	for (int i = 0; i < n; i++) { int k = kmc_choose(9); char q[300]; strcpy(q, sm_n[k]); if (kmc_choose(2)) for (char *c = q; *c; c++) if (*c >= 'a') *c -= 32; if (!in[k]) { in[k] = true; looks++; } kfiber_create2(SEL(0), sm_look, q, 0, 0, NULL); rt_wait(i + 1); CHECK(sm_ip == 1 + (per ? k % 3 : k / 3), "the name differing at %d got the address of another: %d", sm_at[k], sm_ip); CHECK(vk_dns_lookups() == looks, "%d lookups, %d expected", vk_dns_lookups(), looks); CHECK(kgl_get_addr_cache_count() == looks, "%d entries", kgl_get_addr_cache_count()); }
	done_check(); kmc_end();
}
SCEN(similar2, B({0,0}), B({-1,-1}), 60000, 1, KMC_F_SEQ) { similar(2); }
SCEN(similar3, B({-1,-1}), B({0,0}), 60000, 1, KMC_F_SEQ) { similar(3); }
/* histories against a model of the cache */
struct ent { int in, addr, last, err; int64_t lt, lv; };
static void history(int n, int fine = 0) { /* fine: small steps of time, flushes that tell them apart */
	begin(1); struct ent e[2] = {}; int looks = 0; char h[20]; int slot = 0; cur_ip[0] = 1; cur_ip[1] = 2; int clockadd = 0; (void)clockadd;
	for (int i = 0; i < n; i++) {
		int o; if (fine) { static const int fo[] = { 0, 2, 3, 9, 10, 11 }; o = fo[kmc_choose(6)]; } else o = kmc_choose(9); h[i] = "aAbcdDwhFtuv"[o]; h[i + 1] = 0; int64_t now = wall() / 1000000;
		switch (o) {
		case 0: case 1: case 2: { int k = o / 2; struct ent *x = &e[k]; int want, refresh = 0; if (!x->in) { want = cur_ip[k]; looks++; *x = ent{ 1, want, want, 0, now, now }; } else { want = x->addr ? x->addr : x->last; x->lt = now; if (now - x->lv > 30) { x->lv = now; refresh = 1; } }
			int s = slot++; go(0, s, o, 0); rt_wait(slot); rt_settle(1); kmc_explore(1); CHECK(res[s] == want, "%s answered %d, expected %d (%s)", NAME[o], res[s], want, h);
			if (refresh) { looks++; x->addr = cur_ip[k]; if (x->addr) { x->last = x->addr; x->err = 0; } else if (++x->err >= 10) x->last = 0; } } break;
		case 3: { kgl_addr *a = kgl_find_cache_addr("host.a", kgl_addr_ip); int want = e[0].in ? e[0].addr : 0; CHECK(ipof(a) == want, "cached %d, expected %d (%s)", ipof(a), want, h); if (a) kgl_addr_release(a); if (e[0].in) { e[0].lt = now; if (now - e[0].lv > 30) { e[0].lv = now; rt_settle(1); kmc_explore(1); looks++; e[0].addr = cur_ip[0]; if (e[0].addr) { e[0].last = e[0].addr; e[0].err = 0; } else e[0].err++; } } } break;
		case 4: cur_ip[0] = cur_ip[0] == 3 ? 1 : 3; dns("host.a", cur_ip[0]); break;
		case 5: cur_ip[0] = 0; dns("host.a", 0); break;
		case 6: case 7: kmc_set_clock_us(wall() + (o == 6 ? 32 : 3601) * 1000000LL); rt_settle(2300); kmc_explore(1); now = wall() / 1000000; for (int k = 0; k < 2; k++) if (e[k].in && now - e[k].lt >= 3600) e[k].in = 0; break;
		case 9: kmc_set_clock_us(wall() + 20000000); usleep(1000); break;
		case 10: case 11: { int d = o == 10 ? 3590 : 3570; kgl_flush_addr_cache(time(NULL) + d); for (int k = 0; k < 2; k++) if (e[k].in && now + d - e[k].lt >= 3600) e[k].in = 0; } break;
		case 8: if (wall() / 1000000 >= 0) { kgl_flush_addr_cache(time(NULL) + 3500); for (int k = 0; k < 2; k++) if (e[k].in && now + 3500 - e[k].lt >= 3600) e[k].in = 0; } break;
		}
		CHECK(vk_dns_lookups() == looks, "%d lookups, %d expected (%s)", vk_dns_lookups(), looks, h); CHECK(kgl_get_addr_cache_count() == e[0].in + e[1].in, "%d entries, %d expected (%s)", kgl_get_addr_cache_count(), e[0].in + e[1].in, h);
	}
	done_check(); kmc_outcome("%d", looks); kmc_end();
}
SCEN(history6, B({0,0}), B({-1,-1}), 900000000, 1, KMC_F_SEQ) { history(6); }
SCEN(idle7, B({0,0}), B({-1,-1}), 900000000, 1, KMC_F_SEQ) { history(7, 1); }
SCEN(idle8, B({-1,-1}), B({0,0}), 900000000, 1, KMC_F_SEQ) { history(8, 1); }
SCEN(history7, B({-1,-1}), B({0,0}), 900000000, 1, KMC_F_SEQ) { history(7); }
/* ten failing refreshes in a row end the use of the last good address, fewer do not */
SCEN(failing, B({0,0}), B({0,0}), 900000000, 1, KMC_F_SEQ) { begin(1); int bad = kmc_choose(12), back = kmc_choose(2), slot = 0; go(0, slot++, 0, 0); rt_wait(slot); for (int i = 0; i < bad; i++) { dns("host.a", 0); kmc_explore(0); kmc_set_clock_us(wall() + 32000000); usleep(1000); go(0, slot++, 0, 0); rt_wait(slot); CHECK(res[slot - 1] == (i >= 10 ? 0 : 1), "after %d failed refreshes: %d", i, res[slot - 1]); usleep(1000); } kmc_explore(0); usleep(1000); kgl_addr *c = kgl_find_cache_addr("host.a", kgl_addr_ip); CHECK(ipof(c) == (bad ? 0 : 1), "cache"); if (c) kgl_addr_release(c); if (back) { dns("host.a", 3); kmc_set_clock_us(wall() + 32000000); usleep(1000); go(0, slot++, 0, 0); rt_wait(slot); usleep(1000); go(0, slot++, 0, 0); rt_wait(slot); CHECK(res[slot - 1] == 3, "not refreshed: %d", res[slot - 1]); } CHECK(kgl_get_addr_cache_count() == 1, "entries"); done_check(); kmc_end(); }
/* an address given as digits needs no lookup */
static int literal(void *a, int n) { kgl_addr *ad = NULL; CHECK(kfiber_net_getaddr("10.0.0.3", &ad) == 0 && ad, "literal"); CHECK(ipof(ad) == 3, "address"); kgl_addr_release(ad); rt_done(); return 0; }
SCEN(literal_, B({0,0},{1,0}), B({2,0}), 20000, 1, 0) { begin(1); kfiber_create2(SEL(0), literal, NULL, 0, 0, NULL); rt_wait(1); CHECK(vk_dns_lookups() == 0 && kgl_get_addr_cache_count() == 0, "looked up"); done_check(); kmc_end(); }
/* failures that are not in a row do not add up: a refresh that succeeds starts the count again */
static int again(int ip, int slot) { dns("host.a", ip); kmc_explore(0); kmc_set_clock_us(wall() + 32000000); usleep(1000); go(0, slot, 0, 0); rt_wait(slot + 1); usleep(1000); return res[slot]; }
SCEN(failing_apart, B({0,0}), B({0,0}), 900000000, 1, KMC_F_SEQ) { begin(1); int b1 = 1 + kmc_choose(9), b2 = 1 + kmc_choose(9), ip = 1 + 2 * kmc_choose(2), slot = 0, r; go(0, slot++, 0, 0); rt_wait(slot);
	for (int i = 0; i < b1; i++) { r = again(0, slot++); CHECK(r == 1, "after %d failed refreshes: %d", i, r); }
	r = again(ip, slot++); CHECK(r == 1, "after %d failed refreshes: %d", b1, r);
	for (int i = 0; i < b2; i++) { r = again(0, slot++); CHECK(r == ip, "%d failures, a success and %d failures: %d", b1, i, r); }
	r = again(0, slot++); CHECK(r == ip, "%d failures, a success and %d failures: %d", b1, b2, r); done_check(); kmc_end(); }

/* more lookups at once than the workers and their queue take: each is answered once, the ones refused at once with no address, a stale cached name still with its address; nothing is left behind and the refused names work later */
GHOST static int oans[96], ores[96], oextra; static char onm[96][16]; static int slow4f(const char *op, int) { if (!strcmp(op, "lookup")) kmc_wait_until(slowed, 0); return 0; }
static int olook(void *a, int i) { kgl_addr *ad = NULL; int rc = kfiber_net_getaddr(onm[i], &ad); CHECK(++oans[i] == 1 && (rc == 0) == (ad != NULL), "answer %d", i); ores[i] = ipof(ad); if (ad) kgl_addr_release(ad); rt_done(); return 0; }
static void overload(int over) {
	begin(2); kmc_explore(0); go(0, 0, 0, 0); rt_wait(1); kmc_set_clock_us(wall() + 40000000); usleep(1000); slow = 1; vk_set_fault(slow4f); int n = 69 + over, back = kmc_choose(2), stale = kmc_choose(2); for (int i = 0; i < n + 1; i++) { snprintf(onm[i], 16, "h%d.x", i); dns(onm[i], 1 + i % 3); }
	for (int i = 0; i < n; i++) { kfiber_create2(SEL(i & 1), olook, NULL, i, 0, NULL); usleep(1000); } usleep(10000); for (int i = 0; i < n; i++) if (i < 69) CHECK(!oans[i], "lookup %d answered %d before there was an answer", i, ores[i]); else CHECK(oans[i] && !ores[i], "lookup %d neither taken nor refused", i);
	if (stale) { go(0, 1, 0, 0); rt_wait(1 + over + 1); CHECK(res[1] == 1, "the cached name: %d", res[1]); } if (back) { dns("host.a", 3); }
	slow = 0; rt_wait(1 + n + stale); vk_set_fault(0); for (int i = 0; i < 69; i++) CHECK(ores[i] == 1 + i % 3, "lookup %d: %d", i, ores[i]); kmc_set_clock_us(wall() + 40000000); usleep(1000);
	int d = g_done; for (int i = 69; i < n; i++) { oans[i] = 0; kfiber_create2(SEL(0), olook, NULL, i, 0, NULL); } rt_wait(d + over); usleep(100000); d = g_done; for (int i = 69; i < n; i++) { oans[i] = 0; kfiber_create2(SEL(1), olook, NULL, i, 0, NULL); } rt_wait(d + over); for (int i = 69; i < n; i++) CHECK(ores[i] == 1 + i % 3, "lookup %d, refused before: %d", i, ores[i]); done_check(); kmc_end();
}
SCEN(overload_, B({0,0}), B({0,0}), 90000000, 1, KMC_F_SEQ) { overload(kmc_choose(4)); }
/* a crowd asks: 50 names three times each, one name 150 times */
#define CROWD 300
#define NAMES 100 /* even ones are names; fewer than may wait at once */
GHOST static int cr_n;
static int cr_ask(void *, int i) { char nm[24]; snprintf(nm, sizeof nm, "h%d.x", i % NAMES); kgl_addr *ad = NULL; int rc = kfiber_net_getaddr(i & 1 ? "host.a" : nm, &ad); CHECK(rc == 0 && ad, "lookup %d", i); sockaddr_i s; memset(&s, 0, sizeof s); kgl_addr_build(ad->addr, 99, &s); CHECK(ntohl(s.v4.sin_addr.s_addr) == (i & 1 ? 0x0a000001u : 0x0a010000u + i % NAMES), "lookup %d: wrong address", i); kgl_addr_release(ad); cr_n++; return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) {
	begin(2); kmc_explore(0); for (int i = 0; i < NAMES; i += 2) { char nm[24], ip[24]; snprintf(nm, sizeof nm, "h%d.x", i % NAMES); snprintf(ip, sizeof ip, "10.1.%d.%d", i >> 8, i & 255); vk_dns_add(nm, ip, 0); } kmc_explore(1);
	for (int r = 0; r < 2; r++) { for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i >> 1 & 1), cr_ask, NULL, i, 4096, NULL); rt_settle(3000); kmc_explore(1); CHECK(cr_n == CROWD * (r + 1), "%d of %d lookups answered", cr_n, CROWD * (r + 1)); CHECK(vk_dns_lookups() == NAMES / 2 + 1, "%d lookups for %d names", vk_dns_lookups(), NAMES / 2 + 1); CHECK(kgl_get_addr_cache_count() == NAMES / 2 + 1, "%d entries", kgl_get_addr_cache_count()); }
	done_check(); kmc_end();
}
/* waiting lookups settled first; then the answer, new questions, other names and a flush come together */
GHOST static int ask2_n; static kev_result lt_cb(void *, kgl_addr *a) { CHECK(sel_index() == 1 && ipof(a) == 1, "callback"); ask2_n++; rt_done(); return kev_ok; }
static kev_result lt_ask(KOPAQUE, void *, int) { kgl_find_addr("host.a", kgl_addr_ip, lt_cb, NULL, kgl_get_tls_selector()); return kev_ok; }
static void late(int waits, int asks, int other, int flush, int cb) {
	begin(2); kmc_explore(0); vk_set_fault(slowf); slow = 1; int n = 0; for (int i = 0; i < waits; i++) { go(i & 1, n++, i & 1, 0); usleep(1000); } if (cb) kgl_selector_module.next(SEL(1), NULL, lt_ask, NULL, 0); usleep(1000);
	kmc_explore(1); slow = 0; for (int i = 0; i < asks; i++) go(1 - (i & 1), n++, i & 1, i); if (other) go(0, 20, 2, 0); if (flush) { pthread_t t; pthread_create(&t, 0, flusher, (void *)1L); pthread_detach(t); } rt_wait(n + other + flush + cb);
	for (int i = 0; i < n; i++) CHECK(res[i] == 1, "lookup %d: %d", i, res[i]); CHECK(!other || res[20] == 2, "other name: %d", res[20]); if (!flush) CHECK(vk_dns_lookups() == 1 + other && kgl_get_addr_cache_count() == 1 + other, "%d lookups, %d entries", vk_dns_lookups(), kgl_get_addr_cache_count()); CHECK(ask2_n == cb, "callback told %d times", ask2_n); vk_set_fault(0); done_check(); kmc_end();
}
#define LATE(id, ...) SCEN(id, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 20000, 1, 0) { late(__VA_ARGS__); }
LATE(late_ask, 2, 2, 0, 0, 0)
LATE(late_flush, 2, 1, 0, 1, 0)
SCEN(late_other, B({0,0},{1,0},{2,0}), B({3,0}), 20000, 1, 0) { late(1, 1, 1, 1, 1); }
LATE(late_cb, 2, 1, 0, 0, 1)
