// ENGINE: -DMAXT=60 -DREGION_MB=16
/* many event loops ask for the same and for different names at once */
#include "common.h"
#define NL 32
GHOST static int res[NL][3]; static char nm[NL][16];
static int ipof(kgl_addr *a) { if (!a) return 0; sockaddr_i s; memset(&s, 0, sizeof s); kgl_addr_build(a->addr, 99, &s); return (int)ntohl(s.v4.sin_addr.s_addr) - 0x0a000000; }
static int ask(void *a, int n) { int i = n / 3, k = n % 3; kgl_addr *ad = NULL; CHECK(kgl_get_tls_selector() == SEL(i), "on another loop"); int rc = kfiber_net_getaddr(k == 0 ? "host.a" : k == 1 ? nm[i] : "HOST.A", &ad); CHECK(kgl_get_tls_selector() == SEL(i), "loop %d: continued on loop %d", i, kgl_get_tls_selector()->sid); CHECK((rc == 0) == (ad != NULL), "rc %d", rc); CHECK(res[i][k] == 0, "answered twice"); res[i][k] = ad ? ipof(ad) : -1; if (ad) { kfiber_msleep(1 + i % 3); CHECK(ipof(ad) == res[i][k], "the address changed"); kgl_addr_release(ad); } rt_done(); return 0; }
static int noaio(const char *op, int fd) { return strcmp(op, "io_setup") ? 0 : ENOSYS; }
SCEN(many_loops, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) {
	kmc_explore(0); vk_set_fault(noaio); rt_start(NL); vk_dns_add("host.a", "10.0.0.1", 0); for (int i = 0; i < NL; i++) { char ip[20]; snprintf(nm[i], 16, "h%d.x", i); snprintf(ip, 20, "10.0.0.%d", 10 + i); vk_dns_add(nm[i], ip, 0); } usleep(150000); rt_mark();
	for (int i = 0; i < NL; i++) for (int k = 0; k < 3; k++) CHECK(kfiber_create2(SEL(i), ask, NULL, i * 3 + k, 4096, NULL) == 0, "create"); rt_wait(3 * NL);
	for (int i = 0; i < NL; i++) { CHECK(res[i][0] == 1 && res[i][2] == 1, "loop %d: %d %d for the shared name", i, res[i][0], res[i][2]); CHECK(res[i][1] == 10 + i, "loop %d: %d for its own name", i, res[i][1]); }
	CHECK(vk_dns_lookups() == NL + 1, "%d lookups for %d names", vk_dns_lookups(), NL + 1); CHECK(kgl_get_addr_cache_count() == NL + 1, "%d entries", kgl_get_addr_cache_count());
	usleep(300000); kgl_flush_addr_cache(time(NULL) + 360000); CHECK(kgl_get_addr_cache_count() == 0, "entries left"); kthread_close_all_free(); rt_check_released("name cache"); kmc_end();
}
