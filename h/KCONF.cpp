/* conformance of the virtual kernel, see conform/ops.h */
#include "common.h"
#define SPAIR(p) vk_socketpair(p, 3)
#include "../conform/ops.h"
#include <sys/syscall.h>
#include <map>
#include <string>
static std::map<std::string, std::string> *tab; static int maxd = 4;
struct loader { loader() { const char *p = getenv("KCONF_TABLE"); if (!p) return; if (getenv("KCONF_DEPTH")) maxd = atoi(getenv("KCONF_DEPTH"));
	tab = new std::map<std::string, std::string>; int fd = (int)syscall(SYS_open, p, O_RDONLY); std::string s; static char b[1 << 16]; long r; while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, r); syscall(SYS_close, fd);
	size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i), t = s.find('\t', i); (*tab)[s.substr(i, t - i)] = s.substr(t + 1, e - t - 1); i = e + 1; } } } ld;
GHOST static char key[64]; GHOST static int kl;
static int ch(int n) { int k = kmc_choose(n); key[kl++] = 'a' + k; key[kl] = 0; return k; }
static void fam(int f) {
	kl = snprintf(key, sizeof key, "%d:", f); ln_ = 0; lg[0] = 0; vk_set_sockbuf(4096);
	struct sockaddr_in bh; memset(&bh, 0, sizeof bh); bh.sin_family = AF_INET; bh.sin_addr.s_addr = htonl(0x7f000001); bh.sin_port = htons(2); struct sockaddr_in cl = bh; cl.sin_port = htons(9);
	int d[7] = { maxd, 5, 5, 6, 6, 5, 3 };
	switch (f) { case 0: pair_ops(ch, d[0]); break; case 1: syn_ops(ch, d[1], &bh); break; case 2: ref_ops(ch, d[2], &cl); break; case 3: lis_ops(ch, d[3]); break; case 4: efd_ops(ch, d[4]); break; case 5: udp_ops(ch, d[5]); break; case 6: file_ops(ch, d[6], "/v/f"); break; }
	if (!tab) kmc_end(); auto it = tab->find(key); if (it == tab->end()) { kmc_outcome("no reference"); kmc_end(); }
	if (it->second != lg) { kmc_trace("sequence %s\n   real    %s\n   virtual %s", key, it->second.c_str(), lg); int cap = f == 0 && strchr(key + 2, (char)107); int zc = 0; if (f == 6) { for (char *q = key + 3; *q; q++) if ((*q == 'h' || *q == 'i') && strchr(q, 'b')) zc = cap = 1; } kmc_outcome(zc ? "differs where the file was overwritten between sendfile and reading (zero copy: the kernel shows either content)" : cap ? "differs after a buffer was filled (capacity is a parameter of the model)" : "differs"); if (!cap && getenv("KCONF_DIFF")) { int fd = (int)syscall(SYS_open, getenv("KCONF_DIFF"), O_WRONLY | O_APPEND | O_CREAT, 0644); static char b[9000]; int n = snprintf(b, sizeof b, "%s\n  R %s\n  V %s\n", key, it->second.c_str(), lg); syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); } if (getenv("KCONF_FAIL")) kmc_fail("sequence %s: real %s virtual %s", key, it->second.c_str(), lg); } else kmc_outcome("same");
	kmc_end();
}
SCEN(pair, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(0); }
SCEN(syn, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(1); }
SCEN(refused, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(2); }
SCEN(listener, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(3); }
SCEN(eventfd_, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(4); }
SCEN(udp, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(5); }
SCEN(file, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { fam(6); }
