/* C27: addresses (text, ports, order, hash, masks) and the socket helpers */
#include "common.h"
#include "ksocket.h"
#include <netinet/tcp.h>
static const char *V4[] = { "0.0.0.0", "0.0.0.1", "1.0.0.0", "1.2.3.4", "1.2.3.5", "10.0.0.127", "10.0.0.128", "127.0.0.1", "127.255.255.255", "128.0.0.0", "128.0.0.1", "192.168.1.255", "255.0.0.0", "255.255.255.254", "255.255.255.255" };
static const char *V6[] = { "::", "::1", "::80", "::ffff", "::1:0:0", "::1.2.3.4", "::ffff:1.2.3.4", "1::", "7f00::1", "8000::", "2001:db8::1", "2001:db8::1:1", "2001:db8:0:1::1", "fe80::1", "ff02::1:ff00:1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1:2:3:4:5:6:7:8" };
static const char *BAD[] = { "", "host", "256.1.1.1", "1.2.3.4.5", "::g", "1:2:3", "1.2.3.4:80", "[::1]", ":::" };
#define N4 ((int)(sizeof V4 / sizeof *V4))
#define N6 ((int)(sizeof V6 / sizeof *V6))
#define NB ((int)(sizeof BAD / sizeof *BAD))
static const char *text(int i) { return i < N4 ? V4[i] : V6[i - N4]; }
static int fam(int i) { return i < N4 ? AF_INET : AF_INET6; }
static void raw(int i, uint8_t *b) { if (inet_pton(fam(i), text(i), b) != 1) kmc_fail("table"); }
static int want_cmp(int i, int j) { if (fam(i) != fam(j)) return fam(i) < fam(j) ? -1 : 1; return 0; }
static sockaddr_i mk(int i, int port, int poison) { sockaddr_i a; memset(&a, poison, sizeof a); CHECK(ksocket_getaddr(text(i), port, AF_UNSPEC, AI_NUMERICHOST, &a), "%s not understood", text(i)); return a; }
/* text -> address -> text, ports, families, short buffers */
SCEN(texts, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); size_t live = kmc_live_allocs(); int i = kmc_choose(N4 + N6), poison = kmc_choose(2) * 255; static const int PORT[] = { 0, 1, 80, 256, 32768, 65535 }; int port = PORT[kmc_choose(6)], ask = kmc_choose(3); int f = ask == 0 ? AF_UNSPEC : ask == 1 ? AF_INET : AF_INET6;
	sockaddr_i a; memset(&a, poison, sizeof a); bool ok = ksocket_getaddr(text(i), port, f, AI_NUMERICHOST, &a); CHECK(ok == (f == AF_UNSPEC || f == fam(i)), "%s with family %d: %d", text(i), f, ok);
	if (ok) { uint8_t b[16]; raw(i, b); CHECK(a.v4.sin_family == fam(i), "family"); CHECK(ksocket_addr_port(&a) == port, "port %d instead of %d", ksocket_addr_port(&a), port); CHECK(ksocket_addr_len(&a) == (int)(fam(i) == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)), "length"); CHECK(!memcmp(fam(i) == AF_INET ? (void *)&a.v4.sin_addr : (void *)&a.v6.sin6_addr, b, fam(i) == AF_INET ? 4 : 16), "address of %s", text(i));
		ip_addr ia; memset(&ia, 255 - poison, sizeof ia); ksocket_ipaddr(&a, &ia); ip_addr ib; memset(&ib, poison, sizeof ib); CHECK(ksocket_get_ipaddr(text(i), &ib), "get_ipaddr"); CHECK(ksocket_ipaddr_compare(&ia, &ib) == 0 && ia == ib && !(ia < ib) && !(ib < ia), "the address of %s differs from itself", text(i)); CHECK(ia.get_hash() == ib.get_hash(), "two hashes of %s", text(i));
		int n = (int)strlen(text(i)); for (int l = 1; l <= n + 2; l++) { char s[64]; memset(s, '#', sizeof s); bool r = ksocket_sockaddr_ip(&a, s, l); CHECK(r == (l > n), "%s in %d bytes: %d", text(i), l, r); CHECK(!strcmp(s, r ? text(i) : ""), "%s came back as %s", text(i), s); CHECK(s[l] == '#', "wrote behind the buffer"); memset(s, '#', sizeof s); r = ksocket_ipaddr_ip(&ia, s, l); CHECK(r == (l > n) && !strcmp(s, r ? text(i) : ""), "%s came back as %s", text(i), s); CHECK(s[l] == '#', "wrote behind the buffer"); }
	}
	CHECK(kmc_live_allocs() == live, "leak"); kmc_end();
}
SCEN(bad_texts, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { kmc_explore(0); size_t live = kmc_live_allocs(); int i = kmc_choose(NB); sockaddr_i a; ip_addr ia; CHECK(!ksocket_getaddr(BAD[i], 80, AF_UNSPEC, AI_NUMERICHOST, &a), "%s taken for an address", BAD[i]); CHECK(!ksocket_get_ipaddr(BAD[i], &ia), "%s taken for an address", BAD[i]); CHECK(kmc_live_allocs() == live && vk_dns_lookups() == 0, "leak or lookup"); kmc_end(); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
/* order: total, the same for all three, only the address counts */
SCEN(order, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); int i = kmc_choose(N4 + N6), j = kmc_choose(N4 + N6); sockaddr_i a = mk(i, 80, 0), b = mk(j, 81, 255); ip_addr x, y; memset(&x, 0, sizeof x); memset(&y, 255, sizeof y); ksocket_ipaddr(&a, &x); ksocket_ipaddr(&b, &y);
	int c = sgn(ksocket_addr_compare(&a, &b)), d = sgn(ksocket_ipaddr_compare(&x, &y)); CHECK((c == 0) == (i == j), "%s and %s compared %d", text(i), text(j), c); CHECK((d == 0) == (i == j) && (x == y) == (i == j), "%s and %s compared %d", text(i), text(j), d);
	CHECK(sgn(ksocket_addr_compare(&b, &a)) == -c && sgn(ksocket_ipaddr_compare(&y, &x)) == -d, "%s and %s compare the same both ways", text(i), text(j)); CHECK(!((x < y) && (y < x)) && ((x < y) || (y < x)) == (i != j), "operator < of %s and %s", text(i), text(j)); if (want_cmp(i, j)) CHECK(c == want_cmp(i, j) && d == c && (x < y) == (c < 0), "families");
	if (i == j) CHECK(ksocket_addr_hash(&a) == ksocket_addr_hash(&b) && x.get_hash() == y.get_hash(), "two hashes of %s", text(i));
	for (int k = 0; k < N4 + N6; k++) { sockaddr_i e = mk(k, 0, 0); ip_addr z; memset(&z, 0, sizeof z); ksocket_ipaddr(&e, &z); if (c <= 0 && ksocket_addr_compare(&b, &e) <= 0) CHECK(ksocket_addr_compare(&a, &e) <= 0, "no order among %s, %s and %s", text(i), text(j), text(k)); if (d <= 0 && ksocket_ipaddr_compare(&y, &z) <= 0) CHECK(ksocket_ipaddr_compare(&x, &z) <= 0, "no order among %s, %s and %s", text(i), text(j), text(k)); if ((x < y) && (y < z)) CHECK(x < z, "operator <: no order among %s, %s and %s", text(i), text(j), text(k)); }
	if (fam(i) == fam(j)) { ip_addr m, n = x & y; memset(&m, 0x5a, sizeof m); ksocket_ipaddr_and(&x, &y, &m); uint8_t p[16], q[16]; raw(i, p); raw(j, q); CHECK(m.sin_family == fam(i) && n.sin_family == fam(i), "family of a masked address"); for (int k = 0; k < (fam(i) == AF_INET ? 4 : 16); k++) CHECK(m.addr8[k] == (p[k] & q[k]) && n.addr8[k] == (p[k] & q[k]), "byte %d of %s & %s", k, text(i), text(j)); CHECK(m == n && !ksocket_ipaddr_compare(&m, &n), "masks"); }
	kmc_end();
}
/* ---- sockets: the options asked for and no others, nothing left behind by a failure */
static const char *failing; static int fail_at, fail_n;
static int fault(const char *op, int) { if (failing && !strcmp(op, failing) && ++fail_n == fail_at) return strcmp(op, "connect") ? 24 : 111; return 0; }
static int opt(int fd, int l, int o) { int v = vk_sockopt(fd, l, o); CHECK(v >= -1, "not open"); return v > 0; }
SCEN(listen_flags, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); int f = kmc_choose(4), fl = 0, fds = vk_open_fds(); if (kmc_choose(2)) fl |= KSOCKET_BLOCK; if (kmc_choose(2)) fl |= KSOCKET_REUSEPORT; if (kmc_choose(2)) fl |= KSOCKET_ONLY_IPV6; if (kmc_choose(2)) fl |= KSOCKET_FASTOPEN;
	static const char *OPS[] = { NULL, "socket", "bind", "listen" }; failing = OPS[kmc_choose(4)]; fail_at = 1; fail_n = 0; vk_set_fault(fault); int udp = f == 3; SOCKET s; sockaddr_un un; sockaddr_i a; int family = AF_INET;
	if (udp) { family = kmc_choose(2) ? AF_INET6 : AF_INET; s = ksocket_new_udp(family, fl); }
	else if (f == 2) { ksocket_unix_addr("/v/sock", &un); family = AF_UNIX; s = ksocket_listen((sockaddr_i *)&un, fl); }
	else { a = mk(f ? N4 : 0, 7777, 0); family = a.v4.sin_family; s = ksocket_listen(&a, fl); }
	bool bad = failing && (!udp || !strcmp(failing, "socket")); CHECK((s == INVALID_SOCKET) == bad, "socket %d with %s failing", s, failing ? failing : "nothing");
	if (bad) CHECK(vk_open_fds() == fds, "a descriptor left by a failing %s", failing);
	else { int g = vk_sockflags(s); CHECK(g >= 0 && (g >> 8) == family, "family"); CHECK(!(g & 1) == !!(fl & KSOCKET_BLOCK), "blocking"); CHECK(g & 2, "given to children"); CHECK(!!(g & 4) == udp && !!(g & 8) == !udp, "kind"); CHECK(ksocket_is_block(s) == !!(fl & KSOCKET_BLOCK), "ksocket_is_block");
		CHECK(opt(s, SOL_SOCKET, SO_REUSEPORT) == !!(fl & KSOCKET_REUSEPORT), "reuse port"); CHECK(opt(s, IPPROTO_IPV6, IPV6_V6ONLY) == !!(fl & KSOCKET_ONLY_IPV6), "v6 only"); if (!udp) { CHECK(opt(s, IPPROTO_TCP, TCP_FASTOPEN) == !!(fl & KSOCKET_FASTOPEN), "fast open"); CHECK(opt(s, SOL_SOCKET, SO_REUSEADDR), "reuse address"); }
		ksocket_close(s); CHECK(vk_open_fds() == fds, "descriptors"); }
	kmc_end();
}
/* an old socket file gives way, any other file does not */
SCEN(unix_paths, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); int what = kmc_choose(3), fds = vk_open_fds(); sockaddr_un un; CHECK(ksocket_unix_addr("/v/sock", &un) == 0 && !strcmp(ksocket_unix_path(&un), "/v/sock") && un.sun_family == AF_UNIX, "address"); if (what == 1) vk_file_set("/v/sock", "data", 4); if (what == 2) { SOCKET o = ksocket_listen((sockaddr_i *)&un, 0); CHECK(o >= 0, "first"); ksocket_close(o); }
	SOCKET s = ksocket_listen((sockaddr_i *)&un, 0); if (what == 1) { char b[8]; CHECK(s == INVALID_SOCKET && vk_file_get("/v/sock", b, 8) == 4 && !memcmp(b, "data", 4), "a file was taken for an old socket"); } else { CHECK(s >= 0, "not listening"); ksocket_close(s); } CHECK(vk_open_fds() == fds, "descriptors"); kmc_end();
}
/* paths up to the longest fit, longer ones are refused, and nothing else is written */
SCEN(unix_long, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); int n = 1 + kmc_choose(200); char p[256]; memset(p, 'x', sizeof p); memcpy(p, "/v/", 3); p[n] = 0; if (n < 3) p[0] = '/'; struct { sockaddr_un u; char g[32]; } x; memset(&x, '#', sizeof x); int r = ksocket_unix_addr(p, &x.u); int fits = n < (int)sizeof x.u.sun_path;
	CHECK((r == 0) == fits, "a path of %d bytes: %d", n, r); if (fits) CHECK(!strcmp(ksocket_unix_path(&x.u), p), "path of %d bytes", n); for (char c : x.g) CHECK(c == '#', "wrote behind the address");
	kserver *s = kserver_init(); bool b = kserver_bind(s, p, 0, NULL); CHECK(b == fits, "binding a path of %d bytes: %d", n, b); kserver_release(s); kmc_end();
}
static void *accepter(void *a) { (void)a; return NULL; }
/* connecting, blocking and not; accepting; switching blocking */
SCEN(connects, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	kmc_explore(0); (void)accepter; int half = kmc_choose(2), bindto = kmc_choose(3), v6 = kmc_choose(2), nb = kmc_choose(2), target = kmc_choose(2); static const char *OPS[] = { NULL, "socket", "bind", "connect" }; const char *op = OPS[kmc_choose(4)];
	int base = vk_open_fds(); sockaddr_i la = mk(v6 ? N4 + 1 : 7, 7777, 0), ba = mk(v6 ? N4 + 1 : 7, bindto == 2 ? 7777 : 5555, 0); SOCKET l = ksocket_listen(&la, 0); CHECK(l >= 0, "listen"); if (target) { la = mk(v6 ? N4 + 1 : 7, 4, 0); } failing = op; fail_at = 1; fail_n = 0; vk_set_fault(fault); int fds = vk_open_fds();
	SOCKET s = half ? ksocket_half_connect(&la, bindto ? &ba : NULL, 0) : ksocket_connect(&la, bindto ? &ba : NULL, 0);
	bool bad = (op && (strcmp(op, "bind") || bindto)) || bindto == 2 || (target && !half); CHECK((s == INVALID_SOCKET) == bad, "socket %d (half %d, %s failing, bind %d, target %d)", s, half, op ? op : "nothing", bindto, target);
	if (bad) CHECK(vk_open_fds() == fds, "a descriptor left by a failing connect");
	else { int g = vk_sockflags(s); CHECK((g >> 8) == (v6 ? AF_INET6 : AF_INET) && (g & 2) && (g & 1) == half, "flags %x", g); CHECK(ksocket_is_block(s) == !half, "blocking");
		if (!target) { sockaddr_i pa; memset(&pa, 0, sizeof pa); SOCKET c = ksocket_accept(l, &pa, nb); CHECK(c >= 0, "accept"); g = vk_sockflags(c); CHECK((g & 1) == nb && (g & 2), "flags of an accepted connection %x", g); if (bindto) CHECK(ksocket_addr_port(&pa) == 5555, "peer port %d", ksocket_addr_port(&pa)); for (int i = 0; i < 2; i++) { ksocket_no_block(c); CHECK(!ksocket_is_block(c) && (vk_sockflags(c) & 1), "not blocking"); ksocket_block(c); CHECK(ksocket_is_block(c) && !(vk_sockflags(c) & 1), "blocking"); }
			ksocket_delay(c); CHECK(vk_sockopt(c, IPPROTO_TCP, TCP_CORK) == 1, "delay"); ksocket_no_delay(c, false); CHECK(vk_sockopt(c, IPPROTO_TCP, TCP_CORK) == 0 && vk_sockopt(c, IPPROTO_TCP, TCP_NODELAY) == -1, "no delay"); ksocket_no_delay(c, true); CHECK(vk_sockopt(c, IPPROTO_TCP, TCP_NODELAY) == 1, "no delay for ever"); CHECK(ksocket_set_time(c, 3, 5) && vk_sockopt(c, SOL_SOCKET, SO_SNDTIMEO) == 3 && vk_sockopt(c, SOL_SOCKET, SO_RCVTIMEO) == 5, "time-outs"); ksocket_close(c); }
		ksocket_close(s); }
	failing = NULL; ksocket_close(l); CHECK(vk_open_fds() == base, "descriptors"); kmc_end();
}
/* waiting for a socket: as long as asked, until it is ready */
SCEN(waits, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) {
	kmc_explore(0); int wr = kmc_choose(2), st = kmc_choose(4), tmo = kmc_choose(3), many = kmc_choose(2) * 40, fd[2]; for (int i = 0; i < many; i++) CHECK(socket(AF_INET, SOCK_STREAM, 0) >= 0, "socket"); vk_set_sockbuf(4); vk_socketpair(fd, 3); if (st & 1) { CHECK(write(fd[1], "ab", 2) == 2, "fill"); } if (st & 2) { CHECK(write(fd[0], "abcd", 4) == 4, "fill"); } int rst = kmc_choose(2); if (rst) vk_rst(fd[1]); int64_t t = kmc_now_us(); bool r = wait_socket_event(fd[0], wr, tmo), ready = wr ? !(st & 2) : st & 1; int64_t d = kmc_now_us() - t;
	if (rst) { CHECK(r == (tmo == 0), "said %d of a connection that was reset", r); CHECK(d < 100000, "waited %lld us for a connection that was reset", (long long)d); close(fd[0]); close(fd[1]); kmc_end(); }
	CHECK(r == (ready || tmo == 0), "said %d (%d %d %d)", r, wr, st, tmo); if (!ready && tmo) CHECK(d >= tmo * 1000000 && d < tmo * 1000000 + 100000, "waited %lld us of %d s", (long long)d, tmo); else CHECK(d < 100000, "waited %lld us", (long long)d); close(fd[0]); close(fd[1]); kmc_end();
}
/* every address made of edge octets against every other, every one-bit and edge-group IPv6 address against every other */
static sockaddr_i mk4(int i) { static const uint8_t O[] = { 0, 1, 127, 128, 255 }; sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; uint8_t *p = (uint8_t *)&a.v4.sin_addr; for (int k = 0; k < 4; k++) { p[k] = O[i % 5]; i /= 5; } return a; }
static sockaddr_i mk6(int i) { sockaddr_i a; memset(&a, 0, sizeof a); a.v6.sin6_family = AF_INET6; uint8_t *p = (uint8_t *)&a.v6.sin6_addr; if (i < 128) p[i / 8] = 1 << (i % 8); else if (i < 256) { memset(p, 255, 16); p[(i - 128) / 8] ^= 1 << (i % 8); } else for (int k = 0; k < 16; k++) p[k] = (i >> (k / 2)) & 1 ? 128 + k : k; return a; }
SCEN(all_pairs, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) {
	kmc_explore(0); int six = kmc_choose(2), n = six ? 512 : 625, i = kmc_choose(n); sockaddr_i a = six ? mk6(i) : mk4(i); ip_addr x; memset(&x, 0, sizeof x); ksocket_ipaddr(&a, &x); int rank = 0, rank2 = 0, rank3 = 0; char t[64], u[64]; CHECK(ksocket_sockaddr_ip(&a, t, sizeof t), "text"); sockaddr_i back; CHECK(ksocket_getaddr(t, 1, AF_UNSPEC, AI_NUMERICHOST, &back) && !ksocket_addr_compare(&a, &back), "%s came back as another address", t); ip_addr bi; memset(&bi, 255, sizeof bi); CHECK(ksocket_get_ipaddr(t, &bi) && !ksocket_ipaddr_compare(&x, &bi) && bi.get_hash() == x.get_hash(), "%s", t);
	for (int j = 0; j < n; j++) { sockaddr_i b = six ? mk6(j) : mk4(j); ip_addr y; memset(&y, 255, sizeof y); ksocket_ipaddr(&b, &y); bool same = six ? !memcmp(&a.v6.sin6_addr, &b.v6.sin6_addr, 16) : a.v4.sin_addr.s_addr == b.v4.sin_addr.s_addr; int c = ksocket_addr_compare(&a, &b), d = ksocket_ipaddr_compare(&x, &y); CHECK((c == 0) == same && (d == 0) == same && (x == y) == same, "%d and %d", i, j); CHECK(sgn(c) == -sgn(ksocket_addr_compare(&b, &a)) && sgn(d) == -sgn(ksocket_ipaddr_compare(&y, &x)), "%d and %d compare the same both ways", i, j); CHECK(!((x < y) && (y < x)) && ((x < y) || (y < x)) == !same, "operator <"); rank += c > 0; rank2 += d > 0; rank3 += y < x;
		CHECK(ksocket_sockaddr_ip(&b, u, sizeof u) && !strcmp(t, u) == same, "%s and %s", t, u); }
	/* a total order gives every address another rank: x is above y exactly if its rank is higher */
	for (int j = 0; j < n; j += 7) { sockaddr_i b = six ? mk6(j) : mk4(j); ip_addr y; memset(&y, 0, sizeof y); ksocket_ipaddr(&b, &y); int r = 0, r2 = 0, r3 = 0; for (int k = 0; k < n; k++) { sockaddr_i e = six ? mk6(k) : mk4(k); ip_addr z; memset(&z, 0, sizeof z); ksocket_ipaddr(&e, &z); r += ksocket_addr_compare(&b, &e) > 0; r2 += ksocket_ipaddr_compare(&y, &z) > 0; r3 += z < y; } CHECK(sgn(rank - r) == sgn(ksocket_addr_compare(&a, &b)) && sgn(rank2 - r2) == sgn(ksocket_ipaddr_compare(&x, &y)) && sgn(rank3 - r3) == (x == y ? 0 : x < y ? -1 : 1), "no order: %d and %d", i, j); }
	kmc_end();
}
SCEN(all_ports, B({0,0}), B({0,0}), 1000, 0, KMC_F_SEQ) { kmc_explore(0); int six = kmc_choose(2), hi = kmc_choose(256); for (int p = hi * 256; p < hi * 256 + 256; p++) { sockaddr_i a = mk(six ? N4 + 3 : 3, p, 255); CHECK(ksocket_addr_port(&a) == p && (six ? a.v6.sin6_port : a.v4.sin_port) == htons(p), "port %d", p); } kmc_end(); }
