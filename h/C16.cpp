/* datagrams: each one that arrives is delivered to one read, whole (or cut to the buffer), in order, with the address of its sender and (if asked
 * for) its destination; waiting reads end when the connection is shut down, times out or fails */
#include "common.h"
static kconnection *U[2]; static struct sockaddr_in at[2]; static int px[2]; static struct sockaddr_in pa[2];
static unsigned char pat(int k, int i) { return (unsigned char)(k * 37 + i * 5 + 1); }
static struct sockaddr_in addr4(int port) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); a.sin_port = htons(port); return a; }
static kconnection *mku(int i, int sel, int flags) { kconnection *u = kudp_new2(flags, SEL(sel)); CHECK(u, "kudp_new2"); sockaddr_i a; memset(&a, 0, sizeof a); a.v4 = addr4(4000 + i); CHECK(kudp_bind(u, &a), "kudp_bind"); at[i] = a.v4; U[i] = u; return u; }
static int mkpeer(int i) { px[i] = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0); pa[i] = addr4(5000 + i); CHECK(bind(px[i], (struct sockaddr *)&pa[i], sizeof pa[i]) == 0, "bind"); return px[i]; }
static void psend(int i, int to, int k, int len) { unsigned char b[64]; for (int j = 0; j < len; j++) b[j] = pat(k, j); CHECK(sendto(px[i], b, len, 0, (struct sockaddr *)&at[to], sizeof at[to]) == len, "sendto"); }
static void setup(int sels, int flags) { rt_start(sels); rt_mark(); kmc_explore(0); mku(0, 0, flags); mkpeer(0); mkpeer(1); kmc_explore(1); }
static void kmc_thread(void *(*f)(void *)) { pthread_t t; pthread_create(&t, NULL, f, NULL); pthread_detach(t); }
static int closer(void *a, int) { kfiber_net_close((kconnection *)a); rt_done(); return 0; }
static void finish(int n) { kmc_explore(0); for (int i = 0; i < n; i++) kfiber_create2(U[i]->st.base.selector, closer, U[i], 0, 0, NULL); rt_wait(g_done + n); for (int i = 0; i < 2; i++) if (px[i]) close(px[i]); rt_check_released("datagram socket"); kmc_end(); }
/* one read and everything it tells; from = -1: any peer */
static void got1(kconnection *u, int to, const unsigned char *b, int r, int room, int k, int len, int from, int flags) {
	int e = len < room ? len : room; CHECK(r == e, "datagram %d of %d bytes read into %d gave %d", k, len, room, r); for (int j = 0; j < r; j++) CHECK(b[j] == pat(k, j), "datagram %d: byte %d is wrong", k, j);
	CHECK(u->addr.v4.sin_family == AF_INET && u->addr.v4.sin_addr.s_addr == htonl(0x7f000001), "sender's address"); if (from >= 0) CHECK(ntohs(u->addr.v4.sin_port) == 5000 + from, "datagram %d: sender's port is %d", k, ntohs(u->addr.v4.sin_port));
	struct sockaddr_in d; memset(&d, 0, sizeof d); d.sin_family = AF_INET; int g = kudp_get_recvaddr(u, (struct sockaddr *)&d); if (flags & KSOCKET_IP_PKTINFO) CHECK(g == 0 && d.sin_addr.s_addr == htonl(0x7f000001), "destination address (%d)", g); else CHECK(g == -1, "kudp_get_recvaddr without the flag returned %d", g);
}
static int fl; static int depth; static int q[32][3], qh, qt; GHOST static int rdone;
/* history: datagrams of several sizes from two peers, reads with different buffers before or after they arrive, answers */
static int hreader(void *, int n) {
	for (int i = 0; i < n; i++) { unsigned char b[48]; memset(b, 0xEE, sizeof b); int mode = kmc_choose(3), room = mode == 2 ? 3 + 4 : mode == 1 ? 4 : 24, r; if (mode < 2) r = kfiber_net_read(U[0], (char *)b, room); else { kgl_iovec v[2]; v[0].iov_base = (char *)b; v[0].iov_len = 3; v[1].iov_base = (char *)b + 10; v[1].iov_len = 4; r = kfiber_net_readv(U[0], v, 2); CHECK(b[3] == 0xEE && b[14] == 0xEE, "read outside the buffers"); if (r > 3) memmove(b + 3, b + 10, r - 3); }
		CHECK(qh < qt, "a read returned %d although nothing had been sent", r); int k = q[qh][0], len = q[qh][1], from = q[qh][2]; qh++; got1(U[0], 0, b, r, room, k, len, from, fl); if (mode < 2) CHECK(b[room] == 0xEE, "read past the buffer");
		if (kmc_choose(2)) { unsigned char o[8]; for (int j = 0; j < 5; j++) o[j] = pat(100 + i, j); int ok = kmc_choose(2), al = kmc_choose(2) ? 5 : 0; int s = ok ? (kudp_send_to(U[0], &U[0]->addr, (char *)o, al) ? al : -1) : kudp_send(U[0], (struct sockaddr *)&U[0]->addr, sizeof(struct sockaddr_in), (char *)o, al); CHECK(s == al, "answer returned %d", s); unsigned char p[16]; struct sockaddr_in f; socklen_t fn = sizeof f; int pr = recvfrom(px[from], p, 16, 0, (struct sockaddr *)&f, &fn); CHECK(pr == al && !memcmp(p, o, al) && f.sin_port == at[0].sin_port, "the peer received %d", pr); CHECK(recvfrom(px[!from], p, 16, 0, NULL, NULL) < 0, "the other peer received something"); }
	}
	rdone = 1; rt_done(); return 0;
}
static int hsend(void *, int n) { static const int lens[] = { 0, 1, 4, 9, 20 }; int sent = 0; while (sent < n) { int burst = 1 + kmc_choose(2); for (int i = 0; i < burst && sent < n; i++) { int len = lens[kmc_choose(5)], from = kmc_choose(2); q[qt][0] = sent; q[qt][1] = len; q[qt][2] = from; qt++; psend(from, 0, sent, len); sent++; } kfiber_msleep(1); } rt_done(); return 0; }
static void hist(int n, int order) { fl = kmc_choose(2) ? KSOCKET_IP_PKTINFO : 0; setup(1, fl); if (order) { kfiber_create2(SEL(0), hreader, NULL, n, 0, NULL); usleep(1000); } kfiber_create2(SEL(0), hsend, NULL, n, 0, NULL); if (!order) { usleep(5000); kfiber_create2(SEL(0), hreader, NULL, n, 0, NULL); } rt_wait(2); finish(1); }
SCEN(history2, B({0,0}), B({0,0}), 9000, 0, KMC_F_SEQ) { hist(2, kmc_choose(2)); }
SCEN(history3, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { hist(3, kmc_choose(2)); }
/* every schedule: a reader on one loop, datagrams from another loop's socket and a plain thread */
GHOST static int cnt[2]; static int per = 3;
static int sreader(void *, int n) { for (int i = 0; i < n; i++) { unsigned char b[16]; memset(b, 0xEE, 16); int r = kfiber_net_read(U[0], (char *)b, 12); CHECK(r >= 1, "read returned %d", r); int p = ntohs(U[0]->addr.v4.sin_port), from = p == 5000 ? 0 : 1; CHECK(p == 5000 || p == 4001, "sender's port %d", p); got1(U[0], 0, b, r, 12, from * 10 + cnt[from], 1 + cnt[from], -1, fl); cnt[from]++; CHECK(sel_index() == 0, "loop"); } rt_done(); return 0; }
static int ssender(void *, int n) { for (int i = 0; i < n; i++) { unsigned char b[16]; for (int j = 0; j < 1 + i; j++) b[j] = pat(10 + i, j); sockaddr_i d; memset(&d, 0, sizeof d); d.v4 = at[0]; CHECK(kudp_send_to(U[1], &d, (char *)b, 1 + i), "send"); } rt_done(); return 0; }
static void *sthread(void *) { for (int i = 0; i < per; i++) psend(0, 0, i, 1 + i); rt_done(); return 0; }
static void sched(int n) { fl = KSOCKET_IP_PKTINFO; setup(2, fl); per = n; kmc_explore(0); mku(1, 1, 0); kmc_explore(1); kfiber_create2(SEL(0), sreader, NULL, 2 * n, 0, NULL); kfiber_create2(SEL(1), ssender, NULL, n, 0, NULL); kmc_thread(sthread); rt_wait(3); CHECK(cnt[0] == n && cnt[1] == n, "count"); rt_settle(100); finish(2); }
SCEN(two_senders, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 9000, 1, 0) { sched(2); }
SCEN(two_senders3, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 1, 0) { sched(3); }
static int pingf(void *a, int me) { kconnection *u = U[me]; unsigned char b[16]; for (int i = 0; i < 3; i++) { sockaddr_i d; memset(&d, 0, sizeof d); d.v4 = at[!me]; if (me == 0) { b[0] = 50 + i; b[1] = i; CHECK(kudp_send_to(u, &d, (char *)b, 2), "send"); } memset(b, 0xEE, 16); int r = kfiber_net_read(u, (char *)b, 8); CHECK(r == 2 && b[0] == 50 + i && b[1] == i && b[2] == 0xEE, "ping %d: read %d", i, r); CHECK(u->addr.v4.sin_port == at[!me].sin_port, "sender"); if (me == 1) CHECK(kudp_send(u, (struct sockaddr *)&u->addr, sizeof(struct sockaddr_in), (char *)b, 2) == 2, "answer"); } rt_done(); return 0; }
SCEN(ping_2sel, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 9000, 1, 0) { setup(2, 0); kmc_explore(0); mku(1, 1, 0); kmc_explore(1); kfiber_create2(SEL(1), pingf, NULL, 1, 0, NULL); kfiber_create2(SEL(0), pingf, NULL, 0, 0, NULL); rt_wait(2); finish(2); }
/* callbacks: once per datagram, next read started from the callback */
static kgl_iovec cv, cbuf; static char cb[16]; GHOST static int ccnt; static int ctotal;
static kev_result cb_read(KOPAQUE data, void *arg, int got) { CHECK(data == (KOPAQUE)&cb && arg == (void *)&cv, "arguments"); CHECK(sel_index() == 0, "loop"); got1(U[0], 0, (unsigned char *)cb, got, 8, ccnt, 2 + ccnt, 0, 0); ccnt++; if (ccnt == ctotal) { rt_done(); return kev_ok; } return selectable_read(&U[0]->st, cb_read, &cbuf, &cv); }
static kev_result cb_begin(KOPAQUE, void *, int) { U[0]->st.data = &cb; cv.iov_base = cb; cv.iov_len = 8; cbuf.iov_base = (char *)&cv; cbuf.iov_len = 1; return selectable_read(&U[0]->st, cb_read, &cbuf, &cv); }
static void *cthread(void *) { for (int i = 0; i < ctotal; i++) psend(0, 0, i, 2 + i); rt_done(); return 0; }
SCEN(callbacks, B({0,0},{2,0},{4,0}), B({5,0}), 9000, 1, 0) { setup(1, 0); ctotal = 4; kgl_selector_module.next(SEL(0), NULL, cb_begin, NULL, 0); kmc_thread(cthread); rt_wait(2); CHECK(ccnt == 4, "callbacks"); rt_settle(100); finish(1); }
/* a waiting read ends with an error when the connection is shut down or idle for the time-out; later reads end at once, data that had arrived is delivered first */
static int how; GHOST static int ended;
static int wreader(void *, int) {
	char b[8]; int64_t t0 = kmc_now_us(); int r = kfiber_net_read(U[0], b, 8);
	if (how == 2) { CHECK(r == 3, "read returned %d", r); t0 = kmc_now_us(); r = kfiber_net_read(U[0], b, 8); }
	int64_t d = (kmc_now_us() - t0) / 1000; CHECK(r == -1, "a read on a connection that ended returned %d", r); ended = 1; if (how != 0) CHECK(d >= 4900 && d <= 6500, "an idle read ended after %d ms, the time-out is 5000", (int)d);
	t0 = kmc_now_us(); r = kfiber_net_read(U[0], b, 8); CHECK(r == -1 && kmc_now_us() - t0 < 1000000, "a read after the end returned %d", r); rt_done(); return 0;
}
static int wshut(void *, int) { kfiber_msleep(10); kfiber_net_shutdown(U[0]); rt_done(); return 0; }
static int wsend(void *, int) { kfiber_msleep(3000); psend(0, 0, 1, 3); rt_done(); return 0; }
SCEN(ends, B({0,0},{1,0}), B({2,0}), 90000, 1, 0) { setup(1 + kmc_choose(2), kmc_choose(2) ? KSOCKET_IP_PKTINFO : 0); selector_manager_set_timeout(5, 5); how = kmc_choose(3); kfiber_create2(SEL(0), wreader, NULL, 0, 0, NULL); if (how == 0) kfiber_create2(SEL(0), wshut, NULL, 0, 0, NULL); if (how == 2) kfiber_create2(SEL(0), wsend, NULL, 0, 0, NULL); rt_wait(how == 1 ? 1 : 2); finish(1); }
/* a shutdown from another loop or thread */
static void *tshut(void *) { selectable_shutdown(&U[0]->st); rt_done(); return 0; }
static int t_reader(void *, int) { char b[8]; int n = 0, r; while ((r = kfiber_net_read(U[0], b, 8)) > 0) { CHECK(r == 3 && (unsigned char)b[0] == pat(7, 0), "read"); CHECK(++n <= 1, "more than was sent"); } CHECK(r == -1, "read returned %d", r); rt_done(); return 0; }
SCEN(thread_shutdown, B({0,0},{2,0},{4,0}), B({5,0}), 9000, 1, 0) { setup(1, 0); kfiber_create2(SEL(0), t_reader, NULL, 0, 0, NULL); if (kmc_choose(2)) psend(0, 0, 7, 3); kmc_thread(tshut); rt_wait(2); rt_settle(100); finish(1); }
/* read time-outs: the connection stays usable */
static int rtreader(void *, int n) { char b[8]; int64_t t0 = kmc_now_us(); KBIT_SET(U[0]->st.base.st_flags, STF_RTIME_OUT); int tmo = 0, ok = 0; for (int i = 0; i < n; i++) { int r = kfiber_net_read(U[0], b, 8); int64_t d = (kmc_now_us() - t0) / 1000; if (r == ST_ERR_TIME_OUT) { CHECK(0, "unexpected"); tmo++; } else { CHECK(r == 3 && (unsigned char)b[0] == pat(i, 0) && d <= 4000, "read %d returned %d after %d ms", i, r, (int)d); ok++; t0 = kmc_now_us(); } } rt_done(); return 0; }
static int rtsend(void *, int n) { for (int i = 0; i < n; i++) { int w = kmc_choose(3); kfiber_msleep(w * 1300 + 10); psend(0, 0, i, 3); } rt_done(); return 0; }
SCEN(idle_short, B({0,0}), B({0,0}), 90000, 1, KMC_F_SEQ) { setup(1, 0); selector_manager_set_timeout(5, 5); kfiber_create2(SEL(0), rtreader, NULL, 4, 0, NULL); kfiber_create2(SEL(0), rtsend, NULL, 4, 0, NULL); rt_wait(2); finish(1); }
/* failures: errors are reported, nothing leaks, later operations work */
static int fop, fcount; static int inject(const char *op, int) { static const char *n[] = { "socket", "bind", "epoll_ctl", "recvmsg", "recvmsg", "sendto" }; static const int e[] = { EMFILE, EADDRINUSE, ENOMEM, ENOMEM, ECONNREFUSED, ENETUNREACH }; if (strcmp(op, n[fop]) || fcount-- != 0) return 0; return e[fop]; }
static int ffiber(void *, int) {
	fcount = fop == 5; vk_set_fault(inject); kconnection *u = kudp_new2(kmc_choose(2) ? KSOCKET_IP_PKTINFO : 0, SEL(0)); if (fop == 0) { CHECK(!u, "kudp_new2 succeeded without a socket"); rt_done(); return 0; } CHECK(u, "kudp_new2");
	sockaddr_i a; memset(&a, 0, sizeof a); a.v4 = addr4(4000); at[0] = a.v4; bool ok = kudp_bind(u, &a); CHECK(ok == (fop != 1), "kudp_bind returned %d", ok); if (fop == 1) { kfiber_net_close(u); rt_done(); return 0; }
	char b[8]; psend(0, 0, 1, 3); int r = kfiber_net_read(u, b, 8); CHECK(r == (fop == 2 ? -1 : fop == 3 ? ST_ERR_NOMEM : fop == 4 ? ST_ERR_RESULT : 3), "read returned %d with failure %d", r, fop); if (r < 0) { r = kfiber_net_read(u, b, 8); CHECK(r == 3, "the next read returned %d", r); }
	CHECK((unsigned char)b[0] == pat(1, 0), "data"); sockaddr_i d; memset(&d, 0, sizeof d); d.v4 = pa[0]; CHECK(kudp_send_to(u, &d, "xy", 2) == (fop != 5), "send_to"); CHECK(kudp_send_to(u, &d, "xy", 2), "second send_to"); kfiber_net_close(u); rt_done(); return 0;
}
SCEN(fails, B({0,0}), B({1,0}), 9000, 1, 0) { rt_start(1); kmc_explore(0); mkpeer(0); kmc_explore(1); rt_mark(); fop = kmc_choose(6); kfiber_create2(SEL(0), ffiber, NULL, 0, 0, NULL); rt_wait(1); rt_check_released("datagram socket"); kmc_end(); }
/* IPv6: the sender's address is complete from the first datagram on */
static int v6fiber(void *, int) {
	kconnection *u = kudp_new2(KSOCKET_ONLY_IPV6, SEL(0)); CHECK(u, "new"); sockaddr_i a; memset(&a, 0, sizeof a); a.v6.sin6_family = AF_INET6; a.v6.sin6_addr = in6addr_loopback; a.v6.sin6_port = htons(4000); CHECK(kudp_bind(u, &a), "bind");
	int p = socket(AF_INET6, SOCK_DGRAM | SOCK_NONBLOCK, 0); struct sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_addr = in6addr_loopback; s.sin6_port = htons(5000); if (kmc_choose(2)) { inet_pton(AF_INET6, "fe80::1234:5678:9abc:def0", &s.sin6_addr); s.sin6_scope_id = 0x7654321; } CHECK(bind(p, (struct sockaddr *)&s, sizeof s) == 0, "bind");
	for (int i = 0; i < 2; i++) { CHECK(sendto(p, "hello", 5, 0, (struct sockaddr *)&a, sizeof a.v6) == 5, "sendto"); char b[8]; int r = kfiber_net_read(u, b, 8); CHECK(r == 5 && !memcmp(b, "hello", 5), "read %d", r); CHECK(u->addr.v6.sin6_family == AF_INET6 && u->addr.v6.sin6_port == htons(5000) && !memcmp(&u->addr.v6.sin6_addr, &s.sin6_addr, 16) && u->addr.v6.sin6_scope_id == s.sin6_scope_id, "sender's address"); CHECK(kudp_send_to(u, &u->addr, "yes", 3), "send"); struct sockaddr_in6 f; socklen_t n = sizeof f; r = recvfrom(p, b, 8, 0, (struct sockaddr *)&f, &n); CHECK(r == 3 && f.sin6_port == htons(4000), "peer"); }
	close(p); kfiber_net_close(u); rt_done(); return 0;
}
SCEN(ipv6, B({0,0}), B({1,0}), 9000, 1, 0) { rt_start(1); rt_mark(); kfiber_create2(SEL(0), v6fiber, NULL, 0, 0, NULL); rt_wait(1); rt_check_released("datagram socket"); kmc_end(); }
/* groups: a connection that joined one gets what is sent to it and to its own address, nothing sent to another; joining what is no group is refused */
static int gfault; static int ginject(const char *op, int) { return !strcmp(op, "setsockopt") && gfault-- == 1 ? ENOBUFS : 0; }
static int gfiber(void *, int n) {
	static const char *grp[] = { "224.0.0.5", "239.1.2.3", "239.1.2.4" }; int member = 0; struct sockaddr_in ga = addr4(4000);
	for (int i = 0; i < n; i++) { int k = kmc_choose(7); unsigned char b[24], o[8]; for (int j = 0; j < 6; j++) o[j] = pat(20 + i, j);
		if (k < 3) { bool r = kudp_add_multicast(U[0], grp[k]); CHECK(r == !(member >> k & 1), "joining %s: %d", grp[k], r); member |= 1 << k; }
		else if (k == 3) { static const char *no[] = { "10.0.0.1", "", "not an address", "240.0.0.1" }; CHECK(!kudp_add_multicast(U[0], no[kmc_choose(4)]), "joined what is no group"); }
		else if (k == 4) { gfault = 1; vk_set_fault(ginject); CHECK(!kudp_add_multicast(U[0], "239.9.9.9"), "success although the kernel refused"); vk_set_fault(NULL); ga.sin_addr.s_addr = inet_addr("239.9.9.9"); sendto(px[0], o, 6, 0, (struct sockaddr *)&ga, sizeof ga); }
		else { int g = kmc_choose(4); ga.sin_addr.s_addr = g == 3 ? htonl(0x7f000001) : inet_addr(grp[g]); sendto(px[k - 5], o, 6, 0, (struct sockaddr *)&ga, sizeof ga); if (g == 3 || (member >> g & 1)) { int r = kfiber_net_read(U[0], (char *)b, 24); CHECK(r == 6 && !memcmp(b, o, 6), "read %d", r); CHECK(ntohs(U[0]->addr.v4.sin_port) == 5000 + k - 5, "sender"); struct sockaddr_in d; memset(&d, 0, sizeof d); d.sin_family = AF_INET; CHECK(kudp_get_recvaddr(U[0], (struct sockaddr *)&d) == 0 && d.sin_addr.s_addr == ga.sin_addr.s_addr, "destination address"); } }
		CHECK(!vk_readable(U[0]->st.fd), "got what was not sent to it");
	}
	rt_done(); return 0;
}
SCEN(groups, B({0,0}), B({-1,-1}), 9000, 0, KMC_F_SEQ) { setup(1, KSOCKET_IP_PKTINFO); kfiber_create2(SEL(0), gfiber, NULL, 3, 0, NULL); rt_wait(1); finish(1); }
SCEN(groups5, B({-1,-1}), B({0,0}), 9000, 0, KMC_F_SEQ) { setup(1, KSOCKET_IP_PKTINFO); kfiber_create2(SEL(0), gfiber, NULL, 5, 0, NULL); rt_wait(1); finish(1); }
/* a connection that wants read time-outs told: a read ends with that result each period, touches nothing, and the next read takes the next datagram into its own buffers */
GHOST static int tsent, trecv;
static __attribute__((noinline)) int told(int depth) {
	char pad[96]; memset(pad, 7, sizeof pad); if (depth) { int r = told(depth - 1); for (int q = 0; q < 96; q++) CHECK(pad[q] == 7, "another frame was written to"); return r; }
	unsigned char b[64]; memset(b, 7, sizeof b); int off = kmc_choose(2) * 24, vec = kmc_choose(2); kgl_iovec v[2] = { { (char *)b + off, 2 }, { (char *)b + off + 8, 9 } }; int64_t t0 = kmc_now_us(); int r = vec ? kfiber_net_readv(U[0], v, 2) : kfiber_net_read(U[0], (char *)b + off, 11); int d = (int)((kmc_now_us() - t0) / 1000);
	if (r == ST_ERR_TIME_OUT) { CHECK(tsent == trecv, "timed out while a datagram waited"); CHECK(d >= 4850 && d <= 5300, "timed out after %d ms", d); for (int q = 0; q < 64; q++) CHECK(b[q] == 7, "buffer touched"); return r; }
	CHECK(r == 5, "read returned %d", r); CHECK(d < 5300, "read took %d ms", d); for (int q = 0; q < r; q++) { unsigned char *x = b + off + (vec && q >= 2 ? 8 + q - 2 : q); CHECK(*x == pat(60 + trecv, q), "datagram %d: byte %d is wrong", trecv, q); *x = 7; } trecv++; for (int q = 0; q < 64; q++) CHECK(b[q] == 7, "wrong place written"); return r;
}
static int toldreader(void *, int n) { KBIT_SET(U[0]->st.base.st_flags, STF_RTIME_OUT); for (int i = 0; i < n; i++) told(i & 1); kfiber_net_shutdown(U[0]); char b[8]; int r, k = 0; while ((r = kfiber_net_read(U[0], b, 8)) >= 0) CHECK(r == 5 && ++k <= 4, "read %d after shutdown", r); CHECK(r == -1, "read %d after shutdown", r); rt_done(); return 0; }
static int toldsend(void *, int n) { static const int gap[] = { 0, 1200, 4700, 5600 }; for (int i = 0; i < n; i++) { kfiber_msleep(gap[kmc_choose(4)]); psend(0, 0, 60 + i, 5); tsent++; } rt_done(); return 0; }
SCEN(time_outs_told, B({0,0}), B({0,0}), 200000, 1, KMC_F_SEQ) { setup(1, kmc_choose(2) ? KSOCKET_IP_PKTINFO : 0); selector_manager_set_timeout(5, 5); kfiber_create2(SEL(0), toldreader, NULL, 3, 0, NULL); kfiber_create2(SEL(0), toldsend, NULL, 2, 0, NULL); rt_wait(2); finish(1); }
/* large datagrams, read into one buffer or many, with and without the destination's address */
static const int BL[] = { 100, 1400, 9000, 32768, 65507 }; static int bl, bparts, broom, bfl;
static int big_reader(void *, int n) {
	static unsigned char b[70000]; static kgl_iovec v[300];
	for (int i = 0; i < n; i++) {
		memset(b, 0xEE, sizeof b); int r; if (bparts) { int p = 0, k = 0; for (; k < bparts; k++) { int l = k == bparts - 1 ? broom - p : broom / bparts; v[k].iov_base = (char *)b + p; v[k].iov_len = l; p += l; } r = kfiber_net_readv(U[0], v, bparts); } else r = kfiber_net_read(U[0], (char *)b, broom);
		got1(U[0], 0, b, r, broom, i, bl, i & 1, bfl); CHECK(b[broom] == 0xEE, "read past the buffer");
		bool ok = kudp_send_to(U[0], &U[0]->addr, (char *)b, r); CHECK(ok, "answer of %d", r); static unsigned char g[70000]; int pr = recvfrom(px[i & 1], g, sizeof g, 0, NULL, NULL); CHECK(pr == r && !memcmp(g, b, r), "the answer of %d arrived as %d", r, pr);
	}
	rt_done(); return 0;
}
SCEN(large, B({0,0}), B({0,0}), 9000, 1, KMC_F_SEQ) {
	static const int parts[] = { 0, 2, 9, 17, 300 }; bfl = kmc_choose(2) ? KSOCKET_IP_PKTINFO : 0; int first = kmc_choose(2), room = kmc_choose(3); bl = BL[kmc_choose(5)]; bparts = parts[kmc_choose(5)]; vk_set_sockbuf(400000); setup(1, bfl); kmc_explore(0); broom = room == 0 ? bl : room == 1 ? bl / 2 + 300 : 69000; if (first) kfiber_create2(SEL(0), big_reader, NULL, 2, 0, NULL), usleep(1000);
	static unsigned char b[70000]; for (int k = 0; k < 2; k++) { for (int j = 0; j < bl; j++) b[j] = pat(k, j); CHECK(sendto(px[k], b, bl, 0, (struct sockaddr *)&at[0], sizeof at[0]) == bl, "sendto"); }
	if (!first) kfiber_create2(SEL(0), big_reader, NULL, 2, 0, NULL); rt_wait(1); finish(1);
}
/* a crowd of sockets, each with a waiting read; then a queue of datagrams for one of them */
#define CROWD 250
GHOST static int cr_n; static kconnection *cru[CROWD];
static int cr_read(void *, int i) { unsigned char b[32]; int r = kfiber_net_read(cru[i], (char *)b, 32); CHECK(r == 1 + i % 20, "read %d of socket %d", r, i); for (int j = 0; j < r; j++) CHECK(b[j] == pat(i, j), "data of socket %d", i); cr_n++; return 0; }
static int cr_queue(void *, int n) { for (int i = 0; i < n; i++) { unsigned char b[32]; int r = kfiber_net_read(cru[0], (char *)b, 32); CHECK(r == 1 + i % 20, "datagram %d: %d bytes", i, r); for (int j = 0; j < r; j++) CHECK(b[j] == pat(i, j), "datagram %d", i); } cr_n = -1; return 0; }
static int cr_close(void *, int) { for (int i = 0; i < CROWD; i++) kfiber_net_close(cru[i]); rt_done(); return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0); mkpeer(0); for (int i = 0; i < CROWD; i++) { cru[i] = kudp_new2(0, SEL(0)); CHECK(cru[i], "kudp_new2"); sockaddr_i a; memset(&a, 0, sizeof a); a.v4 = addr4(10000 + i); CHECK(kudp_bind(cru[i], &a), "kudp_bind"); } kmc_explore(1);
	for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(0), cr_read, NULL, i, 4096, NULL); usleep(300000); CHECK(cr_n == 0, "a read ended without a datagram");
	for (int i = 0; i < CROWD; i++) { at[0] = addr4(10000 + i); psend(0, 0, i, 1 + i % 20); } usleep(500000); CHECK(cr_n == CROWD, "%d of %d reads ended", cr_n, CROWD);
	at[0] = addr4(10000); for (int i = 0; i < 2000; i++) psend(0, 0, i, 1 + i % 20); kfiber_create2(SEL(0), cr_queue, NULL, 2000, 4096, NULL); usleep(500000); CHECK(cr_n == -1, "datagrams left");
	kfiber_create2(SEL(0), cr_close, NULL, 0, 0, NULL); rt_wait(1); close(px[0]); rt_check_released("crowd"); kmc_end();
}
