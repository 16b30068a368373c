/* connecting: ends exactly once, success only when connected and then usable both ways, error otherwise, everything released */
#include "common.h"
static void addr4(sockaddr_i *a, const char *ip, int port) { memset(a, 0, sizeof *a); a->v4.sin_family = AF_INET; a->v4.sin_port = htons(port); inet_pton(AF_INET, ip, &a->v4.sin_addr); }
GHOST static int ends[4], res[4], est[4], hello[4], srv_got; static int nconn, portof[4]; static kconnection *C[4]; static sockaddr_i bindto; static int use_bind, big;
static int listener(int port, int backlog) { sockaddr_i a; addr4(&a, "127.0.0.1", port); int fd = socket(AF_INET, SOCK_STREAM, 0); CHECK(bind(fd, (struct sockaddr *)&a, sizeof a.v4) == 0 && listen(fd, backlog) == 0, "listen"); return fd; }
GHOST static int ord[4], nord;
static int client(void *, int i) {
	sockaddr_i a; addr4(&a, "127.0.0.1", portof[i]); kconnection *c = C[i] = kconnection_new(&a); ord[nord++] = i;
	int r = kfiber_net_connect(c, use_bind ? &bindto : NULL, 0); ends[i]++; res[i] = r;
	if (r == 0) {
		struct sockaddr_in p; socklen_t l = sizeof p; CHECK(getpeername(c->st.fd, (struct sockaddr *)&p, &l) == 0, "connect %d reported success on a socket that is not connected", i); CHECK(ntohs(p.sin_port) == portof[i], "connected to port %d", ntohs(p.sin_port));
		char m[8]; int n = big ? 6 : 2; for (int k = 0; k < n; k++) m[k] = 'A' + i; int len = n; bool w = kfiber_net_write_full(c, m, &len);
		if (w) { memset(m, 0, sizeof m); len = n; bool ok = kfiber_net_read_full(c, m, &len); CHECK(ok, "reply of connection %d lost", i); for (int k = 0; k < n; k++) CHECK(m[k] == 'a' + i, "reply of connection %d wrong", i); hello[i]++; }
		else CHECK(est[0] < 0, "cannot write on connection %d", i);
	} else CHECK(r < 0, "connect %d ended with %d", i, r);
	kfiber_net_close(c); rt_done(); return 0;
}
static int lfd; static int n_srv;
/* echo in lower case, one connection after the other */
static void *server(void *) { for (int k = 0; k < n_srv; k++) { int s = accept(lfd, 0, 0); CHECK(s >= 0, "accept"); char b[8]; int n = big ? 6 : 2, at = 0; while (at < n) { int r = read(s, b + at, n - at); CHECK(r > 0, "server read"); at += r; } for (int i = 0; i < n; i++) b[i] += 32; CHECK(write(s, b, n) == n, "server write"); srv_got++; close(s); } return 0; }
static void success(int sels, int n, int cap) {
	rt_start(sels); rt_mark(); kmc_explore(0); vk_set_sockbuf(cap); lfd = listener(80, 8); n_srv = n; nconn = n; kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, server, 0);
	for (int i = 0; i < n; i++) { portof[i] = 80; kfiber_create2(SEL(i % sels), client, NULL, i, 0, NULL); }
	rt_wait(n); pthread_join(t, 0); for (int i = 0; i < n; i++) CHECK(ends[i] == 1 && res[i] == 0 && hello[i] == 1, "connect %d to a listening port ended with %d", i, res[i]);
	kmc_explore(0); close(lfd); rt_check_released("connect"); kmc_end();
}
SCEN(listening, B({0,0},{1,1},{2,1},{3,1},{3,2}), B({4,2},{5,2}), 3000, 0, KMC_F_EPORDER | KMC_F_SHORTIO) { success(1, 1, 16); }
SCEN(listening_2conn, B({0,0},{1,0},{2,1}), B({2,2},{3,1}), 3000, 0, KMC_F_EPORDER) { success(1, 2, 16); }
SCEN(listening_2sel, B({0,0},{1,0},{2,0}), B({2,1},{3,0}), 3000, 0, 0) { success(2, 2, 16); }
SCEN(listening_smallbuf, B({0,0},{1,0},{2,1}), B({2,2},{3,2}), 3000, 0, KMC_F_SHORTIO) { big = 1; success(1, 1, 4); }
/* mixed: every combination of targets */
SCEN(targets, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 9000, 1, KMC_F_EPORDER) {
	rt_start(2); kmc_explore(0); selector_manager_set_timeout(2, 2); rt_mark(); lfd = listener(80, 8); nconn = 2; n_srv = 0;
	for (int i = 0; i < 2; i++) { portof[i] = ((const int[]){ 80, 81, 2 })[kmc_choose(3)]; if (portof[i] == 80) n_srv++; } kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, server, 0); for (int i = 0; i < 2; i++) kfiber_create2(SEL(i), client, NULL, i, 0, NULL);
	rt_wait(2); pthread_join(t, 0);
	for (int i = 0; i < 2; i++) { CHECK(ends[i] == 1, "connect %d ended %d times", i, ends[i]); if (portof[i] == 80) CHECK(res[i] == 0, "connect to a listening port ended with %d", res[i]); else CHECK(res[i] < 0, "connect to %s reported success", portof[i] == 2 ? "an unreachable host" : "a closed port"); }
	kmc_explore(0); close(lfd); rt_check_released("connect"); kmc_outcome("%d %d", portof[0], portof[1]); kmc_end();
}
/* the answer of the network arrives at any moment, including around the time-out */
static const int errs[] = { 0, ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT };
static int delays[] = { 0, 1, 900, 1850, 1950, 2000, 2050, 2100, 2200 };
static void answer(int ndel, int sched) {
	rt_start(1); kmc_explore(0); selector_manager_set_timeout(2, 9); rt_mark(); int d = delays[kmc_choose(ndel)], e = errs[kmc_choose(5)]; est[0] = -1; kmc_explore(sched);
	portof[0] = 3; kfiber_create2(SEL(0), client, NULL, 0, 0, NULL); int p = -1, done = 0; usleep(d * 1000); while (!ends[0] && !(done = vk_connect_complete(e, &p))) usleep(500);
	if (done && e == 0) { char b[8]; int at = 0; while (at < 2) { int r = read(p, b + at, 2 - at); if (r <= 0) break; at += r; } if (at == 2) { b[0] = b[1] = 'a'; CHECK(write(p, b, 2) == 2, "peer write"); char x; CHECK(read(p, &x, 1) == 0, "peer expected the end"); CHECK(hello[0] == 1 && res[0] == 0, "peer was written to but connect ended with %d", res[0]); } close(p); }
	rt_wait(1); CHECK(ends[0] == 1, "ended %d times", ends[0]);
	if (done && e) CHECK(res[0] < 0, "connect answered with error %s reported success", strerror(e)); if (!done) CHECK(res[0] < 0, "connect without an answer reported success"); if (done && !e && d < 1500) CHECK(res[0] == 0 && hello[0] == 1, "connect answered in time ended with %d", res[0]);
	rt_check_released("connect"); kmc_outcome("%d %d %d", e, done, res[0] == 0); kmc_end();
}
SCEN(answers, B({0,0}), B({0,0}), 9000, 1, 0) { answer(9, 0); }
SCEN(answers_sched, B({0,0},{1,0},{2,0},{3,0},{3,1}), B({4,0},{4,1}), 9000, 1, KMC_F_EPORDER) { answer(2, 1); }
/* the peer takes the connection and hangs up, or resets it, at once: the connect ends once, either way */
static int hup_mode; static void *hup_server(void *) { int s = accept(lfd, 0, 0); CHECK(s >= 0, "accept"); if (hup_mode == 1) CHECK(write(s, "zz", 2) == 2, "server write"); if (hup_mode == 2) vk_rst(s); if (hup_mode == 3) { shutdown(s, SHUT_WR); char b[4]; while (read(s, b, 4) > 0); } close(s); return 0; }
static int hup_client(void *, int) {
	sockaddr_i a; addr4(&a, "127.0.0.1", 80); kconnection *c = C[0] = kconnection_new(&a); int r = kfiber_net_connect(c, NULL, 0); ends[0]++; res[0] = r;
	if (r == 0) { char b[4]; r = kfiber_net_read(c, b, 4); if (hup_mode == 1) CHECK(r == 2 && b[0] == 'z', "read %d of the greeting", r); else CHECK(r <= 0, "read %d", r); int n = kfiber_net_write(c, "x", 1); CHECK(n == 1 || n < 0, "write %d", n); }
	kfiber_net_close(c); rt_done(); return 0;
}
SCEN(hung_up, B({0,0},{1,1},{2,1},{3,1}), B({4,1},{4,2}), 3000, 0, KMC_F_EPORDER) {
	rt_start(1); rt_mark(); kmc_explore(0); lfd = listener(80, 8); hup_mode = kmc_choose(4); kmc_explore(1); pthread_t t; pthread_create(&t, 0, hup_server, 0); kfiber_create2(SEL(0), hup_client, NULL, 0, 0, NULL);
	rt_wait(1); pthread_join(t, 0); CHECK(ends[0] == 1, "connect ended %d times", ends[0]); kmc_explore(0); close(lfd); rt_check_released("connect"); kmc_outcome("%d %d", hup_mode, res[0]); kmc_end();
}
/* a step of the set-up fails */
static const char *fail_op; static int fail_err, failed; static int inject(const char *op, int) { if (!failed && !strcmp(op, fail_op)) { failed = 1; return fail_err; } return 0; }
SCEN(setup_fails, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 3000, 1, 0) {
	rt_start(1); rt_mark(); kmc_explore(0); lfd = listener(80, 8); static const char *ops[] = { "socket", "bind", "connect", "epoll_ctl" }; static const int oe[4][8] = { { EMFILE, ENOMEM, EAFNOSUPPORT, ENFILE, ENOBUFS, EACCES }, { EADDRINUSE, EADDRNOTAVAIL, EACCES, ENOMEM, EINVAL }, { ENETUNREACH, ECONNREFUSED, EADDRNOTAVAIL, EAGAIN, EACCES, EHOSTUNREACH, ETIMEDOUT, ENOBUFS }, { ENOMEM, ENOSPC, EBADF, EPERM } }; static const int nerr[] = { 6, 5, 8, 4 };
	int o = kmc_choose(4); fail_op = ops[o]; fail_err = oe[o][kmc_choose(nerr[o])]; use_bind = 1; addr4(&bindto, "127.0.0.1", 5000); vk_set_fault(inject); kmc_explore(1);
	portof[0] = 80; kfiber_create2(SEL(0), client, NULL, 0, 0, NULL); rt_wait(1); CHECK(failed, "fault not reached"); CHECK(ends[0] == 1 && res[0] < 0, "connect ended with %d although %s failed", res[0], fail_op);
	kmc_explore(0); vk_set_fault(0); n_srv = 1; pthread_t t; if (o == 3) { int s = accept(lfd, 0, 0); char b; CHECK(read(s, &b, 1) <= 0, "the abandoned connection is still open"); close(s); } pthread_create(&t, 0, server, 0); addr4(&bindto, "127.0.0.1", 5001); kfiber_create2(SEL(0), client, NULL, 0, 0, NULL); rt_wait(2); pthread_join(t, 0); CHECK(res[0] == 0 && hello[0] == 1, "a later connect fails too: %d", res[0]);
	close(lfd); rt_check_released("connect"); kmc_end();
}
/* local address: bound, or in use */
SCEN(bound, B({0,0},{1,0}), B({2,0},{3,0}), 3000, 1, 0) {
	rt_start(1); rt_mark(); kmc_explore(0); lfd = listener(80, 8); int taken = kmc_choose(2), l2 = -1; if (taken) l2 = listener(5000, 1); use_bind = 1; addr4(&bindto, "127.0.0.1", 5000); n_srv = !taken; pthread_t t; pthread_create(&t, 0, server, 0); kmc_explore(1);
	portof[0] = 80; kfiber_create2(SEL(0), client, NULL, 0, 0, NULL); rt_wait(1); pthread_join(t, 0); CHECK(ends[0] == 1 && (taken ? res[0] < 0 : res[0] == 0), "connect ended with %d", res[0]); kmc_explore(0); if (taken) close(l2); close(lfd); rt_check_released("connect"); kmc_end();
}
/* the callback interface: connect result and shutdown of the attempt from the event loop */
static kev_result on_conn(KOPAQUE data, void *arg, int got) { CHECK(data == (KOPAQUE)C[0] && arg == (void *)11, "arguments"); ends[0]++; CHECK(ends[0] == 1, "connect result delivered twice"); res[0] = got; if (got == 0) { struct sockaddr_in p; socklen_t l = sizeof p; CHECK(getpeername(C[0]->st.fd, (struct sockaddr *)&p, &l) == 0, "connect reported success on a socket that is not connected"); } CHECK(sel_index() == 0, "on another event loop"); kconnection_destroy(C[0]); rt_done(); return kev_destroy; }
static kev_result do_conn(KOPAQUE, void *, int port) { sockaddr_i a; addr4(&a, "127.0.0.1", port); C[0] = kconnection_new(&a); C[0]->st.data = C[0]; CHECK(kconnection_half_connect(C[0], NULL, 0), "half connect"); selectable_bind(&C[0]->st, SEL(0)); kconnection_connect(C[0], on_conn, (void *)11); return kev_ok; }
static kev_result do_shut(KOPAQUE, void *, int) { if (!ends[0]) selectable_shutdown(&C[0]->st); return kev_ok; }
SCEN(abandoned, B({0,0},{1,0},{2,0},{3,1}), B({4,1},{4,2}), 5000, 1, KMC_F_EPORDER) {
	rt_start(1); kmc_explore(0); selector_manager_set_timeout(2, 2); rt_mark(); int pm = kmc_choose(3), p = -1, m = 0; kmc_explore(1); kgl_selector_module.next(SEL(0), NULL, do_conn, NULL, 3);
	while (!vk_connect_pending()) usleep(500); if (pm != 1) kgl_selector_module.next(SEL(0), NULL, do_shut, NULL, 0); if (pm) m = vk_connect_complete(0, &p);
	rt_wait(1); if (pm == 0) CHECK(res[0] < 0, "a connect that was shut down reported success"); if (pm == 1) CHECK(m && res[0] == 0, "connect ended with %d", res[0]); if (p >= 0) close(p); rt_check_released("connect"); kmc_outcome("%d %d", pm, res[0]); kmc_end();
}
/* many connects of one event loop, each with its own fate, in every order of answers */
SCEN(many, B({0,0},{0,1}), B({0,2},{1,1}), 9000, 1, KMC_F_EPORDER) {
	rt_start(1); kmc_explore(0); selector_manager_set_timeout(2, 9); rt_mark(); est[0] = -1; int e[3], p[3] = { -1, -1, -1 }; kmc_explore(1);
	for (int i = 0; i < 3; i++) { portof[i] = 3; e[i] = errs[kmc_choose(2)]; kfiber_create2(SEL(0), client, NULL, i, 0, NULL); }
	usleep(1000); for (int i = 0; i < 3; i++) { CHECK(vk_connect_complete(e[ord[i]], &p[ord[i]]), "connect %d not pending", i); if (kmc_choose(2)) usleep(1000); }
	for (int i = 0; i < 3; i++) if (p[i] >= 0) { char b[2]; int at = 0; while (at < 2) { int r = read(p[i], b + at, 2 - at); if (r <= 0) break; at += r; } CHECK(at == 2, "peer %d got %d bytes", i, at); b[0] += 32; b[1] += 32; CHECK(write(p[i], b, 2) == 2, "peer write"); char x; CHECK(read(p[i], &x, 1) == 0, "peer end"); close(p[i]); }
	rt_wait(3); for (int i = 0; i < 3; i++) CHECK(ends[i] == 1 && (e[i] ? res[i] < 0 : res[i] == 0 && hello[i] == 1), "connect %d answered %d ended with %d", i, e[i], res[i]); rt_check_released("connect"); kmc_end();
}

/* a unix socket whose backlog is full or has room, or that nobody listens on */
static char up[109] = "/v/u"; GHOST static int ures[3], uend; static int uclient(void *, int i) {
	struct sockaddr_un su; ksocket_unix_addr(up, &su); kconnection *c = kconnection_new((sockaddr_i *)&su); int r = kfiber_net_connect(c, NULL, 0); ures[i] = r;
	if (r == 0) { struct sockaddr_un p; socklen_t l = sizeof p; CHECK(getpeername(c->st.fd, (struct sockaddr *)&p, &l) == 0, "connect %d reported success on a socket that is not connected", i); int n = kfiber_net_write(c, "u", 1); CHECK(n == 1, "write on connection %d gave %d", i, n); char b; CHECK(kfiber_net_read(c, &b, 1) == 1 && b == 'U', "reply lost"); }
	kfiber_net_close(c); uend++; rt_done(); return 0;
}
static void unix_run(void) {
	rt_start(1); kmc_explore(0); int mode = kmc_choose(3), n = 2, room = mode == 0 ? 0 : 1, l = -1; rt_mark(); struct sockaddr_un su; ksocket_unix_addr(up, &su);
	if (mode < 2) { l = socket(AF_UNIX, SOCK_STREAM, 0); CHECK(bind(l, (struct sockaddr *)&su, sizeof su) == 0 && listen(l, 0) == 0, "listen"); if (mode == 0) { int k = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); CHECK(connect(k, (struct sockaddr *)&su, sizeof su) == 0, "filling the backlog"); close(k); } } kmc_explore(1);
	for (int i = 0; i < n; i++) kfiber_create2(SEL(0), uclient, NULL, i, 0, NULL);
	if (mode == 1) { int s = accept(l, 0, 0); char b; CHECK(read(s, &b, 1) == 1, "server read"); CHECK(write(s, "U", 1) == 1, "server write"); close(s); if (uend < n) { usleep(300000); } while (uend < n) { s = accept(l, 0, 0); if (read(s, &b, 1) == 1) CHECK(write(s, "U", 1) == 1, "server write"); close(s); usleep(300000); } }
	rt_wait(n); CHECK(uend == n, "ended"); int ok = (ures[0] == 0) + (ures[1] == 0); CHECK(mode == 1 ? ok >= 1 : ok == 0, "%d connects succeeded (mode %d)", ok, mode); for (int i = 0; i < n; i++) CHECK(ures[i] <= 0, "connect ended with %d", ures[i]);
	kmc_explore(0); if (l >= 0) { fcntl(l, F_SETFL, O_NONBLOCK); int s; while ((s = accept(l, 0, 0)) >= 0) close(s); close(l); } (void)room; rt_check_released("connect"); kmc_outcome("%d %d", mode, ok); kmc_end();
}
SCEN(unix_backlog, B({0,0},{1,0},{2,0}), B({3,0},{4,0}), 4000, 1, KMC_F_EPORDER) { unix_run(); }
/* paths of every length near the longest possible */
SCEN(unix_path, B({0,0}), B({0,0},{1,0}), 4000, 1, 0) { int n = 100 + kmc_choose(8); memset(up, 'p', n); memcpy(up, "/v/", 3); up[n] = 0; unix_run(); }

/* every way to make a connection, to either family, from a chosen address or not: it reaches the address it was made for, from the address it was bound to, and knows both */
static int mk_how, mk_fam, mk_bind; static int maker(void *, int) {
	sockaddr_i a; memset(&a, 0xEE, sizeof a); static struct addrinfo ai; memset(&ai, 0, sizeof ai); struct sockaddr_in v4; memset(&v4, 0, sizeof v4); v4.sin_family = AF_INET; v4.sin_addr.s_addr = htonl(0x7f000001); v4.sin_port = htons(80); struct sockaddr_in6 v6; memset(&v6, 0, sizeof v6); v6.sin6_family = AF_INET6; v6.sin6_addr = in6addr_loopback; v6.sin6_port = htons(80); const struct sockaddr *sa = mk_fam ? (struct sockaddr *)&v6 : (struct sockaddr *)&v4; socklen_t sl = mk_fam ? sizeof v6 : sizeof v4;
	memcpy(&a, sa, sl); ai.ai_family = mk_fam ? AF_INET6 : AF_INET; ai.ai_addrlen = sl; ai.ai_addr = (struct sockaddr *)sa; if (mk_how == 1) { v4.sin_port = v6.sin6_port = htons(9); }
	kconnection *c = mk_how == 0 ? kfiber_net_open(&a) : mk_how == 1 ? kfiber_net_open2(&ai, 80) : mk_how == 2 ? kconnection_new3(sa, sl) : kconnection_new(NULL); if (mk_how == 3) memcpy(&c->addr, sa, sl); CHECK(!ksocket_opened(c->st.fd), "a new connection is open");
	memset(&v4, 0x55, sizeof v4); memset(&v6, 0x55, sizeof v6); memset(&a, 0x55, sizeof a); v4.sin_port = 0; CHECK(c->addr.v4.sin_family == (mk_fam ? AF_INET6 : AF_INET) && ntohs(mk_fam ? c->addr.v6.sin6_port : c->addr.v4.sin_port) == 80, "the connection's address"); if (mk_fam) CHECK(!memcmp(&c->addr.v6.sin6_addr, &in6addr_loopback, 16), "the connection's address"); else CHECK(c->addr.v4.sin_addr.s_addr == htonl(0x7f000001), "the connection's address");
	sockaddr_i b; memset(&b, 0, sizeof b); if (mk_fam) { b.v6.sin6_family = AF_INET6; b.v6.sin6_addr = in6addr_loopback; b.v6.sin6_port = mk_bind == 2 ? htons(777) : 0; } else { b.v4.sin_family = AF_INET; b.v4.sin_addr.s_addr = htonl(0x7f000001); b.v4.sin_port = mk_bind == 2 ? htons(777) : 0; }
	int r = kfiber_net_connect(c, mk_bind ? &b : NULL, 0); CHECK(r == 0, "connect returned %d", r);
	sockaddr_i p; socklen_t l = sizeof p; memset(&p, 0, sizeof p); CHECK(getpeername(c->st.fd, (struct sockaddr *)&p, &l) == 0 && p.v4.sin_family == (mk_fam ? AF_INET6 : AF_INET) && ntohs(mk_fam ? p.v6.sin6_port : p.v4.sin_port) == 80, "reached another address");
	memset(&p, 0, sizeof p); CHECK(kconnection_self_addr(c, &p) == 0 && p.v4.sin_family == (mk_fam ? AF_INET6 : AF_INET), "own address"); int port = ntohs(mk_fam ? p.v6.sin6_port : p.v4.sin_port); if (mk_bind == 2) CHECK(port == 777, "bound to port 777, has %d", port); else CHECK(port != 0, "no own port");
	char m[2]; CHECK(kfiber_net_write(c, "QR", 2) == 2, "write"); int n = 2; CHECK(kfiber_net_read_full(c, m, &n) && m[0] == 'q' && m[1] == 'r', "reply"); kfiber_net_close(c); rt_done(); return 0;
}
SCEN(made, B({0,0},{1,0}), B({2,0},{3,0}), 4000, 1, KMC_F_EPORDER) {
	rt_start(1); kmc_explore(0); rt_mark(); mk_how = kmc_choose(4); mk_fam = kmc_choose(2); mk_bind = kmc_choose(3); if (mk_fam) { struct sockaddr_in6 v6; memset(&v6, 0, sizeof v6); v6.sin6_family = AF_INET6; v6.sin6_addr = in6addr_loopback; v6.sin6_port = htons(80); lfd = socket(AF_INET6, SOCK_STREAM, 0); CHECK(bind(lfd, (struct sockaddr *)&v6, sizeof v6) == 0 && listen(lfd, 3) == 0, "listen"); } else lfd = listener(80, 3);
	n_srv = 1; pthread_t t; pthread_create(&t, 0, server, 0); pthread_detach(t); kmc_explore(1); kfiber_create2(SEL(0), maker, NULL, 0, 0, NULL); rt_wait(1); kmc_explore(0); usleep(10000); CHECK(srv_got == 1, "server served %d", srv_got); close(lfd); rt_check_released("connection"); kmc_end();
}
/* a crowd connects at once, half of it to a port nobody listens on */
#define CROWD 300
GHOST static int cr_ok, cr_no, cr_bad;
static int cr_dial(void *, int i) { sockaddr_i a; addr4(&a, "127.0.0.1", i & 1 ? 81 : 80); kconnection *c = kconnection_new(&a); int r = kfiber_net_connect(c, NULL, 0); if (i & 1) { CHECK(r < 0, "connect %d to nobody ended with %d", i, r); cr_no++; } else { CHECK(r == 0, "connect %d to a listening port ended with %d", i, r); cr_ok++; char b[4]; r = kfiber_net_read(c, b, 4); CHECK(r == 0, "read %d", r); } kfiber_net_close(c); rt_done(); return 0; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(2); rt_mark(); kmc_explore(0); int l = listener(80, 2000); kmc_explore(1); static int s[CROWD / 2]; for (int i = 0; i < CROWD; i++) kfiber_create2(SEL(i & 1 ? i / 2 & 1 : 0), cr_dial, NULL, i, 4096, NULL);
	rt_settle(500); CHECK(cr_ok == CROWD / 2 && cr_no == CROWD / 2, "%d connected, %d refused", cr_ok, cr_no); for (int i = 0; i < CROWD / 2; i++) s[i] = accept(l, NULL, NULL); for (int i = 0; i < CROWD / 2; i++) close(s[i]); rt_wait(CROWD); close(l); rt_check_released("crowd"); kmc_end();
}
