/* servers: every connection is accepted once and handed over on its event loop; closing ends accepting and releases every listening socket */
#include "common.h"
#include <sys/un.h>
GHOST static int freed, acc[16], n_acc, cli_done, cli_ok[16], cli_reset[16], fails; static kserver *S; static int hold, nsel;
static void free_opaque(KOPAQUE d) { CHECK(d == (KOPAQUE)0x77, "opaque"); freed++; CHECK(freed == 1, "server freed twice"); }
GHOST static kconnection *held[16]; GHOST static int nheld;
static kev_result on_hello(KOPAQUE, void *arg, int);
static int conn_fiber(void *a, int) {
	kconnection *c = (kconnection *)a; char b[4]; CHECK(c->st.base.selector == kgl_get_tls_selector(), "connection handled outside its event loop");
	CHECK(freed == 0, "server freed while a connection of it exists");
	int r = kfiber_net_read(c, b, 1); CHECK(r == 1, "read %d", r); int id = b[0]; CHECK(id >= 0 && id < 16 && ++acc[id] == 1, "connection %d accepted twice", id); b[0] += 64;
	r = kfiber_net_write(c, b, 1); if (r != 1) fails++; 
	if (hold) { while (hold) kfiber_msleep(1); CHECK(freed == 0, "server freed while a connection of it exists"); }
	kfiber_net_close(c); rt_done(); return 0;
}
KACCEPT_CALLBACK(on_accept) {
	kconnection *c = (kconnection *)arg; n_acc++;
	CHECK(c->st.base.selector == kgl_get_tls_selector(), "accept callback runs outside the connection's event loop"); CHECK(c->server == S, "server"); CHECK(got == (int)c->st.fd, "descriptor %d / %d", got, (int)c->st.fd);
	CHECK(c->addr.v4.sin_family == AF_UNIX || (c->addr.v4.sin_family == AF_INET && c->addr.v4.sin_addr.s_addr == htonl(0x7f000001) && c->addr.v4.sin_port != 0), "peer address of the connection");
	kfiber_create2(c->st.base.selector, conn_fiber, c, 0, 0, NULL); return kev_ok;
}
static int dial(const char *unix_path) {
	int fd = socket(unix_path ? AF_UNIX : AF_INET, SOCK_STREAM, 0), r; if (unix_path) { struct sockaddr_un u; ksocket_unix_addr(unix_path, &u); r = connect(fd, (struct sockaddr *)&u, sizeof u); } else { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(8080); a.sin_addr.s_addr = htonl(0x7f000001); r = connect(fd, (struct sockaddr *)&a, sizeof a); }
	if (r) { close(fd); return -1; } return fd;
}
static const char *upath; static int must;
/* a client: connect, say who you are, expect the answer */
static void talk(int id) {
	int fd = dial(upath); if (fd < 0) { CHECK(!must, "connection %d refused by an open server", id); cli_reset[id] = 1; cli_done++; return; }
	char b = id; int r = write(fd, &b, 1); if (r == 1) r = read(fd, &b, 1); if (r == 1) { CHECK(b == id + 64, "answer"); cli_ok[id] = 1; } else { CHECK(!must, "connection %d dropped by an open server", id); cli_reset[id] = 1; } close(fd); cli_done++;
}
static void *client(void *a) { talk((int)(long)a); return 0; }
static void sopen(int sels) { S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); CHECK(kserver_bind(S, upath ? upath : "127.0.0.1", 8080, NULL), "bind"); nsel = sels; }
static void finish(int n) {
	int ok = 0, all = 0; for (int i = 0; i < n; i++) { ok += cli_ok[i]; all += cli_ok[i] + cli_reset[i]; CHECK(acc[i] >= cli_ok[i], "client %d answered but not accepted", i); } CHECK(all == n, "%d of %d clients finished", all, n);
	CHECK(freed == 1, "server %s", freed ? "freed more than once" : "not freed"); rt_check_released("server"); kmc_outcome("%d accepted %d answered", n_acc, ok); kmc_end();
}
/* open with one listening socket per event loop; clients; close after they are done, or at any moment */
static void serve(int sels, int n, int race, int ths) {
	rt_start(sels); rt_mark(); kmc_explore(0); sopen(sels); must = !race; if (race != 2) { CHECK(kserver_open(S, 0, on_accept), "open"); CHECK(is_server_multi_selectable(S) == (sels > 1 && !upath), "multi"); } kmc_explore(1); if (race == 2) CHECK(kserver_open(S, 0, on_accept), "open");
	pthread_t t[8]; for (int i = 0; i < ths; i++) pthread_create(&t[i], 0, client, (void *)(long)i);
	if (!race) { for (int i = ths; i < n; i++) talk(i); for (int i = 0; i < ths; i++) pthread_join(t[i], 0); kserver_close(S); kserver_release(S); }
	else { kserver_close(S); kserver_release(S); for (int i = ths; i < n; i++) { talk(i); CHECK(!cli_ok[i], "connection accepted after the server was closed"); } for (int i = 0; i < ths; i++) pthread_join(t[i], 0); }
	rt_settle(300); finish(n);
}
SCEN(serve_1sel, B({0,0},{1,0},{2,0},{3,1}), B({4,0},{4,1}), 3000, 0, KMC_F_EPORDER) { serve(1, 2, 0, 1); }
SCEN(serve_2sel, B({0,0},{1,0},{2,0}), B({2,1},{3,0}), 3000, 0, KMC_F_EPORDER) { serve(2, 2, 0, 1); }
SCEN(serve_3conn, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 1, 0) { serve(2, 3, 0, 2); }
SCEN(close_race_1sel, B({0,0},{1,0},{2,0},{3,0}), B({3,1},{4,0}), 3000, 0, KMC_F_EPORDER) { serve(1, 2, 1, 1); }
SCEN(close_race_2sel, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { serve(2, 2, 1, 1); }
SCEN(open_close_race, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { serve(2, 1, 2, 0); }
SCEN(open_close_race_client, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { serve(2, 2, 2, 1); }
/* closed by the accept callback's own event loop while the others accept */
static kev_result close_it(KOPAQUE, void *, int) { kserver_close(S); kserver_release(S); rt_done(); return kev_ok; }
SCEN(close_from_loop, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, KMC_F_EPORDER) {
	rt_start(2); rt_mark(); kmc_explore(0); sopen(2); CHECK(kserver_open(S, 0, on_accept), "open"); kmc_explore(1); pthread_t t; pthread_create(&t, 0, client, (void *)0L); kgl_selector_module.next(SEL(0), NULL, close_it, NULL, 0); pthread_join(t, 0); while (!g_done) usleep(100); rt_settle(300); finish(1);
}
/* connections outlive the server */
SCEN(outlive, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) {
	rt_start(2); rt_mark(); kmc_explore(0); sopen(2); must = 1; hold = 1; CHECK(kserver_open(S, 0, on_accept), "open"); kmc_explore(1); talk(0); talk(1); kserver_close(S); kserver_release(S); usleep(2000); CHECK(!freed, "server freed with connections left"); hold = 0; rt_wait(2); rt_settle(300); finish(2);
}
/* every history of open, close, connect on one server object */
static void cycles(int depth, int sels) {
	rt_start(sels); kmc_explore(0); rt_mark(); sopen(sels); int open_ = 0, id = 0; char hist[20]; int h = 0;
	for (int i = 0; i < depth; i++) { int o = kmc_choose(4); hist[h++] = "ocxX"[o]; hist[h] = 0;
		switch (o) { case 0: if (!open_) { CHECK(kserver_open(S, 0, on_accept), "open again (%s)", hist); open_ = 1; } break; case 1: if (open_) { kserver_close(S); open_ = 0; if (kmc_choose(2)) usleep(1000); } break;
		case 2: must = open_; talk(id); CHECK(cli_ok[id] == open_, "connection %d %s although the server is %s (%s)", id, cli_ok[id] ? "served" : "not served", open_ ? "open" : "closed", hist); id++; break;
		case 3: { int fd = dial(NULL); CHECK(fd < 0 || open_, "connected to a closed server (%s)", hist); if (fd >= 0) { char b = id; must = 0; CHECK(write(fd, &b, 1) == 1, "write"); kserver_close(S); open_ = 0; int r = read(fd, &b, 1); if (r == 1) cli_ok[id] = 1; else cli_reset[id] = 1; id++; close(fd); usleep(1000); } } break; } }
	if (open_) kserver_close(S); kserver_release(S); rt_settle(300); finish(id);
}
SCEN(cycles_1sel, B({0,0}), B({0,0},{0,1}), 3000, 0, KMC_F_SEQ | KMC_F_EPORDER) { cycles(5, 1); }
SCEN(cycles_2sel, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { cycles(4, 2); }
SCEN(cycles_deep, B({-1,-1}), B({0,0}), 3000, 0, KMC_F_SEQ) { cycles(7, 2); }
/* a socket opened by the program */
SCEN(existing_socket, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) {
	rt_start(1); rt_mark(); kmc_explore(0); S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); static kmutex m; (void)m; must = 1; kmc_explore(1);
	kgl_selector_module.next(SEL(0), NULL, [](KOPAQUE, void *, int) -> kev_result { sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_port = htons(8080); a.v4.sin_addr.s_addr = htonl(0x7f000001); SOCKET s = ksocket_listen(&a, 0); CHECK(s >= 0, "listen"); CHECK(kserver_open_exsit(S, s, on_accept), "open"); CHECK(ksocket_addr_port(&S->addr) == 8080, "port"); rt_done(); return kev_ok; }, NULL, 0);
	rt_wait(1); talk(0); talk(1); kserver_close(S); kserver_release(S); rt_settle(300); finish(2);
}
/* the port is chosen by the system */
SCEN(any_port, B({0,0}), B({0,0}), 3000, 0, 0) { rt_start(2); rt_mark(); kmc_explore(0); S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); CHECK(kserver_bind(S, "127.0.0.1", 0, NULL), "bind"); static const int fls[] = { 0, KSOCKET_FASTOPEN, KSOCKET_REUSEPORT, KSOCKET_FASTOPEN | KSOCKET_REUSEPORT }; CHECK(kserver_open(S, fls[kmc_choose(4)], on_accept), "open"); CHECK(is_server_multi_selectable(S), "multi"); int p = ksocket_addr_port(&S->addr); CHECK(p != 0, "port"); int fds = vk_open_fds(); CHECK(fds == g_base_fds + 2, "%d sockets", fds - g_base_fds); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(0x7f000001); for (int i = 0; i < 3; i++) { int fd = socket(AF_INET, SOCK_STREAM, 0); CHECK(connect(fd, (struct sockaddr *)&a, sizeof a) == 0, "connect"); char b = i; CHECK(write(fd, &b, 1) == 1 && read(fd, &b, 1) == 1, "talk"); cli_ok[i] = 1; close(fd); } kserver_close(S); kserver_release(S); rt_settle(300); finish(3); }
/* local sockets */
SCEN(unix_socket, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { upath = "/v/sock"; serve(1, 2, 0, 1); }
SCEN(unix_socket_race, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { upath = "/v/sock"; serve(1, 2, 1, 1); }
/* something else has the path: only what an earlier server left there is replaced */
SCEN(path_taken, B({0,0}), B({0,0}), 30000, 1, KMC_F_SEQ) {
	int what = kmc_choose(5), again = kmc_choose(2); upath = "/v/sock"; rt_start(1 + kmc_choose(2)); kmc_explore(0);
	if (what == 1) vk_file_set(upath, "precious", 8); if (what == 2) vk_mknode(upath, NULL, 5); if (what == 3) { int fd = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un u; ksocket_unix_addr(upath, &u); CHECK(bind(fd, (struct sockaddr *)&u, sizeof u) == 0, "bind"); close(fd); } if (what == 4) { vk_file_set("/v/other", "precious", 8); vk_mknode(upath, "/v/other", 5); }
	rt_mark(); sopen(1); must = 1; int n = 0; bool can = what == 0 || what == 3;
	for (int k = 0; k <= again; k++) { bool r = kserver_open(S, 0, on_accept); CHECK(r == can, "open returned %d (case %d)", r, what); if (r) { talk(n++); talk(n++); kserver_close(S); usleep(2000); } }
	struct stat st; char b[9]; if (what == 1) { CHECK(vk_file_get(upath, b, 9) == 8 && !memcmp(b, "precious", 8), "the file that had the path is gone"); } if (what == 2) CHECK(stat(upath, &st) == 0 && S_ISDIR(st.st_mode), "the directory that had the path is gone"); if (what == 4) { CHECK(lstat(upath, &st) == 0 && S_ISLNK(st.st_mode) && vk_file_get("/v/other", b, 9) == 8, "the link that had the path is gone"); }
	kserver_release(S); rt_settle(300); finish(n);
}
/* fibers that listen and accept */
GHOST static int nloop; static kserver_selectable *SS[2];
static int acceptor(void *, int i) {
	int r = kfiber_net_listen(S, KSOCKET_REUSEPORT, &SS[i]); CHECK(r == 0 && SS[i], "listen"); nloop++;
	for (;;) { kconnection *c = NULL; r = kfiber_net_accept(SS[i], &c); if (r != 0 || !c) break; CHECK(c->st.base.selector == kgl_get_tls_selector(), "event loop"); n_acc++; kfiber_create2(c->st.base.selector, conn_fiber, c, 0, 0, NULL); }
	for (int k = 0; k < 2; k++) { kconnection *c = NULL; int64_t t = kmc_now_us(); kfiber_net_accept(SS[i], &c); CHECK(!c, "a connection after the end"); CHECK(kmc_now_us() - t < 500000, "accept after the end waited"); } /* a closed server says so as often as asked */
	kserver_selectable_destroy(SS[i]); nloop--; rt_done(); return 0;
}
static void fibers(int sels, int n, int race) {
	rt_start(sels); rt_mark(); kmc_explore(0); sopen(sels); must = !race; for (int i = 0; i < sels; i++) { kfiber_create2(SEL(i), acceptor, NULL, i, 0, NULL); while (nloop <= i) usleep(100); } kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, client, (void *)0L); if (race) { kserver_close(S); kserver_release(S); } for (int i = 1; i < n; i++) talk(i); pthread_join(t, 0); if (!race) { kserver_close(S); kserver_release(S); }
	rt_wait(sels); rt_settle(300); CHECK(!nloop, "acceptor"); finish(n);
}
SCEN(fiber_accept, B({0,0},{1,0},{2,0},{3,0}), B({3,1},{4,0}), 3000, 0, KMC_F_EPORDER) { fibers(1, 2, 0); }
SCEN(fiber_accept_2sel, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { fibers(2, 2, 0); }
SCEN(fiber_accept_race, B({0,0},{1,0},{2,0}), B({3,0},{2,1}), 3000, 0, 0) { fibers(2, 1, 1); }
/* opening fails: the address is taken or a step fails; nothing is left behind */
static const char *fop; static int fnth, fcnt; static int inject(const char *op, int) { return !strcmp(op, fop) && fcnt++ >= fnth ? EADDRINUSE : 0; }
SCEN(open_fails, B({0,0}), B({0,0}), 30000, 1, KMC_F_SEQ) {
	rt_start(2); kmc_explore(0); rt_mark(); sopen(2); static const char *ops[] = { "socket", "bind", "listen" }; fop = ops[kmc_choose(3)]; fnth = kmc_choose(2); vk_set_fault(inject); bool r = kserver_open(S, 0, on_accept); vk_set_fault(0); CHECK(r == (fnth == 1), "open returned %d", r);
	int n = 0; if (r) { must = 1; talk(0); n = 1; kserver_close(S); } kserver_release(S); rt_settle(300); finish(n);
}
/* the address is taken only for a while: opening waits for it, in a thread or in a fiber; the event loops go on meanwhile */
static int ffor; static int inject2(const char *op, int) { if (strcmp(op, fop)) return 0; int k = fcnt++; return k >= fnth && k < fnth + ffor ? EADDRINUSE : 0; }
GHOST static int beats, opened, stopb; static int beat(void *, int) { while (!stopb) { kfiber_msleep(100); beats++; } rt_done(); return 0; }
static int opener(void *, int) { vk_set_fault(inject2); int64_t t0 = kmc_now_us(); int b0 = beats; bool r = kserver_open(S, 0, on_accept); vk_set_fault(0); int d = (int)((kmc_now_us() - t0) / 1000); CHECK(r, "open failed"); CHECK(d <= 700 * ffor + 200, "open took %d ms for %d refusals", d, ffor); CHECK(beats - b0 >= d / 300, "the event loops stood still: %d rounds in %d ms", beats - b0, d); opened = 1; rt_done(); return 0; }
SCEN(open_waits, B({0,0}), B({0,0}), 30000, 1, KMC_F_SEQ) {
	rt_start(2); kmc_explore(0); rt_mark(); sopen(2); static const char *ops[] = { "socket", "bind", "listen" }; fop = ops[kmc_choose(3)]; fnth = kmc_choose(3); ffor = kmc_choose(4); int infib = kmc_choose(2); kfiber_create2(SEL(0), beat, NULL, 0, 0, NULL); usleep(150000);
	if (infib) { kfiber_create2(SEL(1), opener, NULL, 0, 0, NULL); while (!opened) usleep(50000); } else opener(NULL, 0);
	CHECK(vk_open_fds() == g_base_fds + 2, "%d sockets listening, two expected", vk_open_fds() - g_base_fds); must = 1; talk(0); talk(1); stopb = 1; kserver_close(S); kserver_release(S); rt_wait(2); rt_settle(300); finish(2);
}
/* taking over an existing socket fails: nothing the server had is disturbed */
static int exfd, exok; static kev_result takeover(KOPAQUE, void *, int) { bool r = kserver_open_exsit(S, exfd, on_accept); exok = r; rt_done(); return kev_ok; }
SCEN(existing_bad, B({0,0}), B({0,0}), 30000, 1, KMC_F_SEQ) {
	rt_start(1); kmc_explore(0); rt_mark(); S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); fop = "getsockname"; fnth = 0; ffor = kmc_choose(2); vk_set_fault(inject2); sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_port = htons(8080); a.v4.sin_addr.s_addr = htonl(0x7f000001); exfd = ksocket_listen(&a, 0); CHECK(exfd >= 0, "listen");
	kgl_selector_module.next(SEL(0), NULL, takeover, NULL, 0); rt_wait(1); CHECK(exok == !ffor, "taking over returned %d", exok); vk_set_fault(0); if (ffor) { kgl_selector_module.next(SEL(0), NULL, takeover, NULL, 0); rt_wait(2); CHECK(exok, "second try"); } must = 1; talk(0); kserver_close(S); kserver_release(S); rt_settle(300); finish(1);
}
/* a listening socket that cannot be registered is released; the others serve on, and closing is clean */
SCEN(register_fails, B({0,0}), B({0,0},{1,0}), 30000, 1, KMC_F_SEQ) {
	int n = 1 + kmc_choose(2); rt_start(n); kmc_explore(0); rt_mark(); sopen(n); fop = "epoll_ctl"; fnth = 0; ffor = 1 + kmc_choose(n); vk_set_fault(inject2); CHECK(kserver_open(S, 0, on_accept), "open"); usleep(300000); vk_set_fault(0);
	CHECK(vk_open_fds() == g_base_fds + n - ffor, "%d sockets left of %d, %d of which failed", vk_open_fds() - g_base_fds, n, ffor); must = ffor < n; talk(0); talk(1); if (!must) CHECK(!cli_ok[0] && !cli_ok[1], "served without a socket"); kserver_close(S); if (kmc_choose(2)) { CHECK(kserver_open(S, 0, on_accept), "open again"); usleep(200000); must = 1; talk(2); kserver_close(S); } else cli_reset[2] = 1; kserver_release(S); rt_settle(300); finish(3);
}
/* every connection carries the address of its own peer and the one that was dialled, over both families, on one or every local address, handed over or taken by a fiber */
GHOST static sockaddr_i ad_peer[3], ad_own[3]; GHOST static int ad_n, ad_fam, ad_seen[3]; static kserver_selectable *ad_ss;
static void ad_eq(const sockaddr_i *a, const sockaddr_i *b, const char *what) {
	CHECK(a->v4.sin_family == (ad_fam ? AF_INET6 : AF_INET), "family of %s", what); CHECK(ksocket_addr_port(a) == ksocket_addr_port(b), "port of %s: %d, expected %d", what, ksocket_addr_port(a), ksocket_addr_port(b));
	CHECK(ad_fam ? !memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, 16) : a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr, "%s", what);
}
static int ad_fiber(void *v, int) {
	kconnection *c = (kconnection *)v; char b; CHECK(kfiber_net_read(c, &b, 1) == 1 && b >= 0 && b < 3, "hello"); CHECK(ad_seen[(int)b]++ == 0, "connection %d accepted twice", b); n_acc++; ad_eq(&c->addr, &ad_peer[(int)b], "peer address of the connection"); sockaddr_i o; memset(&o, 0, sizeof o); CHECK(kconnection_self_addr(c, &o) == 0, "own address"); ad_eq(&o, &ad_own[(int)b], "own address of the connection");
	b += 64; CHECK(kfiber_net_write(c, &b, 1) == 1, "answer"); kfiber_net_close(c); rt_done(); return 0;
}
KACCEPT_CALLBACK(ad_accept) { kconnection *c = (kconnection *)arg; kfiber_create2(c->st.base.selector, ad_fiber, c, 0, 0, NULL); return kev_ok; }
static int ad_acceptor(void *, int) { CHECK(kfiber_net_listen(S, 0, &ad_ss) == 0, "listen"); nloop++; for (;;) { kconnection *c = NULL; if (kfiber_net_accept(ad_ss, &c) != 0 || !c) break; kfiber_create2(c->st.base.selector, ad_fiber, c, 0, 0, NULL); } kserver_selectable_destroy(ad_ss); nloop--; return 0; }
static void ad_set(sockaddr_i *a, const char *ip, int port) { CHECK(ksocket_getaddr(ip, port, AF_UNSPEC, AI_NUMERICHOST, a), "address %s", ip); }
SCEN(addresses, B({0,0}), B({0,0},{1,0}), 30000, 1, KMC_F_SEQ) {
	static const char *OWN[2][3] = { { "127.0.0.1", "127.0.0.9", "10.200.0.129" }, { "::1", "fe80::1:2:3:4", "2001:db8:8000:ffff:0:ff00:1234:80fe" } }, *PEER[2][3] = { { "127.0.0.1", "10.0.0.129", "192.168.255.254" }, { "::1", "2001:db8:1:2:3:4:5:6", "2001:db8:1:2:3:4:5:7" } };
	ad_fam = kmc_choose(2); int every = kmc_choose(2), fib = kmc_choose(2), rev = kmc_choose(2); rt_start(1); rt_mark(); kmc_explore(0); S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); int only = kmc_choose(3); CHECK(kserver_bind(S, every ? (ad_fam ? "::" : "0.0.0.0") : OWN[ad_fam][only], 8080, NULL), "bind");
	if (fib) { kfiber_create2(SEL(0), ad_acceptor, NULL, 0, 0, NULL); while (!nloop) usleep(1000); } else CHECK(kserver_open(S, 0, ad_accept), "open");
	int fd[3]; for (int k = 0; k < 3; k++) { int i = rev ? 2 - k : k; ad_set(&ad_peer[i], PEER[ad_fam][i], 40000 + 255 * i); ad_set(&ad_own[i], every ? OWN[ad_fam][i] : OWN[ad_fam][only], 8080); fd[i] = socket(ad_fam ? AF_INET6 : AF_INET, SOCK_STREAM, 0); CHECK(bind(fd[i], (struct sockaddr *)&ad_peer[i], ksocket_addr_len(&ad_peer[i])) == 0 && connect(fd[i], (struct sockaddr *)&ad_own[i], ksocket_addr_len(&ad_own[i])) == 0, "connection %d refused", i); char b = i; CHECK(write(fd[i], &b, 1) == 1, "write"); }
	for (int i = 0; i < 3; i++) { char b; CHECK(read(fd[i], &b, 1) == 1 && b == 64 + i, "answer %d", i); close(fd[i]); cli_ok[i] = 1; acc[i] = 1; }
	rt_wait(3); kserver_close(S); kserver_release(S); rt_settle(300); CHECK(!nloop, "acceptor"); finish(3);
}
/* a crowd of clients is connected before any of them is answered */
#define CROWD 260
GHOST static int cr_acc[CROWD], cr_in, cr_out, cr_go;
static int cr_serve(void *a, int) { kconnection *c = (kconnection *)a; unsigned char b[2]; int n = 2; CHECK(kfiber_net_read_full(c, (char *)b, &n), "hello"); int id = b[0] * 256 + b[1]; CHECK(id < CROWD && ++cr_acc[id] == 1, "connection %d accepted twice", id); cr_in++; while (!cr_go) kfiber_msleep(50); b[0] ^= 0x55; n = 2; CHECK(kfiber_net_write_full(c, (char *)b, &n), "answer"); kfiber_net_close(c); cr_out++; return 0; }
KACCEPT_CALLBACK(cr_accept) { kconnection *c = (kconnection *)arg; n_acc++; CHECK(c->st.base.selector == kgl_get_tls_selector() && c->server == S, "accept"); kfiber_create2(c->st.base.selector, cr_serve, c, 0, 4096, NULL); return kev_ok; }
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	rt_start(2); rt_mark(); kmc_explore(0); sopen(2); CHECK(kserver_open(S, 0, cr_accept), "open"); vk_spread(); static int fd[CROWD];
	for (int i = 0; i < CROWD; i++) { fd[i] = dial(NULL); CHECK(fd[i] >= 0, "connection %d refused by an open server", i); char b[2] = { (char)(i >> 8), (char)i }; CHECK(write(fd[i], b, 2) == 2, "write"); }
	kmc_explore(1); rt_settle(500); CHECK(cr_in == CROWD && n_acc == CROWD, "%d of %d clients accepted", cr_in, CROWD); cr_go = 1; rt_settle(500); CHECK(cr_out == CROWD, "%d of %d answered", cr_out, CROWD);
	for (int i = 0; i < CROWD; i++) { unsigned char b[4]; CHECK(read(fd[i], b, 4) == 2 && b[0] == ((i >> 8) ^ 0x55) && b[1] == (unsigned char)i, "answer of client %d", i); close(fd[i]); }
	kserver_close(S); kserver_release(S); rt_settle(300); CHECK(freed == 1, "server freed %d times", freed); rt_check_released("crowd"); kmc_end();
}
/* a server closed while a client comes is bound to another port (or path) and opened again at once: the new place is served, the old one is gone */
static void *old_client(void *a) { talk(0); return 0; }
static void rebind(int sels, int unix_) {
	rt_start(sels); rt_mark(); kmc_explore(0); sopen(sels); CHECK(kserver_open(S, 0, on_accept), "open"); usleep(1000); kmc_explore(1);
	pthread_t t; pthread_create(&t, 0, old_client, NULL); kserver_close(S); CHECK(kserver_bind(S, unix_ ? "/v/other" : "127.0.0.1", 8081, NULL), "bind"); CHECK(kserver_open(S, 0, on_accept), "open again"); pthread_join(t, 0); kmc_explore(0); usleep(2000); CHECK(dial(NULL) < 0, "the old port still accepts");
	for (int i = 1; i < 4; i++) { int fd; if (unix_) { struct sockaddr_un u; ksocket_unix_addr("/v/other", &u); fd = socket(AF_UNIX, SOCK_STREAM, 0); CHECK(connect(fd, (struct sockaddr *)&u, sizeof u) == 0, "the new path refuses"); } else { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(8081); a.sin_addr.s_addr = htonl(0x7f000001); fd = socket(AF_INET, SOCK_STREAM, 0); CHECK(connect(fd, (struct sockaddr *)&a, sizeof a) == 0, "the new port refuses"); } char b = i; CHECK(write(fd, &b, 1) == 1 && read(fd, &b, 1) == 1 && b == i + 64, "connection %d at the new place", i); cli_ok[i] = 1; close(fd); }
	kserver_close(S); usleep(2000); kserver_release(S); rt_settle(300); finish(4);
}
SCEN(rebind_1sel, B({0,0},{1,0},{2,0}), B({3,0}), 3000, 0, KMC_F_EPORDER) { rebind(1, 0); }
SCEN(rebind_2sel, B({0,0},{1,0}), B({2,0}), 3000, 0, 0) { rebind(2, 0); }
SCEN(rebind_unix, B({0,0},{1,0},{2,0}), B({3,0}), 3000, 0, 0) { rebind(2, 1); }
