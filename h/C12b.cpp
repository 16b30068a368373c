// ENGINE: -DMAXT=60 -DREGION_MB=16
/* a server on many event loops: each has its own listening socket, every connection is served once on the loop that accepted it */
#include "common.h"
#define NL 32
#define NC 96
GHOST static int freed, in, out, go_on, n_acc, seen[NC], per[NL]; static kserver *S; static int fd[NC];
static void free_opaque(KOPAQUE d) { CHECK(d == (KOPAQUE)0x77, "opaque"); freed++; CHECK(freed == 1, "server freed twice"); }
static int serve(void *a, int) { kconnection *c = (kconnection *)a; CHECK(c->st.base.selector == kgl_get_tls_selector(), "connection handled outside its event loop"); unsigned char b[2]; int n = 2; CHECK(kfiber_net_read_full(c, (char *)b, &n), "hello"); int id = b[0] * 256 + b[1]; CHECK(id < NC && ++seen[id] == 1, "connection %d accepted twice", id); in++; while (!go_on) kfiber_msleep(50); CHECK(!freed, "server freed while a connection of it exists"); b[0] ^= 0x55; n = 2; CHECK(kfiber_net_write_full(c, (char *)b, &n), "answer"); kfiber_net_close(c); out++; return 0; }
KACCEPT_CALLBACK(on_accept) { kconnection *c = (kconnection *)arg; n_acc++; CHECK(c->st.base.selector == kgl_get_tls_selector() && c->server == S, "accept"); per[c->st.base.selector->sid]++; kfiber_create2(c->st.base.selector, serve, c, 0, 16384, NULL); return kev_ok; }
static int dial(void) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(8080); a.sin_addr.s_addr = htonl(0x7f000001); int f = socket(AF_INET, SOCK_STREAM, 0); if (connect(f, (struct sockaddr *)&a, sizeof a)) { close(f); return -1; } return f; }
static int noaio(const char *op, int) { return strcmp(op, "io_setup") ? 0 : ENOSYS; }
SCEN(many_loops, B({0,0}), B({0,0},{0,1}), 60000, 1, KMC_F_EPORDER) {
	kmc_explore(0); vk_set_fault(noaio); rt_start(NL); rt_mark(); S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)0x77); CHECK(kserver_bind(S, "127.0.0.1", 8080, NULL), "bind"); CHECK(kserver_open(S, 0, on_accept), "open"); CHECK(is_server_multi_selectable(S), "multi"); vk_spread();
	CHECK(vk_open_fds() == g_base_fds + NL, "%d listening sockets for %d event loops", vk_open_fds() - g_base_fds, NL);
	for (int i = 0; i < NC; i++) { fd[i] = dial(); CHECK(fd[i] >= 0, "connection %d refused by an open server", i); char b[2] = { (char)(i >> 8), (char)i }; CHECK(write(fd[i], b, 2) == 2, "write"); }
	rt_settle(500); CHECK(in == NC && n_acc == NC, "%d of %d clients accepted", in, NC); for (int i = 0; i < NL; i++) CHECK(per[i] == NC / NL, "event loop %d accepted %d", i, per[i]);
	kserver_close(S); kserver_release(S); usleep(300000); CHECK(!freed && n_acc == NC, "freed %d, %d accepted", freed, n_acc); int r = dial(); CHECK(r < 0, "a closed server accepts"); CHECK(vk_open_fds() == g_base_fds + 2 * NC, "listening sockets left open: %d", vk_open_fds() - g_base_fds - 2 * NC);
	go_on = 1; rt_settle(500); CHECK(out == NC, "%d of %d answered", out, NC);
	for (int i = 0; i < NC; i++) { unsigned char b[4]; CHECK(read(fd[i], b, 4) == 2 && b[0] == ((i >> 8) ^ 0x55) && b[1] == (unsigned char)i, "answer of client %d", i); close(fd[i]); }
	usleep(300000); CHECK(freed == 1, "server freed %d times", freed); rt_check_released("server"); kmc_end();
}
