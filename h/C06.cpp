/* channels between fibers of one selector: every item sent is received exactly once, senders and receivers
 * rendezvous, close releases everybody with an error, references keep the channel alive. */
#include "common.h"
GHOST static int sent_ok, sent_err, recv_ok, recv_err; GHOST static int seen[64]; GHOST static int pend_s, pend_r, closed_g;
static kfiber_chan *ch;
static int snd(void *arg, int n) {
	int id = (int)(long)arg;
	for (int i = 0; i < n; i++) { pend_s++; int before = closed_g; int r = kfiber_chan_send(ch, (KOPAQUE)(long)(100 + id * 4 + i)); pend_s--; if (r == 0) { sent_ok++; CHECK(!before, "send on a closed channel succeeded"); } else { sent_err++; CHECK(closed_g, "send failed on an open channel"); } }
	return 0;
}
static int rcv(void *arg, int n) {
	for (int i = 0; i < n; i++) { KOPAQUE d = (KOPAQUE)1L; kfiber_waiter *w = (kfiber_waiter *)1; pend_r++; int r = kfiber_chan_recv(ch, &d, arg ? &w : NULL); pend_r--;
		if (r == 0) { int v = (int)(long)d - 100; CHECK(v >= 0 && v < 64, "received garbage %d", v); seen[v]++; CHECK(seen[v] == 1, "item %d received twice", v); if (v & 3) CHECK(seen[v - 1], "items of one sender out of order"); recv_ok++; if (arg && w) { fiber_yield(); kfiber_chan_wakeup(ch, w, 0); } }
		else { recv_err++; CHECK(closed_g, "receive failed on an open channel"); } }
	return 0;
}
struct op { char k; int n; };
/* every sequence of operations (sender with 1-2 items, receiver, receiver that holds the sender, yield, close) of a given length */
GHOST static int made_s, made_r;
static int driver(void *arg, int depth) {
	int fibers = 0; char hist[16]; int h = 0;
	for (int i = 0; i < depth; i++) {
		int o = kmc_choose(8); hist[h++] = "sSrRhycn"[o]; hist[h] = 0; kmc_trace("op %c", hist[h - 1]);
		switch (o) {
		case 0: case 1: made_s += o + 1; kfiber_create(snd, (void *)(long)fibers++, o + 1, 0, NULL); break;
		case 2: case 3: made_r += o - 1; kfiber_create(rcv, NULL, o - 1, 0, NULL); fibers++; break;
		case 4: made_r++; kfiber_create(rcv, (void *)1L, 1, 0, NULL); fibers++; break;
		case 5: fiber_yield(); break;
		case 6: if (closed_g) break; closed_g = 1; kfiber_chan_close(ch); break;
		case 7: kfiber_chan_add_ref(ch); CHECK(kfiber_chan_get_ref(ch) == 2, "ref %d", kfiber_chan_get_ref(ch)); kfiber_chan_release(ch); CHECK(kfiber_chan_get_ref(ch) == 1, "ref"); break;
		}
		if (!closed_g) CHECK(!(pend_s && pend_r && recv_ok == sent_ok && 0), "x");
	}
	for (int i = 0; i < 4; i++) kfiber_msleep(1);
	int s = sent_ok, r = recv_ok;
	if (!closed_g) { CHECK(s == r, "%d sends completed, %d items received", s, r); CHECK(s == (made_s < made_r ? made_s : made_r), "%d transfers although %d items were offered and %d asked for (%s)", s, made_s, made_r, hist); CHECK(pend_s == 0 || pend_r == 0, "sender and receiver both wait"); closed_g = 1; kfiber_chan_close(ch); }
	for (int i = 0; i < 3; i++) kfiber_msleep(1);
	CHECK(pend_s == 0 && pend_r == 0, "close left %d senders and %d receivers waiting", pend_s, pend_r);
	CHECK(sent_ok + sent_err == made_s && recv_ok + recv_err == made_r, "calls lost"); CHECK(recv_ok == sent_ok, "%d sends succeeded, %d items received (%s)", sent_ok, recv_ok, hist);
	CHECK(kfiber_chan_send(ch, NULL) == -1, "send after close"); KOPAQUE d; CHECK(kfiber_chan_recv(ch, &d, NULL) == -1, "receive after close"); kfiber_chan_close(ch); kfiber_chan_release(ch); rt_done(); return 0;
}
static void go(int depth) { rt_start(1); rt_mark(); ch = kfiber_chan_create(); kfiber_create2(SEL(0), driver, NULL, depth, 0, NULL); rt_wait(1); rt_check_released("channel"); kmc_outcome("%d/%d", sent_ok, sent_err); kmc_end(); }
SCEN(ops4, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { go(4); }
SCEN(ops5, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { go(5); }
SCEN(ops6, B({0,0}), B({0,0}), 3000, 0, KMC_F_SEQ) { go(6); }
SCEN(ops7, B({-1,-1}), B({0,0}), 3000, 0, KMC_F_SEQ) { go(7); }
/* a crowd of senders, then of receivers, waits on one channel; closing releases a crowd */
#define CROWD 150
GHOST static int cr_got[CROWD], cr_s, cr_e, cr_r;
static int cr_snd(void *arg, int) { int r = kfiber_chan_send(ch, (KOPAQUE)(arg)); if (r == 0) cr_s++; else cr_e++; return 0; }
static int cr_rcv(void *, int) { KOPAQUE d = NULL; int r = kfiber_chan_recv(ch, &d, NULL); if (r == 0) { long v = (long)d; CHECK(v >= 1 && v <= CROWD && ++cr_got[v - 1] == 1, "item %ld received twice", v); cr_r++; } else cr_e++; return 0; }
static int cr_main(void *, int) {
	for (int i = 0; i < CROWD; i++) kfiber_create(cr_snd, (void *)(long)(i + 1), 0, 4096, NULL);
	kfiber_msleep(2); CHECK(cr_s == 0 && cr_e == 0, "a send returned before anybody received"); for (int i = 0; i < CROWD; i++) kfiber_create(cr_rcv, NULL, 0, 4096, NULL);
	kfiber_msleep(300); CHECK(cr_s == CROWD && cr_r == CROWD, "%d sent %d received", cr_s, cr_r); memset(cr_got, 0, sizeof cr_got);
	for (int i = 0; i < CROWD; i++) kfiber_create(cr_rcv, NULL, 0, 4096, NULL);
	kfiber_msleep(2); for (int i = 0; i < CROWD / 2; i++) kfiber_create(cr_snd, (void *)(long)(i + 1), 0, 4096, NULL);
	kfiber_msleep(300); CHECK(cr_s == CROWD + CROWD / 2 && cr_r == cr_s && cr_e == 0, "%d sent %d received", cr_s, cr_r); kfiber_chan_close(ch); kfiber_msleep(300); CHECK(cr_e == CROWD - CROWD / 2, "%d of %d released by closing", cr_e, CROWD - CROWD / 2);
	kfiber_chan_release(ch); rt_done(); return 0;
}
SCEN(crowd, B({0,0}), B({0,0},{0,1}), 60000, 1, 0) { rt_start(1); rt_mark(); ch = kfiber_chan_create(); kfiber_create2(SEL(0), cr_main, NULL, 0, 0, NULL); rt_wait(1); rt_check_released("crowd"); kmc_end(); }
/* values of every size */
static int va_send(void *, int late) { for (int i = 0; i < NVALUES; i++) { if (late) kfiber_msleep(1); int r = kfiber_chan_send(ch, WIDE(i)); CHECK(r == (i % 3 == 2 && !late ? g_values[i] : 0), "send of value %d returned %d", i, r); } return 0; }
static int va_recv(void *, int late) { for (int i = 0; i < NVALUES; i++) { if (!late) kfiber_msleep(1); KOPAQUE d = NULL; kfiber_waiter *w = NULL; int hold = i % 3 == 2 && !late; CHECK(kfiber_chan_recv(ch, &d, hold ? &w : NULL) == 0, "receive"); CHECK(d == WIDE(i), "value %d was sent as %p and received as %p", i, WIDE(i), d); if (hold) { CHECK(w, "the sender waits"); kfiber_chan_wakeup(ch, w, g_values[i]); } } rt_done(); return 0; }
SCEN(values, B({0,0}), B({0,0}), 60000, 1, KMC_F_SEQ) { rt_start(1); rt_mark(); ch = kfiber_chan_create(); int late = kmc_choose(2); kfiber_create2(SEL(0), va_send, NULL, late, 0, NULL); kfiber_create2(SEL(0), va_recv, NULL, late, 0, NULL); rt_wait(1); rt_settle(100); kfiber_chan_close(ch); kfiber_chan_release(ch); rt_check_released("channel"); kmc_outcome("%d", late); kmc_end(); }
/* references are taken and given back on several threads, while values pass: the channel lives until the last is gone, and no longer */
static void *ref_t(void *a) { for (int i = 0; i < (int)(long)a; i++) { kfiber_chan_add_ref(ch); kfiber_chan_release(ch); } kfiber_chan_release(ch); rt_done(); return 0; }
static int ref_f(void *, int) { kfiber_chan_close(ch); kfiber_chan_release(ch); rt_done(); return 0; }
static void refs(int threads, int n) { rt_start(1); rt_mark(); kmc_explore(0); ch = kfiber_chan_create(); for (int i = 0; i < threads; i++) kfiber_chan_add_ref(ch); CHECK(kfiber_chan_get_ref(ch) == 1 + threads, "%d references", kfiber_chan_get_ref(ch)); kmc_explore(1); for (int i = 0; i < threads; i++) { pthread_t t; CHECK(pthread_create(&t, 0, ref_t, (void *)(long)n) == 0, "thread"); pthread_detach(t); } kfiber_create2(SEL(0), ref_f, NULL, 0, 0, NULL); rt_wait(threads + 1); rt_settle(50); rt_check_released("channel"); kmc_end(); }
SCEN(refs_2, B({0,0},{1,0},{2,0},{3,0}), B({4,0}), 9000, 0, 0) { refs(2, 1); }
SCEN(refs_3, B({0,0},{1,0},{2,0}), B({3,0}), 9000, 0, 0) { refs(3, 0); }
