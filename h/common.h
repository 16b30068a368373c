/* shared harness helpers: only public kasync API is used here */
#pragma once
#include "kmc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "kfeature.h"
#include "kforwin32.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kthread.h"
#include "kserver.h"
#include "kconnection.h"
#include "kaddr.h"
#include "kbuf.h"
#include "kmalloc.h"
#include "klist.h"
#include "krbtree.h"
#include "kasync_worker.h"
#include "kudp.h"
/* values at the ends of the narrower types */
static const int g_values[] = { -2147483647 - 1, -70000, -32769, -129, -1, 0, 1, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 16777217, 2147483647 };
#define NVALUES (int)(sizeof g_values / sizeof *g_values)
#define WIDE(i) ((void *)(((long)(unsigned)g_values[i] << 31) ^ 0x5a00000000ab0000L ^ g_values[i]))
extern "C" {
int vk_connect_complete(int err, int *peerfd);
int vk_connect_pending(void);
int vk_fd_open(int fd);
int vk_peer_pending(int fd);
int vk_aio_pending(void);
int vk_aio_contexts(void);
void vk_rst(int fd);
int vk_file_flags(int fd);
int vk_sockopt(int fd, int level, int opt);
int vk_sockflags(int fd);
}
#ifndef KEEP_SSL_INIT
extern "C" void __wrap_kssl_init2(void) {}
#endif
/* start n selectors, each on its own thread, and let them settle; exploration is on afterwards */
static inline void rt_start(int n) {
	kmc_explore(0);
	kasync_init();
	selector_manager_init(n, false);
	selector_manager_start(NULL, true);
	usleep(1000);
	kmc_explore(1);
}
#define SEL(i) get_selector_by_index(i)
GHOST static int g_need_done, g_done;
static int rt_done_pred(void *) { return g_done >= g_need_done; }
static inline void rt_done(void) { g_done++; }
/* wait until rt_done() has been called n times */
static inline void rt_wait(int n) { g_need_done = n; kmc_wait_until(rt_done_pred, 0); }
/* let everything in flight finish (no preemptions) */
static inline void rt_settle(int ms) { kmc_explore(0); usleep(ms * 1000); }
static inline int sel_index(void) { kselector *s = kgl_get_tls_selector(); return s ? s->sid : -1; }
/* let other work of this selector run: post to ourselves and wait for it */
static inline void fiber_yield(void) {
	kfiber *f = kfiber_self2(); static char code;
	kgl_selector_module.next(f->base.selector, (KOPAQUE)&code, kfiber_result_callback, f, 0);
	__kfiber_wait(f, &code);
}
GHOST static size_t g_base_live; GHOST static int g_base_fds;
static inline void rt_mark(void) { g_base_live = kmc_live_allocs(); g_base_fds = vk_open_fds(); }
/* nothing allocated, opened or running any more beyond what rt_mark() saw */
static inline void rt_check_released(const char *what) {
	rt_settle(400);
	if (kmc_live_allocs() != g_base_live || vk_open_fds() != g_base_fds) { kmc_dump_live(); vk_dump_fds(); }
	CHECK(vk_open_fds() == g_base_fds, "%s: %d descriptors open, %d expected", what, vk_open_fds(), g_base_fds);
	CHECK(kmc_live_allocs() == g_base_live, "%s: memory not released (%d blocks)", what, (int)(kmc_live_allocs() - g_base_live));
}
struct scen_reg { scen_reg(const kmc_scenario *s) { kmc_register(s); } };
#define SCEN(id, ...) static void scen_##id(void); static const kmc_scenario ks_##id = { #id, scen_##id, __VA_ARGS__ }; static scen_reg kr_##id(&ks_##id); static void scen_##id(void)
#define B(...) { __VA_ARGS__, KMC_BOUNDS_END }
