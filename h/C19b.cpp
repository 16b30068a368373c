// ENGINE: -DMAXT=60 -DREGION_MB=16
/* many functions called on other threads at once, from two event loops */
#include "common.h"
#define N 52
GHOST static int cur, peak, ticks; static int opened(void *) { return peak == N; }
static int work(void *a, int n) { CHECK(n == (int)(long)a * 3, "argument count %d", n); cur++; if (cur > peak) peak = cur; kmc_wait_until(opened, NULL); usleep(1000 * (N - (int)(long)a)); cur--; return n + 1; }
static int caller(void *a, int n) { int k = (int)(long)a, r = 0; CHECK(kfiber_thread_call(work, (void *)(long)k, k * 3, &r) == 0 && r == k * 3 + 1, "call %d: result %d", k, r); CHECK(kgl_get_tls_selector() == SEL(k & 1), "continued on another loop"); kfiber_msleep(1); rt_done(); return 0; }
static int ticker(void *, int) { for (int i = 0; i < 10; i++) { kfiber_msleep(1); ticks++; } rt_done(); return 0; }
SCEN(many_calls, B({0,0}), B({0,0}), 60000, 1, 0) { rt_start(2); kmc_explore(0); rt_mark(); for (int i = 0; i < N; i++) kfiber_create2(SEL(i & 1), caller, (void *)(long)i, 0, 8192, NULL); kfiber_create2(SEL(0), ticker, NULL, 0, 0, NULL); rt_wait(N + 1); CHECK(peak == N && cur == 0, "%d calls at once", peak); usleep(1000); kthread_close_all_free(); rt_check_released("calls"); kmc_end(); }
