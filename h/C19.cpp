/* kfiber_thread_call: a function runs once on another thread while the event loop goes on, then its fiber goes on with the result on its own loop */
#include "common.h"
GHOST static int ran[32], hold[32], ticks[4], stop, released_at[32], active;
static int unheld(void *p) { return !hold[(int)(long)p]; }
struct job { int id; int argc; };
GHOST static struct job jobs[32];
static int work(void *a, int argc) { struct job *j = (struct job *)a; int id = j ? j->id : 31; CHECK(!j || argc == j->argc, "wrong argument count %d", argc); CHECK(kgl_get_tls_selector() == NULL, "runs on an event loop"); CHECK(++ran[id] == 1, "function %d ran %d times", id, ran[id]); active++; kmc_yield(); if (hold[id]) kmc_wait_until(unheld, (void *)(long)id); active--; return 1000 + id * 10 + argc; }
static int nullwork(void *a, int argc) { CHECK(a == NULL, "argument"); ran[30]++; return -5; }
static int caller(void *a, int n) { int base = (int)(long)a, s = sel_index(); for (int i = 0; i < n; i++) { int id = base + i; struct job *j = &jobs[id]; j->id = id; j->argc = i - 1; int r = -77; int rc = kfiber_thread_call(work, j, j->argc, i == 2 ? NULL : &r); CHECK(sel_index() == s, "continued on event loop %d instead of %d", sel_index(), s); if (rc == 0) { CHECK(ran[id] == 1, "returned though the function ran %d times", ran[id]); if (i != 2) CHECK(r == 1000 + id * 10 + j->argc, "result %d of function %d", r, id); } else { CHECK(rc == -1 && ran[id] == 0, "failed with %d though the function ran %d times", rc, ran[id]); CHECK(r == -77, "result stored by a failing call"); kmc_outcome("f"); } j->id = 31; /* the argument may be gone now */ } rt_done(); return 40 + base; }
static void run(int sels, int fibers, int n) { rt_start(sels); rt_mark(); for (int i = 0; i < fibers; i++) CHECK(kfiber_create2(SEL(i % sels), caller, (void *)(long)(i * 4), n, 0, NULL) == 0, "create"); rt_wait(fibers); kmc_explore(0); usleep(1000); kthread_close_all_free(); rt_check_released("thread call"); kmc_end(); }
SCEN(one, B({0,0},{1,0},{2,0},{3,0},{4,0}), B({5,0},{6,0}), 20000, 1, 0) { run(1, 1, 3); }
SCEN(two_fibers, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 1, 0) { run(1, 2, 2); }
SCEN(two_loops, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 1, 0) { run(2, 2, 2); }
SCEN(fails, B({0,0},{0,1},{0,2},{1,1},{2,2}), B({1,3},{3,3},{4,2}), 20000, 1, KMC_F_THREADFAIL) { run(1, 2, 3); }
/* the event loop goes on meanwhile: another fiber's timer and messages run, and it releases the function */
static int ticker(void *a, int n) { for (int i = 0; i < 3; i++) { kfiber_msleep(150); CHECK(active == 2, "%d functions run", active); ticks[0]++; } hold[1] = 0; while (active != 1) kfiber_msleep(10); for (int i = 0; i < 3; i++) fiber_yield(); hold[0] = 0; rt_done(); return 0; }
static int holder(void *a, int n) { int id = (int)(long)a; struct job j = { id, 7 }; int r = 0; hold[id] = 1; CHECK(kfiber_thread_call(work, &j, 7, &r) == 0, "call"); CHECK(r == 1007 + id * 10, "result %d", r); CHECK(ticks[0] == 3, "event loop did not go on (%d)", ticks[0]); CHECK(hold[id] == 0, "returned early"); if (id == 0) CHECK(released_at[1], "order"); released_at[id] = 1; rt_done(); return 0; }
SCEN(goes_on, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 1, 0) { rt_start(1); rt_mark(); for (int i = 0; i < 2; i++) kfiber_create2(SEL(0), holder, (void *)(long)i, 0, 0, NULL); kfiber_create2(SEL(0), ticker, NULL, 0, 0, NULL); rt_wait(3); kmc_explore(0); usleep(1000); kthread_close_all_free(); rt_check_released("thread call"); kmc_end(); }
/* the fiber keeps working as a fiber afterwards: sleeping, joining, its own result; NULL argument and result */
static int sub(void *a, int n) { int r = 0; CHECK(kfiber_thread_call(nullwork, NULL, 0, &r) == 0 && r == -5, "result %d", r); kfiber_msleep(1); CHECK(kfiber_thread_call(nullwork, NULL, 0, NULL) == 0, "call"); CHECK(ran[30] == 2, "ran %d", ran[30]); return n + 1; }
static int parent(void *a, int n) { kfiber *f; CHECK(kfiber_create(sub, NULL, 41, 0, &f) == 0, "create"); int r = 0; CHECK(kfiber_join(f, &r) == 0 && r == 42, "fiber's result %d", r); struct job j = { 3, 0 }; CHECK(kfiber_thread_call(work, &j, 0, &r) == 0 && r == 1030, "result %d", r); rt_done(); return 0; }
SCEN(after, B({0,0},{1,0},{2,0},{3,0},{4,0}), B({5,0},{6,0}), 20000, 1, 0) { rt_start(1); rt_mark(); kfiber_create2(SEL(0), parent, NULL, 0, 0, NULL); rt_wait(1); kmc_explore(0); usleep(1000); kthread_close_all_free(); rt_check_released("thread call"); kmc_end(); }
/* a crowd: calls one after the other, and several at once again and again */
GHOST static int cr_run; static int cr_work(void *a, int n) { cr_run++; CHECK(n == (int)(long)a * 3, "argument count %d", n); return n + 1; }
static int cr_caller(void *a, int n) { for (int i = 0; i < n; i++) { int k = (int)(long)a * 1000 + i, r = 0; CHECK(kfiber_thread_call(cr_work, (void *)(long)k, k * 3, &r) == 0 && r == k * 3 + 1, "call %d of fiber %d: result %d", i, (int)(long)a, r); CHECK(sel_index() == 0, "loop"); } rt_done(); return 0; }
SCEN(crowd, B({0,0}), B({0,0},{1,0}), 60000, 1, 0) { rt_start(1); rt_mark(); kmc_explore(0); kfiber_create2(SEL(0), cr_caller, (void *)1L, 300, 0, NULL); rt_wait(1); CHECK(cr_run == 300, "%d calls ran", cr_run); kmc_explore(1); for (int i = 0; i < 10; i++) kfiber_create2(SEL(0), cr_caller, (void *)(long)i, 12, 0, NULL); rt_wait(11); kmc_explore(0); CHECK(cr_run == 420, "%d calls ran", cr_run); usleep(1000); kthread_close_all_free(); rt_check_released("thread calls"); kmc_end(); }
/* the function tells other fibers and loops while it runs */
GHOST static kfiber_cond *cnd; static int teller(void *a, int n) { for (int i = 0; i < 2; i++) { kmc_yield(); cnd->f->notice(cnd, i + 1); } return 9; }
static int listener(void *a, int n) { int got = 0; CHECK(cnd->f->wait(cnd, &got) == 0, "wait"); rt_done(); return 0; }
static int tcaller(void *a, int n) { int r = 0; CHECK(kfiber_thread_call(teller, NULL, 0, &r) == 0 && r == 9, "result %d", r); rt_done(); return 0; }
SCEN(tells, B({0,0},{1,0},{2,0},{3,0}), B({4,0},{5,0}), 20000, 1, 0) { rt_start(2); rt_mark(); cnd = kfiber_cond_init_ts(true); kfiber_create2(SEL(1), listener, NULL, 0, 0, NULL); kfiber_create2(SEL(0), tcaller, NULL, 0, 0, NULL); rt_wait(2); kmc_explore(0); usleep(1000); cnd->f->release(cnd); kthread_close_all_free(); rt_check_released("thread call"); kmc_end(); }
/* arguments, argument counts and results of every size */
GHOST static int va_n; static int va_work(void *a, int n) { int k = va_n++; CHECK(a == WIDE(k), "function got %p instead of %p", a, WIDE(k)); CHECK(n == g_values[(k * 5 + 3) % NVALUES], "argument count %d instead of %d", n, g_values[(k * 5 + 3) % NVALUES]); return g_values[k]; }
static int va_caller(void *, int) { for (int i = 0; i < NVALUES; i++) { int r = -77; CHECK(kfiber_thread_call(va_work, WIDE(i), g_values[(i * 5 + 3) % NVALUES], &r) == 0 && r == g_values[i], "the function returned %d, the call gave %d", g_values[i], r); } rt_done(); return 0; }
SCEN(values, B({0,0}), B({0,0},{1,0}), 20000, 1, 0) { rt_start(1); rt_mark(); kfiber_create2(SEL(0), va_caller, NULL, 0, 0, NULL); rt_wait(1); kmc_explore(0); CHECK(va_n == NVALUES, "%d calls", va_n); usleep(1000); kthread_close_all_free(); rt_check_released("thread call"); kmc_end(); }
