/* kmc - a stateless model checker for C/C++ code compiled with -fsanitize=thread
 * but linked against this runtime instead of libtsan.  See DESIGN.md, "Engine". */
#ifndef KMC_H
#define KMC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define GHOST __attribute__((section("kmcghost")))
#define NOTSAN __attribute__((no_sanitize("thread")))

typedef struct kmc_bound { int P, E; } kmc_bound;  /* preemptions, environment deviations */
typedef struct kmc_scenario {
	const char *name;
	void (*fn)(void);
	kmc_bound quick[6];     /* iterated bounds, terminated by P<0 */
	kmc_bound thorough[8];
	int horizon_ms;         /* virtual-time horizon */
	int npcost;             /* 1: choosing a non-default thread at a blocking point costs a preemption */
	int flags;
} kmc_scenario;
#define KMC_BOUNDS_END {-1,-1}
#define KMC_F_TIME      1   /* timers may fire before other runnable threads run (E deviation) */
#define KMC_F_SPURIOUS  2   /* spurious condition-variable wakeups (E deviation) */
#define KMC_F_FORK      4   /* one process per execution */
#define KMC_F_EINTR     8   /* epoll_wait may return EINTR (E deviation) */
#define KMC_F_SEQ      16   /* sequential harness: no scheduling choices */
#define KMC_F_SHORTIO  32   /* reads / writes may be cut short (E deviation) */
#define KMC_F_EPORDER  64   /* epoll_wait may report events in another order / fewer events (E deviation) */
#define KMC_F_THREADFAIL 128 /* pthread_create may fail (E deviation) */
#define KMC_F_LEAKOK   256
void kmc_register(const kmc_scenario *s);

/* nondeterminism */
int  kmc_choose(int n);             /* free choice, exhaustively enumerated */
int  kmc_deviate(int n);            /* option 0 is the default; others cost one environment deviation */
void kmc_yield(void);               /* a scheduling point */
void kmc_wait_until(int (*pred)(void *), void *arg);   /* ghost blocking */
void kmc_explore(int on);           /* preemptions on/off (off while setting up / tearing down) */
void kmc_seen(uint64_t statehash);  /* sequential harness: abandon the run if this canonical state was expanded before */
void kmc_end(void);                 /* finish this execution successfully */
int  kmc_tid(void);
int64_t kmc_now_us(void);
void kmc_set_clock_us(int64_t us);  /* step the (wall) clock, may go backwards */
void kmc_advance_us(int64_t us);
/* oracle */
void kmc_fail(const char *fmt, ...) __attribute__((format(printf,1,2)));
void kmc_outcome(const char *fmt, ...) __attribute__((format(printf,1,2)));
void kmc_trace(const char *fmt, ...) __attribute__((format(printf,1,2)));
int  kmc_replaying(void);
#define CHECK(c, ...) do { if (!(c)) kmc_fail(__VA_ARGS__); } while (0)
/* memory */
size_t kmc_live_allocs(void);
size_t kmc_live_bytes(void);
void   kmc_fail_alloc_after(int n);
/* expected abort: the next assert/abort/crash ends the run successfully */
void kmc_dump_live(void);
uint64_t kmc_hash(const void *p, size_t n, uint64_t seed);
/* virtual kernel */
int   vk_open_fds(void);
void  vk_dump_fds(void);
void  vk_spread(void);               /* from now on connections go to the listeners of one port in turn, not to any of them */
void  vk_set_sockbuf(int bytes);     /* capacity of each direction of a stream socket created afterwards */
int   vk_socketpair(int fds[2], int nonblock);
void  vk_file_set_at(const char *path, long long at, const void *data, size_t len);
void  vk_mknode(const char *path, const char *link, long mtime); /* a symbolic link, or a directory when link is NULL */
void  vk_file_mtime(const char *path, long mtime);
void  vk_file_set(const char *path, const void *data, size_t len);
long  vk_file_get(const char *path, void *data, size_t cap);
void  vk_aio_faults(int on);         /* short / failed asynchronous file I/O allowed (E deviation) */
void  vk_set_fault(int (*f)(const char *op, int fd)); /* returns errno to inject or 0 */
void  vk_dns_add(const char *host, const char *ip4, int rc);
void  vk_dns_clear(void);
int   vk_dns_lookups(void);
int   vk_readable(int fd);
int   vk_refs_listen_backlog(int fd);
#ifdef __cplusplus
}
#endif
#endif
