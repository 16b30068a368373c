#pragma once
#include "kmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <vector>
#include <string>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;
#ifndef MAXT
#define MAXT 16
#endif
struct VC { u16 c[MAXT]; };
struct Thread;
typedef int (*predfn)(void *);
struct Thread {
	int id; void *sp; int state; /* 0 free 1 live 2 done */
	int started;
	void *(*fn)(void *); void *arg; void *ret;
	predfn pred; void *parg; i64 deadline; int blocked; int timedout;
	const char *why; const void *wobj;
	VC vc; u64 h; int err;
	const void *keys[64];
	u64 sigpend, sigblock;
	int detached, joined, device;
	/* spin detection */
	const void *sp_addr; u32 sp_ver; int sp_cnt; void *sp_pc;
	char *stk; size_t stk_sz;
	/* bump allocator */
	char *brk, *brk_base, *brk_end; char *hi;
};
struct Obj { u64 key; u32 stamp; u32 ver; u64 h; VC vc; int owner; int a, b; u64 waiters; };
enum { CLS_FREE = 0, CLS_P = 1, CLS_E = 2 };
struct Choice { u16 n; u16 c; u8 cls; u8 uP, uE; };
struct Eng {
	int in_sim; int explore; int stamp;
	Thread t[MAXT]; int nt; Thread *cur;
	void *main_sp;
	i64 now;      /* monotonic virtual time, us */
	i64 wall_off; /* wall = now + wall_off */
	int boundP, boundE, usedP, usedE;
	const u16 *prefix; size_t plen;
	std::vector<Choice> trace;
	u64 fp; u64 steps, accesses;
	int outcome; /* 0 running 1 ok 2 violation 3 pruned 4 internal */
	std::string msg;
	const kmc_scenario *sc;
	int replay;
	u32 live_n; size_t live_b;
	int seq;
	int fail_alloc;
	std::string outcome_str;
	u64 nolog;
};
extern Eng *G;
Obj *obj(const void *addr);
void visible(const void *addr, int write, const char *what);
void sched_point(void);
int  block(predfn p, void *arg, i64 deadline, const char *why, const void *wobj);
int  choose(int n, int cls);
void mixh(u64 v);
void violation(const char *fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void finish(int outcome);
void range_access(const void *p, size_t n, int write, void *pc);
void *karena_alloc(size_t n, size_t align, void *pc);
void karena_free(void *p, void *pc);
int in_arena(const void *p);
Thread *new_thread(void *(*fn)(void *), void *arg, const char *name);
void vk_reset(void);
void internal_error(const char *fmt, ...) __attribute__((format(printf,1,2)));
void endless(const char *what);
void ktrace(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define TRACE(...) do { if (G->replay) ktrace(__VA_ARGS__); } while (0)
static inline u64 mix64(u64 a, u64 b) { u64 x = (a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; x ^= x >> 32; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 29; return x; }
