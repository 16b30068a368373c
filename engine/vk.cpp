/* kmc virtual kernel: descriptors, epoll, stream and datagram sockets, eventfd,
 * in-memory files, Linux AIO, name lookups.  One operation = one visible step. */
#include "kmc_int.h"
#include <deque>
#include <map>
#include <string>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/aio_abi.h>
#include <poll.h>
#include <mntent.h>
#define RA __builtin_return_address(0)
#define FD0 1000
#define NFD 4096

enum { T_NONE, T_EVENTFD, T_EPOLL, T_STREAM, T_UDP, T_FILE };
struct Node { std::string name; std::vector<u8> data; int is_sock = 0; i64 hole = 0; /* zero bytes before data, not stored */ i64 mtime = 0; int is_dir = 0; int mode = 0644; /* no umask */ std::string link; };
static i64 nsize(Node *n) { return n->hole + (i64)n->data.size(); }
static void nread(Node *n, i64 at, void *b, size_t len) { u8 *d = (u8 *)b; while (len && at < n->hole) { size_t k = n->hole - at < (i64)len ? n->hole - at : len; memset(d, 0, k); d += k; at += k; len -= k; } if (len) memcpy(d, n->data.data() + (at - n->hole), len); }
struct EpItem { int fd; struct VFile *f; struct epoll_event ev; bool ready; };
struct Dgram { struct sockaddr_storage from; socklen_t flen; std::vector<u8> d; struct sockaddr_storage to; };
struct VFile {
	int type, fd, refs, nonblock, flags; void *key; bool open;
	/* eventfd */
	u64 cnt; int efd_sem;
	/* epoll */
	std::vector<EpItem *> items; std::deque<EpItem *> rdl;
	std::vector<VFile *> watchers; /* epolls watching this file */
	/* stream */
	std::deque<u8> rx; size_t cap; VFile *peer; int connected, connecting, listening, backlog_max; bool fin_rcvd, fin_sent, sh_snd, sh_rcv, nospace; int err;
	std::deque<VFile *> backlog; struct sockaddr_storage laddr, raddr; socklen_t llen, rlen; bool bound, reuseport; int family; bool want_complete;
	/* udp */
	std::deque<Dgram> dq; bool pktinfo; std::vector<unsigned> groups;
	/* file */
	Node *node; i64 pos; std::vector<std::pair<long, int>> opts; bool cloexec;
	int filepos_key;
};
static VFile *fds[NFD]; static int nfd; static std::vector<VFile *> *allf; static std::vector<EpItem *> *alli;
static std::vector<Node *> *nodes; static int open_cnt;
static size_t sockcap = 4096; static int eph_port; static int aio_faults;
static int (*fault_fn)(const char *, int);
static char fdtab, netobj, dnsobj, fsobj;
struct DnsEnt { std::string h; std::string ip; int rc; }; static std::vector<DnsEnt> *dns; static int dns_cnt;
struct AioPend { struct iocb *cb; u64 data; VFile *f; int op; void *buf; size_t n; i64 off; int resfd; };
struct AioCtx { bool used; std::deque<AioPend> pend; std::deque<struct io_event> done; Thread *dev; int inflight; bool dead; };
static AioCtx *aio; static int naio;
#define NAIO 16
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
	long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
	asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
void vk_reset(void) {
	if (!allf) { allf = new std::vector<VFile *>; alli = new std::vector<EpItem *>; nodes = new std::vector<Node *>; dns = new std::vector<DnsEnt>; aio = new AioCtx[NAIO]; }
	for (auto f : *allf) delete f; allf->clear(); for (auto i : *alli) delete i; alli->clear(); for (auto n : *nodes) delete n; nodes->clear(); dns->clear();
	memset(fds, 0, sizeof fds); nfd = 0; open_cnt = 0; sockcap = 4096; eph_port = 40000; aio_faults = 0; fault_fn = 0; dns_cnt = 0;
	for (int i = 0; i < naio; i++) { aio[i].used = aio[i].dead = false; aio[i].pend.clear(); aio[i].done.clear(); aio[i].inflight = 0; } naio = 0;
}
static VFile *fget(int fd) { if (fd < FD0 || fd >= FD0 + NFD) return 0; VFile *f = fds[fd - FD0]; return f && f->open ? f : 0; }
static inline bool isv(int fd) { return G->in_sim && (fd >= FD0 || fd < 0); }
#define GETF(f, fd, opn) VFile *f = fget(fd); if (!f) { if (fd >= FD0) violation("%s on descriptor %d which is not open", opn, fd); errno = EBADF; return -1; }
static VFile *newfile(int type) {
	visible(&fdtab, 1, "fd-alloc");
	if (nfd >= NFD) endless("descriptors");
	VFile *f = new VFile(); allf->push_back(f); f->type = type; f->fd = FD0 + nfd; f->refs = 1; f->open = true; f->key = (void *)(0x100000ul + f->fd * 16); fds[nfd++] = f; open_cnt++;
	f->cap = sockcap; f->family = AF_INET; return f;
}
static void touch(VFile *f) { Obj *o = obj(f->key); (void)o; mixh((u64)f->key); }
static int fault(const char *op, int fd) { if (!fault_fn) return 0; int e = fault_fn(op, fd); if (e) { TRACE("injected fault %s fd=%d: %s", op, fd, strerror(e)); errno = e; return 1; } return 0; }
/* two-object operations: fold the second object into the current thread's history */
static void also(void *key) {
	Obj *o = obj(key); Thread *t = G->cur; for (int i = 0; i < MAXT; i++) if (o->vc.c[i] > t->vc.c[i]) t->vc.c[i] = o->vc.c[i];
	mixh(o->key); mixh(o->h); o->h = t->h ^ 0x5bd1e995; o->ver++; for (int i = 0; i < MAXT; i++) if (t->vc.c[i] > o->vc.c[i]) o->vc.c[i] = t->vc.c[i]; t->vc.c[t->id]++;
}
/* ------------------------------------------------------------------ readiness */
static u32 mask_of(VFile *f) {
	u32 m = 0;
	switch (f->type) {
	case T_EVENTFD: if (f->cnt) m |= EPOLLIN; if (f->cnt < ~0ull - 1) m |= EPOLLOUT; break;
	case T_STREAM:
		if (f->listening) { if (!f->backlog.empty()) m |= EPOLLIN | EPOLLRDNORM; break; }
		if (f->connecting) break;
		{
			if ((f->sh_rcv && f->sh_snd) || !f->connected) m |= EPOLLHUP;
			if (f->sh_rcv) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
			if (!f->rx.empty()) m |= EPOLLIN | EPOLLRDNORM;
			if (f->sh_snd || !f->connected) m |= EPOLLOUT | EPOLLWRNORM;
			else { VFile *p = f->peer; if (!p || p->rx.size() < p->cap) m |= EPOLLOUT | EPOLLWRNORM; else f->nospace = true; }
			if (f->err) m |= EPOLLERR;
		}
		break;
	case T_UDP: if (f->sh_rcv && f->sh_snd) m |= EPOLLHUP; if (f->sh_rcv) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP; if (!f->dq.empty()) m |= EPOLLIN | EPOLLRDNORM; m |= EPOLLOUT | EPOLLWRNORM; break;
	case T_FILE: m |= EPOLLIN | EPOLLOUT; break;
	}
	return m;
}
static void item_ready(VFile *ep, EpItem *it) { if (!it->ready) { it->ready = true; ep->rdl.push_back(it); } also(ep->key); }
static void wake(VFile *f, u32 key) {
	for (VFile *ep : f->watchers) for (EpItem *it : ep->items) if (it->f == f) { if (key && !(key & it->ev.events)) continue; item_ready(ep, it); }
}
#define K_IN (EPOLLIN | EPOLLRDNORM)
#define K_OUT (EPOLLOUT | EPOLLWRNORM)
static u32 item_poll(EpItem *it) { return mask_of(it->f) & (it->ev.events | EPOLLERR | EPOLLHUP); }
static void space_freed(VFile *f) { VFile *p = f->peer; if (p && p->nospace && f->rx.size() < f->cap) { p->nospace = false; wake(p, K_OUT); } }
/* TCP state changes, after Linux' tcp_done / tcp_reset / tcp_fin / tcp_disconnect (checked by conform.py) */
static void tcp_done(VFile *f) { f->connected = f->connecting = 0; f->sh_rcv = f->sh_snd = true; f->peer = 0; wake(f, 0); }
static void tcp_reset(VFile *f) { if (!f->connected && !f->connecting) return; also(f->key); f->err = f->connecting ? ECONNREFUSED : f->fin_rcvd && !f->fin_sent ? EPIPE : ECONNRESET; tcp_done(f); }
static void tcp_fin(VFile *f) { /* f sends its FIN */
	if (f->fin_sent) return; f->fin_sent = f->sh_snd = true; VFile *p = f->peer; if (!p) { if (f->fin_rcvd) tcp_done(f); return; }
	also(p->key); p->fin_rcvd = p->sh_rcv = true;
	if (p->fin_sent) { tcp_done(p); tcp_done(f); } else wake(p, 0);
}
static void tcp_close(VFile *f) {
	VFile *p = f->peer; if (!p) return; also(p->key);
	if (!f->rx.empty()) { f->peer = 0; tcp_reset(p); } else { tcp_fin(f); if (p->peer == f) p->peer = 0; f->peer = 0; }
}
static void listen_stop(VFile *f) { for (VFile *b : f->backlog) { VFile *q = b->peer; b->peer = 0; if (q) tcp_reset(q); } f->backlog.clear(); f->listening = 0; }
static void release(VFile *f) {
	if (--f->refs > 0) return;
	for (VFile *ep : f->watchers) { for (size_t i = 0; i < ep->items.size();) { EpItem *it = ep->items[i]; if (it->f == f) { for (size_t k = 0; k < ep->rdl.size(); k++) if (ep->rdl[k] == it) { ep->rdl.erase(ep->rdl.begin() + k); break; } ep->items.erase(ep->items.begin() + i); } else i++; } also(ep->key); }
	f->watchers.clear();
	if (f->type == T_EPOLL) { for (EpItem *it : f->items) { auto &w = it->f->watchers; for (size_t i = 0; i < w.size(); i++) if (w[i] == f) { w.erase(w.begin() + i); break; } } f->items.clear(); f->rdl.clear(); }
	if (f->type == T_STREAM) {
		tcp_close(f); listen_stop(f); f->bound = false;
	}
}
static void settle(VFile *f) { for (VFile *ep : f->watchers) for (EpItem *it : ep->items) if (it->f == f && item_poll(it)) item_ready(ep, it); }

extern "C" {
/* ------------------------------------------------------------------ fds */
int __wrap_close(int fd) {
	if (!isv(fd)) return raw6(SYS_close, fd, 0, 0, 0, 0, 0);
	if (fd < 0) { errno = EBADF; return -1; }
	visible(&fdtab, 1, "close");
	if (fd - FD0 >= nfd || !fds[fd - FD0] || !fds[fd - FD0]->open) violation("close of descriptor %d which is not open (double close)", fd);
	VFile *f = fds[fd - FD0]; also(f->key); f->open = false; open_cnt--; TRACE("close fd=%d", fd); release(f); return 0;
}
int __wrap_eventfd(unsigned v, int fl) { if (fault("eventfd", -1)) return -1; VFile *f = newfile(T_EVENTFD); f->cnt = v; f->nonblock = !!(fl & EFD_NONBLOCK); f->efd_sem = !!(fl & EFD_SEMAPHORE); TRACE("eventfd -> %d", f->fd); return f->fd; }
int __wrap_epoll_create1(int) { if (fault("epoll_create1", -1)) return -1; VFile *f = newfile(T_EPOLL); TRACE("epoll_create -> %d", f->fd); return f->fd; }
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	GETF(e, ep, "epoll_ctl"); GETF(f, fd, "epoll_ctl");
	if (ev) range_access(ev, sizeof *ev, 0, RA);
	visible(e->key, 1, "epoll_ctl"); also(f->key);
	TRACE("epoll_ctl op=%d fd=%d events=%x", op, fd, ev ? ev->events : 0);
	if (op != EPOLL_CTL_DEL && fault("epoll_ctl", fd)) return -1;
	if (f->type == T_FILE) { errno = EPERM; return -1; }
	EpItem *it = 0; size_t ix = 0; for (size_t i = 0; i < e->items.size(); i++) if (e->items[i]->f == f) { it = e->items[i]; ix = i; }
	if (op == EPOLL_CTL_ADD) { if (it) { errno = EEXIST; return -1; } it = new EpItem(); alli->push_back(it); it->fd = fd; it->f = f; it->ev = *ev; e->items.push_back(it); f->watchers.push_back(e); if (item_poll(it)) item_ready(e, it); return 0; }
	if (!it) { errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_MOD) { it->ev = *ev; if (item_poll(it)) item_ready(e, it); return 0; }
	e->items.erase(e->items.begin() + ix); for (size_t i = 0; i < f->watchers.size(); i++) if (f->watchers[i] == e) { f->watchers.erase(f->watchers.begin() + i); break; }
	for (size_t k = 0; k < e->rdl.size(); k++) if (e->rdl[k] == it) { e->rdl.erase(e->rdl.begin() + k); break; }
	return 0;
}
static int ep_has(void *p) { VFile *e = (VFile *)p; for (EpItem *it : e->rdl) if (item_poll(it)) return 1; return 0; }
int __wrap_epoll_wait(int ep, struct epoll_event *evs, int maxev, int tmo) {
	GETF(e, ep, "epoll_wait");
	visible(e->key, 1, "epoll_wait");
	if ((G->sc->flags & KMC_F_EINTR) && G->explore && kmc_deviate(2)) { errno = EINTR; return -1; }
	if (tmo != 0) { if (!block(ep_has, e, tmo < 0 ? -1 : G->now + (i64)tmo * 1000, "epoll_wait", e->key)) { mixh(0x70); } if (!e->open) violation("epoll descriptor closed while being waited on"); also(e->key); }
	std::deque<EpItem *> &rdl = e->rdl; size_t n0 = rdl.size(); int n = 0, rdy = 0;
	for (EpItem *it : rdl) if (item_poll(it)) rdy++;
	int mode = 0; if (rdy > 1 && (G->sc->flags & KMC_F_EPORDER) && G->explore) mode = kmc_deviate(3); /* 0 fifo, 1 reversed, 2 only the first event */
	if (mode == 1) { for (size_t i = 0, j = n0 - 1; i < j; i++, j--) std::swap(rdl[i], rdl[j]); }
	if (mode == 2) maxev = 1;
	std::vector<EpItem *> lt;
	for (size_t k = 0; k < n0 && n < maxev; k++) {
		EpItem *it = rdl.front(); rdl.pop_front(); it->ready = false;
		u32 m = item_poll(it); if (!m) continue;
		range_access(&evs[n], sizeof evs[n], 1, RA);
		evs[n].events = m; evs[n].data = it->ev.data; n++; also(it->f->key);
		TRACE("epoll event fd=%d mask=%x", it->fd, m);
		if (it->ev.events & EPOLLONESHOT) it->ev.events &= EPOLLET | EPOLLONESHOT;
		else if (!(it->ev.events & EPOLLET)) lt.push_back(it);
	}
	for (EpItem *it : lt) { it->ready = true; rdl.push_back(it); }
	return n;
}
/* ------------------------------------------------------------------ streams */
static int want_cut(size_t n) { return n > 1 && (G->sc->flags & KMC_F_SHORTIO) && G->explore; }
static int rd_ok(void *p) { VFile *f = (VFile *)p; return !f->rx.empty() || f->sh_rcv || f->err || (!f->connected && !f->connecting); }
static int wr_ok(void *p) { VFile *f = (VFile *)p; return f->sh_snd || f->err || !f->connected || !f->peer || f->peer->rx.size() < f->peer->cap; }
static ssize_t do_readv(VFile *f, const struct iovec *v, int cnt, void *pc, int peek) {
	if (f->type == T_STREAM) {
		if (f->listening) { errno = ENOTCONN; return -1; }
		if (f->rx.empty()) {
			if (f->fin_rcvd) return 0;
			if (f->err) { errno = f->err; f->err = 0; return -1; }
			if (f->sh_rcv) return 0;
			if (!f->connected && !f->connecting) { errno = ENOTCONN; return -1; }
			if (f->nonblock) { errno = EAGAIN; return -1; } block(rd_ok, f, -1, "read", f->key); also(f->key); return do_readv(f, v, cnt, pc, peek);
		}
		size_t tot = 0; for (int i = 0; i < cnt; i++) tot += v[i].iov_len; if (tot == 0) return 0;
		size_t can = f->rx.size() < tot ? f->rx.size() : tot;
		if (want_cut(can)) { int k = kmc_deviate(3); if (k == 1) can = 1; else if (k == 2) { if (f->nonblock) { /* the rest has not arrived yet */ can = (can + 1) / 2; } } }
		size_t left = can, done = 0;
		for (int i = 0; i < cnt && left; i++) { size_t k = v[i].iov_len < left ? v[i].iov_len : left; if (!k) continue; range_access(v[i].iov_base, k, 1, pc); for (size_t j = 0; j < k; j++) ((u8 *)v[i].iov_base)[j] = f->rx[peek ? done + j : j]; if (!peek) f->rx.erase(f->rx.begin(), f->rx.begin() + k); left -= k; done += k; }
		if (f->peer) { also(f->peer->key); } space_freed(f);
		return can;
	}
	if (f->type == T_EVENTFD) {
		if (v[0].iov_len < 8) { errno = EINVAL; return -1; }
		if (!f->cnt) { if (f->nonblock) { errno = EAGAIN; return -1; } block([](void *p) { return (int)(((VFile *)p)->cnt > 0); }, f, -1, "eventfd-read", f->key); also(f->key); }
		range_access(v[0].iov_base, 8, 1, pc); u64 x = f->efd_sem ? 1 : f->cnt; f->cnt -= x; memcpy(v[0].iov_base, &x, 8); wake(f, EPOLLOUT); return 8;
	}
	if (f->type == T_FILE) {
		if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
		size_t done = 0; for (int i = 0; i < cnt; i++) { i64 av = nsize(f->node) - f->pos; if (av <= 0) break; size_t k = v[i].iov_len < (size_t)av ? v[i].iov_len : av; range_access(v[i].iov_base, k, 1, pc); nread(f->node, f->pos, v[i].iov_base, k); f->pos += k; done += k; } return done;
	}
	if (f->type == T_UDP) { errno = EAGAIN; return -1; }
	errno = EINVAL; return -1;
}
extern i64 wall_us(void); static i64 wall_sec(void) { return wall_us() / 1000000; }
static void file_put(Node *n, const void *b, size_t len, i64 off) { if (len == 0) return; n->mtime = wall_sec(); if (off < n->hole) { kmc_fail("write of %zu bytes at %lld, before the data of the file at %lld", len, (long long)off, (long long)n->hole); return; } off -= n->hole; if (off > 1 << 24) { kmc_fail("write at %lld, far behind the end of the file", (long long)(off + n->hole)); return; } if (n->data.size() < off + len) n->data.resize(off + len); memcpy(n->data.data() + off, b, len); }
static ssize_t do_writev(VFile *f, const struct iovec *v, int cnt, void *pc) {
	if (f->type == T_STREAM) {
		if (f->err) { errno = f->err; f->err = 0; return -1; }
		if (f->connecting) { errno = EAGAIN; return -1; }
		if (!f->connected || f->sh_snd) { errno = EPIPE; return -1; }
		size_t tot = 0; for (int i = 0; i < cnt; i++) tot += v[i].iov_len; if (tot == 0) return 0;
		VFile *p = f->peer; if (!p) { tcp_reset(f); return tot; } /* the peer is gone: it answers the data with a reset */
		if (p->sh_rcv && p->sh_snd) { tcp_reset(p); tcp_reset(f); return tot; }
		size_t room = p->cap > p->rx.size() ? p->cap - p->rx.size() : 0;
		if (!room) { f->nospace = true; if (f->nonblock) { errno = EAGAIN; return -1; } block(wr_ok, f, -1, "write", f->key); also(f->key); return do_writev(f, v, cnt, pc); }
		size_t can = tot < room ? tot : room;
		if (can < tot) f->nospace = true;
		if (want_cut(can)) { int k = kmc_deviate(3); if (k == 1) can = 1; else if (k == 2) can = can - 1; }
		else if ((G->sc->flags & KMC_F_SHORTIO) && G->explore && f->nonblock && can == 1 && 0) {}
		size_t left = can; for (int i = 0; i < cnt && left; i++) { size_t k = v[i].iov_len < left ? v[i].iov_len : left; if (!k) continue; range_access(v[i].iov_base, k, 0, pc); p->rx.insert(p->rx.end(), (u8 *)v[i].iov_base, (u8 *)v[i].iov_base + k); left -= k; }
		also(p->key); wake(p, K_IN);
		if (!f->nonblock && can < tot) { struct iovec w[8]; int n = 0; size_t sk = can; for (int i = 0; i < cnt && n < 8; i++) { if (sk >= v[i].iov_len) { sk -= v[i].iov_len; continue; } w[n].iov_base = (char *)v[i].iov_base + sk; w[n].iov_len = v[i].iov_len - sk; sk = 0; n++; } ssize_t r = do_writev(f, w, n, pc); return r < 0 ? (ssize_t)can : (ssize_t)can + r; }
		return can;
	}
	if (f->type == T_EVENTFD) { if (v[0].iov_len < 8) { errno = EINVAL; return -1; } range_access(v[0].iov_base, 8, 0, pc); u64 x; memcpy(&x, v[0].iov_base, 8); f->cnt += x; wake(f, EPOLLIN); return 8; }
	if (f->type == T_FILE) { if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } size_t done = 0; if (f->flags & O_APPEND) f->pos = nsize(f->node); for (int i = 0; i < cnt; i++) { range_access(v[i].iov_base, v[i].iov_len, 0, pc); file_put(f->node, v[i].iov_base, v[i].iov_len, f->pos); f->pos += v[i].iov_len; done += v[i].iov_len; } return done; }
	errno = EINVAL; return -1;
}
static ssize_t rdv(int fd, const struct iovec *v, int cnt, void *pc, const char *nm, int peek) {
	GETF(f, fd, nm); visible(f->key, 1, nm); if (fault("read", fd)) return -1;
	ssize_t r = do_readv(f, v, cnt, pc, peek); TRACE("%s fd=%d -> %zd%s%s", nm, fd, r, r < 0 ? " " : "", r < 0 ? strerror(errno) : ""); mixh(r + 5); return r;
}
static ssize_t wrv(int fd, const struct iovec *v, int cnt, void *pc, const char *nm) {
	GETF(f, fd, nm); visible(f->key, 1, nm); if (fault("write", fd)) return -1;
	ssize_t r = do_writev(f, v, cnt, pc); TRACE("%s fd=%d -> %zd%s%s", nm, fd, r, r < 0 ? " " : "", r < 0 ? strerror(errno) : ""); mixh(r + 5); return r;
}
ssize_t read(int fd, void *b, size_t n) { if (!isv(fd)) return raw6(SYS_read, fd, (long)b, n, 0, 0, 0); struct iovec v = { b, n }; return rdv(fd, &v, 1, RA, "read", 0); }
ssize_t write(int fd, const void *b, size_t n) { if (!isv(fd)) return raw6(SYS_write, fd, (long)b, n, 0, 0, 0); struct iovec v = { (void *)b, n }; return wrv(fd, &v, 1, RA, "write"); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { struct iovec v = { b, n }; return rdv(fd, &v, 1, RA, "recv", !!(fl & MSG_PEEK)); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int) { struct iovec v = { (void *)b, n }; return wrv(fd, &v, 1, RA, "send"); }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { if (c > 0) range_access(v, sizeof *v * c, 0, RA); return rdv(fd, v, c, RA, "readv", 0); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { if (c > 0) range_access(v, sizeof *v * c, 0, RA); return wrv(fd, v, c, RA, "writev"); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int) { return wrv(fd, m->msg_iov, m->msg_iovlen, RA, "sendmsg"); }
ssize_t __wrap_sendfile(int out, int in, off_t *off, size_t n) {
	GETF(o, out, "sendfile"); GETF(i, in, "sendfile"); visible(o->key, 1, "sendfile"); also(i->key); if (fault("sendfile", out)) return -1; if (i->type != T_FILE || (i->flags & O_ACCMODE) == O_WRONLY) { errno = i->type != T_FILE ? EINVAL : EBADF; return -1; } if (off && *off < 0) { errno = EINVAL; return -1; }
	if (off) range_access(off, sizeof *off, 1, RA);
	i64 at = off ? *off : i->pos; i64 av = nsize(i->node) - at; if (av <= 0) return 0; if ((i64)n > av) n = av;
	if (!n) return 0;
	if (n > 1 << 20) n = 1 << 20; std::vector<u8> tmp(n); nread(i->node, at, tmp.data(), n); struct iovec v = { tmp.data(), n }; ssize_t r = do_writev(o, &v, 1, RA); TRACE("sendfile -> %zd", r); mixh(r + 5);
	if (r > 0) { if (off) *off += r; else i->pos += r; } return r;
}
ssize_t __wrap_sendfile64(int out, int in, off64_t *off, size_t n) { return __wrap_sendfile(out, in, (off_t *)off, n); }
static VFile *mkstream(int fl) { VFile *f = newfile(T_STREAM); f->nonblock = fl; return f; }
static void link2(VFile *a, VFile *b) { a->peer = b; b->peer = a; a->connected = b->connected = 1; }
int vk_socketpair(int out[2], int nonblock) { VFile *a = mkstream(nonblock & 1), *b = mkstream(!!(nonblock & 2)); link2(a, b); a->bound = b->bound = false; struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(0x7f000001); s.sin_port = htons(eph_port++); memcpy(&a->laddr, &s, sizeof s); memcpy(&b->raddr, &s, sizeof s); s.sin_port = htons(eph_port++); memcpy(&b->laddr, &s, sizeof s); memcpy(&a->raddr, &s, sizeof s); a->llen = b->llen = a->rlen = b->rlen = sizeof s; out[0] = a->fd; out[1] = b->fd; return 0; }
int __wrap_socket(int fam, int type, int) {
	if (fault("socket", -1)) return -1;
	int t = type & 15; VFile *f = newfile(t == SOCK_DGRAM ? T_UDP : T_STREAM); f->family = fam; f->nonblock = !!(type & SOCK_NONBLOCK); f->cloexec = !!(type & SOCK_CLOEXEC); TRACE("socket -> %d", f->fd);
	f->laddr.ss_family = fam; f->llen = fam == AF_INET6 ? sizeof(sockaddr_in6) : fam == AF_UNIX ? 2 : sizeof(sockaddr_in); return f->fd;
}
static int port_of(const struct sockaddr_storage *s) { return s->ss_family == AF_INET6 ? ntohs(((sockaddr_in6 *)s)->sin6_port) : ntohs(((sockaddr_in *)s)->sin_port); }
static void set_port(struct sockaddr_storage *s, int p) { if (s->ss_family == AF_INET6) ((sockaddr_in6 *)s)->sin6_port = htons(p); else ((sockaddr_in *)s)->sin_port = htons(p); }
static VFile *find_bound(int type, const struct sockaddr_storage *a) {
	for (VFile *f : *allf) { if (!f->open || f->type != type || !f->bound || f->connected) continue; if (f->laddr.ss_family != a->ss_family) continue;
		if (a->ss_family == AF_UNIX) { if (!strcmp(((sockaddr_un *)&f->laddr)->sun_path, ((sockaddr_un *)a)->sun_path)) return f; } else if (port_of(&f->laddr) == port_of(a)) return f; }
	return 0;
}
/* SO_REUSEPORT: which of the sockets listening on the port gets the connection is the kernel's choice */
static unsigned spread; void vk_spread(void) { spread = 1; }
static VFile *find_listener(const struct sockaddr_storage *a) {
	std::vector<VFile *> v; VFile *b = find_bound(T_STREAM, a); if (!b) return 0;
	for (VFile *f : *allf) if (f->open && f->type == T_STREAM && f->bound && f->listening && f->laddr.ss_family == a->ss_family && (f == b || (f->reuseport && a->ss_family != AF_UNIX && port_of(&f->laddr) == port_of(a)))) v.push_back(f);
	if (v.empty()) return 0; if (v.size() == 1) return v[0]; if (spread) return v[spread++ % v.size()]; return v[kmc_choose(v.size())];
}
static Node *node_find(const char *p) { for (Node *n : *nodes) if (n->name == p) return n; return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) {
	GETF(f, fd, "bind"); range_access(a, l, 0, RA); visible(&netobj, 1, "bind"); also(f->key); if (fault("bind", fd)) return -1;
	struct sockaddr_storage s; memset(&s, 0, sizeof s); memcpy(&s, a, l < sizeof s ? l : sizeof s);
	if (s.ss_family != f->family) { errno = EAFNOSUPPORT; return -1; }
	if (s.ss_family == AF_UNIX) { Node *n = node_find(((sockaddr_un *)&s)->sun_path); if (n) { errno = EADDRINUSE; return -1; } n = new Node(); n->name = ((sockaddr_un *)&s)->sun_path; n->is_sock = 1; nodes->push_back(n); }
	else { if (port_of(&s) == 0) set_port(&s, eph_port++); else { VFile *o = find_bound(f->type, &s); if (o && !(o->reuseport && f->reuseport)) { errno = EADDRINUSE; return -1; } } }
	f->laddr = s; f->llen = s.ss_family == AF_INET6 ? sizeof(sockaddr_in6) : s.ss_family == AF_UNIX ? l : sizeof(sockaddr_in); f->bound = true; return 0;
}
int __wrap_listen(int fd, int b) { GETF(f, fd, "listen"); visible(&netobj, 1, "listen"); also(f->key); if (fault("listen", fd)) return -1; f->listening = 1; f->backlog_max = b < 0 ? 4096 : b; return 0; }
static int connect_pair(VFile *f, VFile *l) { /* server side endpoint */
	VFile *s = new VFile(); allf->push_back(s); s->type = T_STREAM; s->fd = -1; s->refs = 1; s->cap = f->cap; s->family = l->family; s->key = (char *)f->key + 8; s->laddr = l->laddr; s->llen = l->llen;
	if (f->family != AF_UNIX && port_of(&f->laddr) == 0) { f->laddr.ss_family = f->family; set_port(&f->laddr, eph_port++); if (f->family == AF_INET) ((sockaddr_in *)&f->laddr)->sin_addr.s_addr = htonl(0x7f000001); }
	if (f->family == AF_INET6 && f->laddr.ss_family == AF_INET6 && !memcmp(&((sockaddr_in6 *)&f->laddr)->sin6_addr, &in6addr_any, 16)) ((sockaddr_in6 *)&f->laddr)->sin6_addr = in6addr_loopback;
	if (f->family == AF_UNIX) { f->raddr = l->laddr; f->rlen = l->llen; } else { s->laddr = f->raddr; s->llen = f->rlen; } /* a listener on every address: the one that was dialled */
	s->raddr = f->laddr; s->rlen = f->llen; link2(f, s); also(l->key); l->backlog.push_back(s); wake(l, K_IN); return 0;
}
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) {
	GETF(f, fd, "connect"); range_access(a, l, 0, RA); visible(&netobj, 1, "connect"); also(f->key); if (fault("connect", fd)) return -1;
	struct sockaddr_storage s; memset(&s, 0, sizeof s); memcpy(&s, a, l < sizeof s ? l : sizeof s);
	if (f->type == T_UDP) { f->raddr = s; f->connected = 1; return 0; }
	if (f->connected) { errno = EISCONN; return -1; } if (f->connecting) { errno = EALREADY; return -1; }
	f->raddr = s; f->rlen = l;
	VFile *ls = find_listener(&s);
	int port = s.ss_family == AF_UNIX ? 0 : port_of(&s);
	TRACE("connect fd=%d port %d", fd, port);
	if (port == 2 || port == 3) { f->connecting = 1; f->want_complete = port == 3; if (f->nonblock) { errno = EINPROGRESS; return -1; } block([](void *p) { return (int)!((VFile *)p)->connecting; }, f, -1, "connect", f->key); also(f->key); if (f->err) { errno = f->err; f->err = 0; return -1; } return 0; }
	if (!ls || (int)ls->backlog.size() > ls->backlog_max) {
		if (!ls) { if (s.ss_family == AF_UNIX || !f->nonblock) { errno = ECONNREFUSED; return -1; } f->connecting = 1; tcp_reset(f); errno = EINPROGRESS; return -1; }
		f->connecting = 1; errno = s.ss_family == AF_UNIX ? EAGAIN : EINPROGRESS; return -1;
	}
	if (ls->cap < f->cap) f->cap = ls->cap;
	connect_pair(f, ls); wake(f, K_OUT); 
	if (f->nonblock && s.ss_family != AF_UNIX) { errno = EINPROGRESS; return -1; } return 0;
}
/* harness: the network answers a connection attempt made to port 3 */
int vk_connect_complete(int err, int *peerfd) {
	VFile *s = err ? 0 : mkstream(0); visible(&netobj, 1, "connect-complete");
	for (VFile *f : *allf) if (f->open && f->connecting && f->want_complete) {
		also(f->key); f->connecting = 0;
		if (err) { f->err = err; tcp_done(f); return 1; }
		s->cap = f->cap; also(f->key); link2(f, s); *peerfd = s->fd; wake(f, K_OUT); return 1;
	}
	if (s) { s->open = false; open_cnt--; }
	return 0;
}
int vk_connect_pending(void) { for (VFile *f : *allf) if (f->open && f->connecting && f->want_complete) return 1; return 0; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	GETF(f, fd, "accept"); visible(&netobj, 1, "accept"); also(f->key); 
	if (!f->listening) { errno = EINVAL; return -1; }
	if (fault("accept", fd)) return -1;
	if (f->backlog.empty()) { if (f->nonblock) { errno = EAGAIN; return -1; } block([](void *p) { return (int)!((VFile *)p)->backlog.empty(); }, f, -1, "accept", f->key); also(f->key); }
	VFile *s = f->backlog.front(); f->backlog.pop_front();
	if (nfd >= NFD) endless("descriptors");
	s->fd = FD0 + nfd; fds[nfd++] = s; s->open = true; open_cnt++; also(&fdtab); s->nonblock = !!(fl & SOCK_NONBLOCK); s->cloexec = !!(fl & SOCK_CLOEXEC);
	if (a && l) { range_access(l, sizeof *l, 1, RA); socklen_t n = *l < s->rlen ? *l : s->rlen; range_access(a, n, 1, RA); memcpy(a, &s->raddr, n); *l = s->rlen; }
	TRACE("accept -> %d", s->fd); return s->fd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_shutdown(int fd, int how) {
	GETF(f, fd, "shutdown"); visible(f->key, 1, "shutdown"); TRACE("shutdown fd=%d how=%d", fd, how);
	if (f->type == T_UDP) { if (how != SHUT_WR) f->sh_rcv = true; if (how != SHUT_RD) f->sh_snd = true; wake(f, 0); if (!f->connected) { errno = ENOTCONN; return -1; } return 0; }
	if (f->type != T_STREAM) { errno = ENOTSOCK; return -1; }
	if (f->listening) { if (how != SHUT_WR) { listen_stop(f); f->sh_rcv = f->sh_snd = false; } else f->sh_snd = true; wake(f, 0); return 0; }
	if (f->connecting) { f->connecting = 0; f->err = ECONNRESET; wake(f, 0); return 0; }
	int r = 0; if (!f->connected) { errno = ENOTCONN; r = -1; }
	if (how != SHUT_WR) f->sh_rcv = true;
	if (how != SHUT_RD) { if (f->connected) tcp_fin(f); f->sh_snd = true; }
	wake(f, 0); return r;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l) { GETF(f, fd, "getsockname"); if (fault("getsockname", fd)) return -1; socklen_t n = *l < f->llen ? *l : f->llen; range_access(a, n, 1, RA); memcpy(a, &f->laddr, n); *l = f->llen; return 0; }
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) { GETF(f, fd, "getpeername"); if (!f->connected) { errno = ENOTCONN; return -1; } socklen_t n = *l < f->rlen ? *l : f->rlen; range_access(a, n, 1, RA); memcpy(a, &f->raddr, n); *l = f->rlen; return 0; }
int __wrap_setsockopt(int fd, int lev, int opt, const void *v, socklen_t l) { GETF(f, fd, "setsockopt"); range_access(v, l, 0, RA); if (fault("setsockopt", fd)) return -1; if (lev == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) { if (l < sizeof(struct ip_mreq) || f->type != T_UDP) { errno = EINVAL; return -1; } unsigned g = ((const struct ip_mreq *)v)->imr_multiaddr.s_addr; if (ntohl(g) >> 28 != 14) { errno = EINVAL; return -1; } for (unsigned o : f->groups) if (o == g) { errno = EADDRINUSE; return -1; } f->groups.push_back(g); return 0; } if (lev == IPPROTO_IP && opt == IP_PKTINFO) f->pktinfo = true; if (lev == SOL_SOCKET && opt == SO_REUSEPORT) f->reuseport = *(const int *)v != 0; int iv = 0; memcpy(&iv, v, l < sizeof iv ? l : sizeof iv); long ok = (long)lev << 32 | opt; bool hit = false; for (auto &o : f->opts) if (o.first == ok) { o.second = iv; hit = true; } if (!hit) f->opts.push_back({ ok, iv }); return 0; }
int __wrap_getsockopt(int fd, int lev, int opt, void *v, socklen_t *l) {
	GETF(f, fd, "getsockopt"); visible(f->key, 1, "getsockopt"); int r = 0;
	if (lev == SOL_SOCKET && opt == SO_ERROR) { r = f->err; f->err = 0; } else if (lev == SOL_SOCKET && opt == SO_TYPE) r = f->type == T_UDP ? SOCK_DGRAM : SOCK_STREAM;
	range_access(v, sizeof r, 1, RA); memcpy(v, &r, sizeof r); if (l) *l = sizeof r; return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!isv(fd)) return raw6(SYS_fcntl, fd, cmd, arg, 0, 0, 0);
	GETF(f, fd, "fcntl");
	switch (cmd) {
	case F_GETFL: return (f->flags & ~O_NONBLOCK) | (f->nonblock ? O_NONBLOCK : 0) | (f->type == T_STREAM || f->type == T_UDP ? O_RDWR : 0);
	case F_SETFL: f->nonblock = !!(arg & O_NONBLOCK); f->flags = (f->flags & ~(O_DIRECT | O_APPEND)) | (arg & (O_DIRECT | O_APPEND)); return 0;
	case F_GETFD: case F_SETFD: return 0;
	}
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return __wrap_fcntl(fd, cmd, arg); }
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap); GETF(f, fd, "ioctl");
	if (req == FIONBIO) { f->nonblock = *(int *)arg; return 0; } if (req == FIONREAD) { *(int *)arg = f->rx.size(); return 0; } errno = ENOTTY; return -1;
}
struct SelW { fd_set r, w; bool hr, hw; int n; };
static int sel_scan(SelW *s, fd_set *ro, fd_set *wo) {
	int c = 0; for (int i = 0; i < s->n && i < FD_SETSIZE; i++) { VFile *f = fget(i); if (!f) continue; u32 m = mask_of(f);
		if (s->hr && FD_ISSET(i, &s->r) && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { c++; if (ro) FD_SET(i, ro); } if (s->hw && FD_ISSET(i, &s->w) && (m & (EPOLLOUT | EPOLLERR))) { c++; if (wo) FD_SET(i, wo); } }
	return c;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *tv) {
	SelW s; memset(&s, 0, sizeof s); s.n = n; if (r) { s.hr = true; s.r = *r; } if (w) { s.hw = true; s.w = *w; }
	visible(&netobj, 1, "select");
	block([](void *p) { return sel_scan((SelW *)p, 0, 0); }, &s, tv ? G->now + (i64)tv->tv_sec * 1000000 + tv->tv_usec : -1, "select", 0);
	also(&netobj); fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo); int c = sel_scan(&s, &ro, &wo); if (r) *r = ro; if (w) *w = wo; return c;
}
struct PollW { struct pollfd *p; nfds_t n; };
static int poll_scan(void *q) { PollW *w = (PollW *)q; int c = 0; for (nfds_t i = 0; i < w->n; i++) { VFile *f = fget(w->p[i].fd); w->p[i].revents = f ? (mask_of(f) & (w->p[i].events | POLLERR | POLLHUP)) : 0; if (w->p[i].revents) c++; } return c; }
int __wrap_poll(struct pollfd *p, nfds_t n, int tmo) { PollW w = { p, n }; visible(&netobj, 1, "poll"); block(poll_scan, &w, tmo < 0 ? -1 : G->now + (i64)tmo * 1000, "poll", 0); for (nfds_t i = 0; i < n; i++) { VFile *f = fget(p[i].fd); if (f) also(f->key); } return poll_scan(&w); }
/* ------------------------------------------------------------------ datagrams */
static int udp_deliver(VFile *f, const struct sockaddr_storage *to, const struct sockaddr_storage *from, const void *b, size_t n) {
	if (to->ss_family == AF_INET && ntohl(((const sockaddr_in *)to)->sin_addr.s_addr) >> 28 == 14) {
		unsigned ga = ((const sockaddr_in *)to)->sin_addr.s_addr; int k = 0;
		for (VFile *d : *allf) if (d->open && d->type == T_UDP && d->bound && d->laddr.ss_family == AF_INET && port_of(&d->laddr) == port_of(to)) for (unsigned o : d->groups) if (o == ga) { also(d->key); Dgram g; g.from = *from; g.flen = sizeof(sockaddr_in); g.to = *to; g.d.assign((u8 *)b, (u8 *)b + n); d->dq.push_back(g); wake(d, K_IN); k++; }
		return k;
	}
	VFile *d = find_bound(T_UDP, to); if (!d) return 0; also(d->key); Dgram g; g.from = *from; g.flen = from->ss_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); g.to = *to; g.d.assign((u8 *)b, (u8 *)b + n); d->dq.push_back(g); wake(d, K_IN); return 1;
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int, const struct sockaddr *a, socklen_t l) {
	GETF(f, fd, "sendto"); range_access(b, n, 0, RA); if (a) range_access(a, l, 0, RA);
	if (f->type == T_STREAM) { struct iovec v = { (void *)b, n }; return wrv(fd, &v, 1, RA, "sendto"); }
	visible(&netobj, 1, "sendto"); also(f->key); if (fault("sendto", fd)) return -1; if (f->sh_snd) { errno = EPIPE; return -1; }
	struct sockaddr_storage s; memset(&s, 0, sizeof s); if (a) memcpy(&s, a, l < sizeof s ? l : sizeof s); else s = f->raddr;
	if (!f->bound) { f->laddr.ss_family = f->family; set_port(&f->laddr, eph_port++); f->bound = true; f->llen = f->family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }
	udp_deliver(f, &s, &f->laddr, b, n); TRACE("sendto fd=%d %zu bytes", fd, n); return n;
}
static int dq_ok(void *p) { return !((VFile *)p)->dq.empty(); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int) {
	GETF(f, fd, "recvmsg"); visible(f->key, 1, "recvmsg"); if (fault("recvmsg", fd)) return -1;
	if (f->type == T_STREAM) return do_readv(f, m->msg_iov, m->msg_iovlen, RA, 0);
	if (f->dq.empty()) { if (f->nonblock) { errno = EAGAIN; return -1; } block(dq_ok, f, -1, "recvmsg", f->key); also(f->key); }
	Dgram &g = f->dq.front();
	if (m->msg_name) { socklen_t k = m->msg_namelen < g.flen ? m->msg_namelen : g.flen; range_access(m->msg_name, k, 1, RA); memcpy(m->msg_name, &g.from, k); m->msg_namelen = g.flen; }
	size_t at = 0; for (size_t i = 0; i < m->msg_iovlen && at < g.d.size(); i++) { size_t k = m->msg_iov[i].iov_len; if (k > g.d.size() - at) k = g.d.size() - at; range_access(m->msg_iov[i].iov_base, k, 1, RA); memcpy(m->msg_iov[i].iov_base, g.d.data() + at, k); at += k; }
	m->msg_flags = at < g.d.size() ? MSG_TRUNC : 0;
	if (f->pktinfo && m->msg_control && m->msg_controllen >= CMSG_SPACE(sizeof(struct in_pktinfo)) && f->family == AF_INET) {
		range_access(m->msg_control, CMSG_SPACE(sizeof(struct in_pktinfo)), 1, RA);
		struct cmsghdr *c = (struct cmsghdr *)m->msg_control; memset(c, 0, CMSG_SPACE(sizeof(struct in_pktinfo))); c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(struct in_pktinfo));
		struct in_pktinfo pi; memset(&pi, 0, sizeof pi); pi.ipi_ifindex = 1; pi.ipi_addr = ((sockaddr_in *)&g.to)->sin_addr; pi.ipi_spec_dst = pi.ipi_addr; if (IN_MULTICAST(ntohl(pi.ipi_addr.s_addr))) pi.ipi_spec_dst.s_addr = htonl(0x7f000001); /* an own address to answer from */ memcpy(CMSG_DATA(c), &pi, sizeof pi); m->msg_controllen = CMSG_SPACE(sizeof(struct in_pktinfo));
	} else { if (f->pktinfo && m->msg_controllen) m->msg_flags |= MSG_CTRUNC; m->msg_controllen = 0; }
	size_t r = at; f->dq.pop_front(); TRACE("recvmsg fd=%d -> %zu", fd, r); return r;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { struct iovec v = { b, n }; struct msghdr m; memset(&m, 0, sizeof m); m.msg_name = a; m.msg_namelen = l ? *l : 0; m.msg_iov = &v; m.msg_iovlen = 1; ssize_t r = __wrap_recvmsg(fd, &m, fl); if (l) *l = m.msg_namelen; return r; }
/* ------------------------------------------------------------------ files */
int __wrap_open(const char *p, int fl, ...) {
	if (!G->in_sim) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return raw6(SYS_open, (long)p, fl, mode, 0, 0, 0); }
	visible(&fsobj, 1, "open"); if (fault("open", -1)) return -1;
	Node *n = node_find(p); if (n && !n->link.empty()) { if (fl & O_NOFOLLOW) { errno = ELOOP; return -1; } p = n->link.c_str(); n = node_find(p); }
	if (!n) { if (!(fl & O_CREAT) || strncmp(p, "/v/", 3)) { errno = ENOENT; return -1; } n = new Node(); n->name = p; n->is_sock = 0; n->hole = 0; n->mtime = wall_sec(); va_list ap; va_start(ap, fl); n->mode = va_arg(ap, int) & 07777; va_end(ap); nodes->push_back(n); }
	else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
	if (n->is_sock) { errno = ENXIO; return -1; }
	if (n->is_dir && ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT))) { errno = EISDIR; return -1; }
	if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) { n->data.clear(); n->hole = 0; n->mtime = wall_sec(); }
	VFile *f = newfile(T_FILE); f->node = n; f->flags = fl; f->pos = 0; f->key = (void *)(0x200000ul); TRACE("open %s -> %d", p, f->fd); return f->fd;
}
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return __wrap_open(p, fl, mode); }
int __wrap_fstat(int fd, struct stat *s) { if (!isv(fd)) return raw6(SYS_fstat, fd, (long)s, 0, 0, 0, 0); GETF(f, fd, "fstat"); visible(f->key, 0, "fstat"); range_access(s, sizeof *s, 1, RA); memset(s, 0, sizeof *s); s->st_mode = f->type == T_FILE ? S_IFREG | f->node->mode : S_IFSOCK; if (f->type == T_FILE) { s->st_size = nsize(f->node); s->st_mtime = s->st_ctime = f->node->mtime; if (f->node->is_dir) s->st_mode = S_IFDIR | 0755; } return 0; }
int __wrap_fstat64(int fd, struct stat *s) { return __wrap_fstat(fd, s); }
static int do_stat(const char *p, struct stat *s, int l) { if (!G->in_sim) return raw6(l ? SYS_lstat : SYS_stat, (long)p, (long)s, 0, 0, 0, 0); visible(&fsobj, 0, "stat"); Node *n = node_find(p); if (!n) { errno = ENOENT; return -1; } range_access(s, sizeof *s, 1, RA); memset(s, 0, sizeof *s); if (!l && !n->link.empty() && !(n = node_find(n->link.c_str()))) { errno = ENOENT; return -1; } s->st_mode = !n->link.empty() ? S_IFLNK | 0777 : n->is_dir ? S_IFDIR | 0755 : n->is_sock ? S_IFSOCK : S_IFREG | n->mode; s->st_size = n->link.empty() ? nsize(n) : (i64)n->link.size(); s->st_mtime = s->st_ctime = n->mtime; return 0; }
int __wrap_stat(const char *p, struct stat *s) { return do_stat(p, s, 0); }
int __wrap_lstat(const char *p, struct stat *s) { return do_stat(p, s, 1); }
int __wrap_futimens(int fd, const struct timespec *t) { GETF(f, fd, "futimens"); visible(f->key, 1, "futimens"); if (fault("futimens", fd)) return -1; if (f->type != T_FILE) { errno = EINVAL; return -1; } if (t && t[1].tv_nsec != UTIME_NOW) f->node->mtime = t[1].tv_sec; else f->node->mtime = wall_sec(); return 0; }
int __wrap_stat64(const char *p, struct stat *s) { return __wrap_stat(p, s); }
off_t __wrap_lseek(int fd, off_t o, int wh) { if (!isv(fd)) return raw6(SYS_lseek, fd, o, wh, 0, 0, 0); GETF(f, fd, "lseek"); visible(f->key, 1, "lseek"); if (f->type != T_FILE) { errno = ESPIPE; return -1; } i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : nsize(f->node); if (b + o < 0) { errno = EINVAL; return -1; } return f->pos = b + o; }
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
int __wrap_unlink(const char *p) { visible(&fsobj, 1, "unlink"); for (size_t i = 0; i < nodes->size(); i++) if ((*nodes)[i]->name == p) { (*nodes)[i]->name += "\001deleted"; return 0; } errno = ENOENT; return -1; }
int __wrap_ftruncate(int fd, off_t n) { GETF(f, fd, "ftruncate"); if (n <= f->node->hole) { f->node->hole = n; f->node->data.clear(); } else f->node->data.resize(n - f->node->hole); return 0; }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_fsync(int) { return 0; }
int __wrap_fdatasync(int) { return 0; }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { GETF(f, fd, "pread"); visible(f->key, 1, "pread"); if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } if (o < 0) { errno = EINVAL; return -1; } i64 av = nsize(f->node) - o; if (av <= 0) return 0; if ((i64)n > av) n = av; range_access(b, n, 1, RA); nread(f->node, o, b, n); return n; }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { GETF(f, fd, "pwrite"); visible(f->key, 1, "pwrite"); if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; } if (o < 0) { errno = EINVAL; return -1; } if (f->flags & O_APPEND) o = nsize(f->node); range_access(b, n, 0, RA); file_put(f->node, b, n, o); return n; }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_preadv(int fd, const struct iovec *v, int c, off_t o) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_pread(fd, v[i].iov_base, v[i].iov_len, o + t); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_pwritev(int fd, const struct iovec *v, int c, off_t o) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = __wrap_pwrite(fd, v[i].iov_base, v[i].iov_len, o + t); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_preadv64(int fd, const struct iovec *v, int c, off_t o) { return __wrap_preadv(fd, v, c, o); }
ssize_t __wrap_pwritev64(int fd, const struct iovec *v, int c, off_t o) { return __wrap_pwritev(fd, v, c, o); }
int __wrap_eventfd_read(int fd, eventfd_t *v) { return read(fd, v, 8) == 8 ? 0 : -1; }
int __wrap_eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }
int __wrap_epoll_pwait(int ep, struct epoll_event *evs, int maxev, int tmo, const sigset_t *) { return __wrap_epoll_wait(ep, evs, maxev, tmo); }
int __wrap_openat(int, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return __wrap_open(p, fl, mode); }
int __wrap_creat(const char *p, mode_t mode) { return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
FILE *__wrap_setmntent(const char *, const char *) { return (FILE *)&fsobj; }
struct mntent *__wrap_getmntent(FILE *) { return 0; }
int __wrap_endmntent(FILE *) { return 1; }
void vk_file_set(const char *p, const void *d, size_t n) { Node *x = node_find(p); if (!x) { x = new Node(); x->name = p; x->is_sock = 0; nodes->push_back(x); } x->hole = 0; x->mtime = wall_sec(); x->data.assign((const u8 *)d, (const u8 *)d + n); }
void vk_mknode(const char *p, const char *link, long mtime) { Node *x = new Node(); x->name = p; if (link) x->link = link; else x->is_dir = 1; x->mtime = mtime; nodes->push_back(x); }
void vk_file_mtime(const char *p, long mtime) { node_find(p)->mtime = mtime; }
/* the data begins at position at, before it zeros */
void vk_file_set_at(const char *p, long long at, const void *d, size_t n) { vk_file_set(p, d, n); node_find(p)->hole = at; }
long vk_file_get(const char *p, void *d, size_t cap) { Node *x = node_find(p); if (!x) return -1; size_t n = x->data.size() < cap ? x->data.size() : cap; memcpy(d, x->data.data(), n); return x->data.size(); }
/* ------------------------------------------------------------------ Linux AIO */
static void aio_do(AioCtx *c, AioPend &p, int fl) {
	long res; Node *n = p.f->node;
	if (fl == 2) res = -EIO;
	else {
		size_t len = p.n; if (fl == 1) len = len / 2;
		bool direct = p.f->flags & O_DIRECT;
		if (direct && (((u64)p.buf & 511) || (p.n & 511) || (p.off & 511))) res = -EINVAL;
		else if (p.off < 0) res = -EINVAL;
		else if (p.op == IOCB_CMD_PREAD) { i64 av = nsize(n) - p.off; if (av < 0) av = 0; if ((i64)len > av) len = av; range_access(p.buf, len, 1, RA); nread(n, p.off, p.buf, len); res = len; }
		else { range_access(p.buf, len, 0, RA); i64 at = (p.f->flags & O_APPEND) ? nsize(n) : p.off; file_put(n, p.buf, len, at); res = len; }
	}
	struct io_event e; memset(&e, 0, sizeof e); e.data = p.data; e.obj = (u64)p.cb; e.res = res; c->done.push_back(e);
	TRACE("device completes %s of %zu bytes at %lld: %ld", p.op == IOCB_CMD_PREAD ? "read" : "write", p.n, (long long)p.off, res);
	if (p.resfd >= 0) { VFile *ef = fget(p.resfd); if (ef) { also(ef->key); ef->cnt++; wake(ef, EPOLLIN); } }
	VFile *f = p.f; if (f->refs == 1) also(f->key); release(f);
}
static void *aio_dev(void *a) {
	AioCtx *c = (AioCtx *)a;
	for (;;) {
		block([](void *p) { AioCtx *c = (AioCtx *)p; return (int)(c->dead || !c->pend.empty()); }, c, -1, "device", c);
		if (c->dead) return 0;
		void *ck = (void *)(0x300000ul + (c - aio) * 16);
		visible(ck, 1, "device");
		if (c->pend.empty()) continue;
		int k = c->pend.size() > 1 && G->explore && !G->seq ? kmc_choose(c->pend.size() > 3 ? 3 : c->pend.size()) : 0;
		AioPend p = c->pend[k]; c->pend.erase(c->pend.begin() + k);
		int fl = aio_faults && G->explore ? kmc_deviate(3) : 0;
		also(p.f->key); aio_do(c, p, fl);
	}
}
long __wrap_syscall(long nr, ...) {
	va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
	if (!G->in_sim) return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (nr == SYS_io_setup) {
		if (fault("io_setup", -1)) return -1;
		visible((void *)0x300000ul, 1, "io_setup"); if (naio >= NAIO) endless("aio contexts"); int i = naio++; AioCtx *c = &aio[i]; c->used = true; c->dead = false;
		Thread *t = new_thread(aio_dev, c, "aio"); t->device = 1; t->vc = G->cur->vc; t->vc.c[t->id] = 1; c->dev = t; range_access((void *)a[1], 8, 1, RA); *(aio_context_t *)a[1] = 0xA10000 + i; return 0;
	}
	if (nr == SYS_io_destroy || nr == SYS_io_submit || nr == SYS_io_getevents) {
		long i = a[0] - 0xA10000; if (i < 0 || i >= naio || aio[i].dead) { errno = EINVAL; return -1; } AioCtx *c = &aio[i]; void *ck = (void *)(0x300000ul + i * 16);
		visible(ck, 1, nr == SYS_io_submit ? "io_submit" : nr == SYS_io_getevents ? "io_getevents" : "io_destroy");
		if (nr == SYS_io_destroy) { while (!c->pend.empty()) { AioPend p = c->pend.front(); c->pend.pop_front(); aio_do(c, p, 0); } c->dead = true; return 0; }
		if (nr == SYS_io_submit) {
			if (fault("io_submit", -1)) return -1;
			if (aio_faults && G->explore && kmc_deviate(2)) { errno = EAGAIN; return -1; }
			struct iocb **v = (struct iocb **)a[2]; long done = 0;
			for (long k = 0; k < a[1]; k++) { struct iocb *b = v[k]; range_access(b, sizeof *b, 0, RA); VFile *f = fget(b->aio_fildes); if (!f || f->type != T_FILE) { if (done) break; errno = EBADF; return -1; }
				int acc = f->flags & O_ACCMODE; if ((b->aio_lio_opcode == IOCB_CMD_PREAD && acc == O_WRONLY) || (b->aio_lio_opcode == IOCB_CMD_PWRITE && acc == O_RDONLY)) { if (done) break; errno = EBADF; return -1; }
				if ((i64)b->aio_nbytes < 0) { if (done) break; errno = EINVAL; return -1; }
				AioPend p; p.cb = b; p.data = b->aio_data; p.f = f; f->refs++; p.op = b->aio_lio_opcode; p.buf = (void *)b->aio_buf; p.n = b->aio_nbytes; p.off = b->aio_offset; p.resfd = (b->aio_flags & IOCB_FLAG_RESFD) ? (int)b->aio_resfd : -1; c->pend.push_back(p); done++; TRACE("io_submit op=%d n=%zu off=%lld", p.op, p.n, (long long)p.off); }
			return done;
		}
		long minr = a[1], maxr = a[2]; struct io_event *e = (struct io_event *)a[3]; struct timespec *ts = (struct timespec *)a[4];
		struct W { AioCtx *c; long n; } w = { c, minr };
		if ((long)c->done.size() < minr && !(ts && ts->tv_sec == 0 && ts->tv_nsec == 0)) { block([](void *p) { W *w = (W *)p; return (int)((long)w->c->done.size() >= w->n); }, &w, ts ? G->now + (i64)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 : -1, "io_getevents", c); also(ck); }
		long n = 0; while (n < maxr && !c->done.empty()) { range_access(&e[n], sizeof e[n], 1, RA); e[n++] = c->done.front(); c->done.pop_front(); } return n;
	}
	return raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
/* ------------------------------------------------------------------ names */
static int mkai(struct addrinfo **out, const char *ip, int fam, int socktype, const char *canon = 0) {
	struct sockaddr_storage s; memset(&s, 0, sizeof s); int ok = 0, len = 0;
	if ((fam == AF_UNSPEC || fam == AF_INET) && inet_pton(AF_INET, ip, &((sockaddr_in *)&s)->sin_addr) == 1) { s.ss_family = AF_INET; len = sizeof(sockaddr_in); ok = 1; }
	else if ((fam == AF_UNSPEC || fam == AF_INET6) && inet_pton(AF_INET6, ip, &((sockaddr_in6 *)&s)->sin6_addr) == 1) { s.ss_family = AF_INET6; len = sizeof(sockaddr_in6); ok = 1; }
	if (!ok) return EAI_NONAME;
	size_t cl = canon ? strlen(canon) + 1 : 0; struct addrinfo *a = (struct addrinfo *)karena_alloc(sizeof(struct addrinfo) + sizeof s + cl, 16, RA); memset(a, 0, sizeof *a + sizeof s);
	if (canon) { a->ai_canonname = (char *)(a + 1) + sizeof s; memcpy(a->ai_canonname, canon, cl); }
	a->ai_family = s.ss_family; a->ai_socktype = socktype; a->ai_addrlen = len; a->ai_addr = (struct sockaddr *)(a + 1); memcpy(a->ai_addr, &s, sizeof s); *out = a; return 0;
}
int __wrap_getaddrinfo(const char *h, const char *, const struct addrinfo *hint, struct addrinfo **res) {
	int fam = hint ? hint->ai_family : AF_UNSPEC, fl = hint ? hint->ai_flags : 0, st = hint ? hint->ai_socktype : 0;
	if (!h) return mkai(res, fl & AI_PASSIVE ? "0.0.0.0" : "127.0.0.1", fam, st);
	range_access(h, strlen(h) + 1, 0, RA);
	int r = mkai(res, h, fam, st); if (r == 0) return 0;
	if (fl & AI_NUMERICHOST) return EAI_NONAME;
	visible(&dnsobj, 1, "lookup"); dns_cnt++; TRACE("name lookup %s (#%d)", h, dns_cnt);
	if (fault_fn) { int e = fault_fn("lookup", dns_cnt); if (e) return e; visible(&dnsobj, 0, "answer"); }
	for (auto &d : *dns) if (!strcasecmp(d.h.c_str(), h)) { if (d.rc) return d.rc; return mkai(res, d.ip.c_str(), fam, st, fl & AI_CANONNAME ? d.h.c_str() : 0); }
	return EAI_NONAME;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; karena_free(a, RA); a = n; } }
int __wrap_getnameinfo(const struct sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int) {
	char b[64]; const void *p; int port;
	if (a->sa_family == AF_INET) { if (l < sizeof(sockaddr_in)) return EAI_FAMILY; p = &((sockaddr_in *)a)->sin_addr; port = ((sockaddr_in *)a)->sin_port; } else if (a->sa_family == AF_INET6) { if (l < sizeof(sockaddr_in6)) return EAI_FAMILY; p = &((sockaddr_in6 *)a)->sin6_addr; port = ((sockaddr_in6 *)a)->sin6_port; } else return EAI_FAMILY;
	inet_ntop(a->sa_family, p, b, sizeof b);
	if (h && hl) { if (strlen(b) + 1 > hl) return EAI_OVERFLOW; range_access(h, strlen(b) + 1, 1, RA); strcpy(h, b); }
	if (s && sl) { char q[16]; snprintf(q, sizeof q, "%d", ntohs(port)); if (strlen(q) + 1 > sl) return EAI_OVERFLOW; strcpy(s, q); } return 0;
}
void vk_dns_add(const char *h, const char *ip, int rc) { obj(&dnsobj); mixh(kmc_hash(ip ? ip : "", ip ? strlen(ip) : 0, rc)); for (auto &d : *dns) if (d.h == h) { d.ip = ip ? ip : ""; d.rc = rc; return; } dns->push_back({ h, ip ? ip : "", rc }); }
void vk_dns_clear(void) { dns->clear(); }
int vk_aio_contexts(void) { int n = 0; for (int i = 0; i < naio; i++) if (aio[i].used && !aio[i].dead) n++; return n; }
int vk_dns_lookups(void) { return dns_cnt; }
/* ------------------------------------------------------------------ harness access */
int vk_open_fds(void) { return open_cnt; }
void vk_dump_fds(void) { if (!G->replay) return; for (int i = 0; i < nfd; i++) if (fds[i] && fds[i]->open) ktrace("open descriptor %d type %d", FD0 + i, fds[i]->type); }
/* the value a socket option was set to, -1 if it was not set */
int vk_sockopt(int fd, int lev, int opt) { VFile *f = fget(fd); if (!f) return -2; long k = (long)lev << 32 | opt; for (auto &o : f->opts) if (o.first == k) return o.second; return -1; }
int vk_sockflags(int fd) { VFile *f = fget(fd); if (!f) return -1; return (f->nonblock ? 1 : 0) | (f->cloexec ? 2 : 0) | (f->type == T_UDP ? 4 : 0) | (f->listening ? 8 : 0) | (f->family << 8); }
int vk_fd_open(int fd) { return fget(fd) != 0; }
void vk_set_sockbuf(int b) { sockcap = b; }
void vk_aio_faults(int on) { aio_faults = on; }
void vk_set_fault(int (*f)(const char *, int)) { fault_fn = f; }
int vk_readable(int fd) { VFile *f = fget(fd); return f ? (int)f->rx.size() : -1; }
int vk_peer_pending(int fd) { VFile *f = fget(fd); return f && f->peer ? (int)f->peer->rx.size() : -1; }
int vk_aio_pending(void) { int n = 0; for (int i = 0; i < naio; i++) n += aio[i].pend.size(); return n; }
void vk_rst(int fd) { VFile *f = fget(fd); if (!f) return; visible(f->key, 1, "rst"); VFile *p = f->peer; tcp_reset(f); if (p) tcp_reset(p); }
int vk_file_flags(int fd) { VFile *f = fget(fd); return f ? f->flags : -1; }
}
