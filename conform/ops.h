/* Conformance of the virtual kernel: the same enumerated call sequences run on the real kernel (conform.cpp, native)
 * and on the virtual one (h/KCONF.cpp); every returned value, errno and epoll mask is compared. */
#pragma once
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <linux/aio_abi.h>
#ifndef SPAIR
#define SPAIR(p) socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)
#endif
static char lg[4096]; static int ln_;
static void L(const char *f, ...) { va_list a; va_start(a, f); ln_ += vsnprintf(lg + ln_, sizeof lg - ln_, f, a); va_end(a); }
static void R(const char *n, int r) { if (r < 0) L("%s=E%d ", n, errno); else L("%s=%d ", n, r); }
static int lsn(int backlog, struct sockaddr_in *a) { int l = socket(AF_INET, SOCK_STREAM, 0); socklen_t n = sizeof *a; memset(a, 0, n); a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(0x7f000001); int z = 4096; setsockopt(l, SOL_SOCKET, SO_RCVBUF, &z, sizeof z); bind(l, (struct sockaddr *)a, n); listen(l, backlog); getsockname(l, (struct sockaddr *)a, &n); return l; }
static int cli(struct sockaddr_in *a, int *r) { int c = socket(AF_INET, SOCK_STREAM, 0); fcntl(c, F_SETFL, O_NONBLOCK | fcntl(c, F_GETFL)); int z = 4096, one = 1; setsockopt(c, SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); *r = connect(c, (struct sockaddr *)a, sizeof *a); return c; }
static void ev(int e) { struct epoll_event o[4]; int r = epoll_wait(e, o, 4, 0); L("ev["); for (int i = 0; i < r; i++) L("%d:%x ", (int)o[i].data.u32, o[i].events); L("] "); }
static void wr(int fd, const char *n, int k) { char b[64] = "abcdefghijklmnopqrstuvwxyz"; R(n, (int)write(fd, b, k)); }
static void rd(int fd, const char *n, int k) { static char b[70000]; int r = (int)read(fd, b, k); R(n, r); if (r > 0 && r < 8) L("(%.*s) ", r, b); }
static void fill(int fd) { static char b[2048]; int r, c = 0; while ((r = (int)write(fd, b, sizeof b)) > 0) if (++c > 3000) break; R("fill", r); }
static void drain(int fd) { static char b[70000]; int r, c = 0; while ((r = (int)read(fd, b, sizeof b)) > 0) c++; L("drain%d", c > 0); R("", r); }
static void soerr(int fd) { int e = 0; socklen_t n = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &n); L("soerr=%d ", e); }
#define ET (EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLET)
/* family 0: connected pair A-B, epoll on A */
static int pair_ops(int (*choose)(int), int depth) {
	struct sockaddr_in a; int r, l = lsn(8, &a), A = cli(&a, &r), B = accept(l, 0, 0); fcntl(B, F_SETFL, O_NONBLOCK | fcntl(B, F_GETFL)); int z = 4096, one = 1; setsockopt(B, SOL_SOCKET, SO_SNDBUF, &z, sizeof z); setsockopt(B, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	int e = epoll_create1(0); struct epoll_event v; v.events = ET; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, A, &v); ev(e); int bo = 1;
	for (int i = 0; i < depth; i++) switch (choose(15)) {
		case 0: ev(e); break;
		case 1: wr(A, "wA", 3); break;
		case 2: if (bo) wr(B, "wB", 3); break;
		case 3: rd(A, "rA2", 2); break;
		case 4: rd(A, "rA", 100); break;
		case 5: if (bo) rd(B, "rB", 100); break;
		case 6: R("shA1", shutdown(A, SHUT_WR)); break;
		case 7: R("shA2", shutdown(A, SHUT_RDWR)); break;
		case 8: if (bo) R("shB1", shutdown(B, SHUT_WR)); break;
		case 9: if (bo) { close(B); bo = 0; } break;
		case 10: fill(A); break;
		case 11: if (bo) drain(B); break;
		case 12: v.events = EPOLLIN | EPOLLRDHUP | EPOLLET; R("mod", epoll_ctl(e, EPOLL_CTL_MOD, A, &v)); break;
		case 13: soerr(A); break;
		case 14: v.events = ET; R("mod2", epoll_ctl(e, EPOLL_CTL_MOD, A, &v)); break;
	}
	ev(e); rd(A, "rA", 100); rd(A, "rA", 100); wr(A, "wA", 3); if (bo) { rd(B, "rB", 100); }
	close(A); if (bo) close(B); close(e); close(l); return 0;
}
/* family 1: a connection attempt that nobody answers, watched by epoll */
static int syn_ops(int (*choose)(int), int depth, struct sockaddr_in *blackhole) {
	int r, A = cli(blackhole, &r); R("conn", r); int e = epoll_create1(0); struct epoll_event v; v.events = ET; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, A, &v); ev(e);
	for (int i = 0; i < depth; i++) switch (choose(6)) {
		case 0: ev(e); break;
		case 1: R("sh", shutdown(A, SHUT_RDWR)); break;
		case 2: wr(A, "wA", 3); break;
		case 3: rd(A, "rA", 3); break;
		case 4: soerr(A); break;
		case 5: v.events = ET; R("mod", epoll_ctl(e, EPOLL_CTL_MOD, A, &v)); break;
	}
	ev(e); close(A); close(e); return 0;
}
/* family 2: refused attempt */
static int ref_ops(int (*choose)(int), int depth, struct sockaddr_in *closed) {
	int r, A = cli(closed, &r); R("conn", r); int e = epoll_create1(0); struct epoll_event v; v.events = ET; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, A, &v);
	for (int i = 0; i < depth; i++) switch (choose(6)) {
		case 0: ev(e); break;
		case 1: R("sh", shutdown(A, SHUT_RDWR)); break;
		case 2: wr(A, "wA", 3); break;
		case 3: rd(A, "rA", 3); break;
		case 4: soerr(A); break;
		case 5: v.events = ET; R("mod", epoll_ctl(e, EPOLL_CTL_MOD, A, &v)); break;
	}
	ev(e); close(A); close(e); return 0;
}
/* family 3: listener watched by epoll */
static int lis_ops(int (*choose)(int), int depth) {
	struct sockaddr_in a; int r, l = lsn(4, &a), c[16], nc = 0, s[16], ns = 0; fcntl(l, F_SETFL, O_NONBLOCK | fcntl(l, F_GETFL)); int e = epoll_create1(0), open_ = 1; struct epoll_event v; v.events = EPOLLIN | EPOLLRDHUP | EPOLLET; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, l, &v);
	for (int i = 0; i < depth; i++) switch (choose(6)) {
		case 0: ev(e); break;
		case 1: c[nc++] = cli(&a, &r); R("conn", r); break;
		case 2: if (open_) { r = accept(l, 0, 0); R("acc", r < 0 ? r : 0); if (r >= 0) s[ns++] = r; } break;
		case 3: if (open_) R("shl", shutdown(l, SHUT_RDWR)); break;
		case 4: if (open_) { close(l); open_ = 0; } break;
		case 5: if (nc) { wr(c[nc - 1], "wc", 3); rd(c[nc - 1], "rc", 3); } break;
	}
	ev(e); for (int i = 0; i < nc; i++) { rd(c[i], "rc", 3); close(c[i]); } for (int i = 0; i < ns; i++) { rd(s[i], "rs", 9); close(s[i]); }
	if (open_) close(l); close(e); return 0;
}
/* family 4: eventfd */
static int efd_ops(int (*choose)(int), int depth) {
	int f = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), e = epoll_create1(0); struct epoll_event v; v.events = choose(2) ? (EPOLLIN | EPOLLET) : EPOLLIN; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, f, &v); uint64_t x;
	for (int i = 0; i < depth; i++) switch (choose(4)) { case 0: ev(e); break; case 1: x = 1; R("w", (int)write(f, &x, 8)); break; case 2: x = 0; R("r", (int)read(f, &x, 8)); L("v%d ", (int)x); break; case 3: x = 5; R("w", (int)write(f, &x, 8)); break; }
	ev(e); close(f); close(e); return 0;
}
/* family 5: datagrams */
static int udp_ops(int (*choose)(int), int depth) {
	struct sockaddr_in a, b, from; socklen_t n = sizeof a; memset(&a, 0, n); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001); b = a;
	int A = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0), B = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK, 0); bind(A, (struct sockaddr *)&a, n); bind(B, (struct sockaddr *)&b, n); getsockname(A, (struct sockaddr *)&a, &n); n = sizeof b; getsockname(B, (struct sockaddr *)&b, &n);
	int one = 1; setsockopt(A, IPPROTO_IP, IP_PKTINFO, &one, sizeof one); int e = epoll_create1(0), bo = 1; struct epoll_event v; v.events = EPOLLIN | EPOLLRDHUP | EPOLLET; v.data.u64 = 7; epoll_ctl(e, EPOLL_CTL_ADD, A, &v); char buf[64];
	for (int i = 0; i < depth; i++) switch (choose(8)) {
		case 0: ev(e); break;
		case 1: if (bo) R("sB", (int)sendto(B, "hello", 5, 0, (struct sockaddr *)&a, sizeof a)); break;
		case 2: if (bo) R("s0", (int)sendto(B, "", 0, 0, (struct sockaddr *)&a, sizeof a)); break;
		case 3: { struct iovec io = { buf, 3 }; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &io; m.msg_iovlen = 1; m.msg_name = &from; m.msg_namelen = sizeof from; int r = (int)recvmsg(A, &m, 0); R("rm", r); if (r >= 0) L("f%d tr%d ", from.sin_port == b.sin_port, !!(m.msg_flags & MSG_TRUNC)); } break;
		case 4: { n = sizeof from; int r = (int)recvfrom(A, buf, 64, 0, (struct sockaddr *)&from, &n); R("rf", r); } break;
		case 5: R("sA", (int)sendto(A, "xyz", 3, 0, (struct sockaddr *)&b, sizeof b)); break;
		case 6: R("shA", shutdown(A, SHUT_RDWR)); break;
		case 7: { char cb[CMSG_SPACE(sizeof(struct in_pktinfo))]; memset(cb, 0, sizeof cb); struct iovec io[2] = { { buf, 2 }, { buf + 8, 40 } }; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = io; m.msg_iovlen = 2; m.msg_name = &from; m.msg_namelen = sizeof(struct sockaddr_in6); m.msg_control = cb; m.msg_controllen = sizeof cb; int r = (int)recvmsg(A, &m, 0); R("rp", r); if (r >= 0) { struct cmsghdr *c = (struct cmsghdr *)cb; L("nl%d cl%d lv%d ty%d dst%x f%d tr%d ", (int)m.msg_namelen, (int)m.msg_controllen, c->cmsg_level, c->cmsg_type, ntohl(((struct in_pktinfo *)CMSG_DATA(c))->ipi_addr.s_addr), from.sin_port == b.sin_port, !!(m.msg_flags & MSG_TRUNC)); } } break;
	}
	ev(e); { n = sizeof from; R("rB", (int)recvfrom(B, buf, 64, 0, (struct sockaddr *)&from, &n)); } close(A); close(B); close(e); return 0;
}
/* family 6: a file used by read/write, positioned calls, seeking, sendfile to a stream socket and kernel aio */
static void aio1(aio_context_t x, int efd, int e, int f, int op, char *buf, int n, int off, const char *nm) {
	struct iocb cb, *v = &cb; memset(&cb, 0, sizeof cb); cb.aio_fildes = f; cb.aio_lio_opcode = op; cb.aio_buf = (uintptr_t)buf; cb.aio_nbytes = n; cb.aio_offset = off; cb.aio_flags = IOCB_FLAG_RESFD; cb.aio_resfd = efd; cb.aio_data = 42;
	int r = (int)syscall(SYS_io_submit, x, 1L, &v); if (r != 1) { R(nm, r); return; }
	struct epoll_event o[2]; int k = epoll_wait(e, o, 2, 1000); L("%s:ev%d/%x ", nm, k, k > 0 ? o[0].events : 0); uint64_t c = 0; R("n", (int)read(efd, &c, 8)); struct io_event io[2]; struct timespec ts = { 0, 0 }; k = (int)syscall(SYS_io_getevents, x, 1L, 2L, io, &ts); L("got%d c%d ", k, (int)c); if (k > 0) { L("res%d d%d ", (int)io[0].res, (int)io[0].data); if (op == IOCB_CMD_PREAD && (int)io[0].res > 0) L("(%.*s) ", (int)io[0].res, buf); }
}
static int file_ops(int (*choose)(int), int depth, const char *path) {
	char b[64]; unlink(path); int f = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644); R("w", (int)write(f, "abcdefgh", 8)); close(f);
	static const int modes[] = { O_RDONLY, O_RDWR, O_WRONLY | O_APPEND, O_RDWR | O_CREAT | O_TRUNC, O_WRONLY };
	f = open(path, modes[choose(5)], 0644); int p[2]; SPAIR(p); off_t o; static aio_context_t x; static int sr = -2; if (sr == -2) sr = (int)syscall(SYS_io_setup, 8L, &x); int efd = eventfd(0, EFD_NONBLOCK), e = epoll_create1(0); struct epoll_event v; v.events = EPOLLIN; v.data.u64 = 1; epoll_ctl(e, EPOLL_CTL_ADD, efd, &v);
	for (int i = 0; i < depth; i++) switch (choose(13)) {
		case 12: { struct timespec ts[2] = { { 5, 0 }, { 77, 0 } }; R("ut", futimens(f, ts)); struct stat st; fstat(f, &st); L("m%d%d ", (int)st.st_mtime, S_ISREG(st.st_mode)); } break;
		case 0: { int r = (int)read(f, b, 3); R("r", r); if (r > 0) L("(%.*s) ", r, b); } break;
		case 1: R("w", (int)write(f, "XY", 2)); break;
		case 2: R("s2", (int)lseek(f, 2, SEEK_SET)); break;
		case 3: R("se", (int)lseek(f, -1, SEEK_END)); break;
		case 4: R("sc", (int)lseek(f, -3, SEEK_CUR)); break;
		case 5: { int r = (int)pread(f, b, 4, 6); R("pr", r); if (r > 0) L("(%.*s) ", r, b); } break;
		case 6: R("pw", (int)pwrite(f, "PQR", 3, 9)); break;
		case 7: o = 6; R("sf", (int)sendfile(p[0], f, &o, 4)); L("o%d ", (int)o); break;
		case 8: R("sf0", (int)sendfile(p[0], f, 0, 3)); R("pos", (int)lseek(f, 0, SEEK_CUR)); break;
		case 9: if (sr == 0) aio1(x, efd, e, f, IOCB_CMD_PREAD, b, 4, 5, "ar"); break;
		case 10: if (sr == 0) aio1(x, efd, e, f, IOCB_CMD_PWRITE, (char *)"mno", 3, 10, "aw"); break;
		case 11: { struct iovec io[2] = { { b, 2 }, { b + 10, 5 } }; int r = (int)readv(f, io, 2); R("rv", r); if (r > 2) L("(%.*s) ", r - 2, b + 10); } break;
	}
	{ struct stat s; fstat(f, &s); L("size%d ", (int)s.st_size); } close(p[0]); { int r = (int)read(p[1], b, 60); R("rs", r); if (r > 0) L("(%.*s) ", r, b); } close(p[1]); close(f); close(efd); close(e);
	f = open(path, O_RDONLY); { int r = (int)read(f, b, 60); L("{"); for (int i = 0; i < r; i++) L("%c", b[i] ? b[i] : '.'); L("}"); } close(f); unlink(path); return 0;
}
