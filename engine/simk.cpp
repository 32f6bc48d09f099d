// simulated kernel for the model checker (see simk.h)
#include "mcrt_int.h"
#include "simk.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace mcrt;
namespace mcrt { void plain(uintptr_t a, size_t n, bool write, uint64_t pc); }
#define PC ((uint64_t)__builtin_return_address(0))
#define REAL(name) ((decltype(&name))({ static void* p = nullptr; if (!p) p = real_sym(#name); p; }))
#define ON (active && me && !in_rt)

namespace simk {
static Options options; Options& opt() { return options; }
Plan (*connect_plan)(const sockaddr_in&, int); void (*poll_hook)(); bool (*socket_hook)();
static __thread int is_quiet;
void quiet(bool q) { is_quiet = q; }
enum { FD0 = 100, NFD = 1000, NFILE = 3000 };
enum Kind { PIPE_R, PIPE_W, EVENTFD, TIMERFD, EPOLL, TCP, UDP };
static const char* kname[] = {"pipe(read)", "pipe(write)", "eventfd", "timerfd", "epoll", "tcp", "udp"};
struct Buf { char* d; size_t head, len, cap, room; };
struct File;
struct Item { File* f; int fd; uint32_t ev; uint64_t data; uint64_t seen; Item* next; };
enum St { S_NEW, S_LISTEN, S_CONNECTING, S_CONN, S_DEAD };
struct Pair { char obj; };   // what two ends share: conflict object
struct Dgram { size_t n; sockaddr_in from; Dgram* next; char d[1]; };
struct File {
	Kind kind; int fd; bool open; bool nonblock; int fdflags; int64_t serial; uint64_t seq;
	void* obj;                         // conflict object
	Buf rx; File* other;               // pipe / connection: the other end (null once it is gone)
	bool wclosed, rclosed;             // pipe: other end closed
	// socket
	St st; bool bound, reuseaddr, reuseport, linger_on; int linger; sockaddr_in local, peer; int err;
	bool shut_rd, shut_wr, fin; char cing;  // RCV_SHUTDOWN, SEND_SHUTDOWN, SOCK_DONE; 1 SS_CONNECTING 2 SS_DISCONNECTING
	File* q[64]; int nq; int backlog;
	int64_t conn_at; int conn_err;
	Dgram* dq;
	// eventfd, timerfd
	uint64_t cnt; bool sem; int64_t next, interval;
	// epoll
	Item* items; int cursor;
};
static File files[NFILE]; static int nfile; static int64_t serials; static File* fdt[NFD]; static char slotobj[NFD], fdtab_obj, port_obj;
static int next_port = 40000, nconnect, hi;   // hi: no descriptor beyond FD0+hi-1 has been used
static int64_t k_next_timer() {
	int64_t n = -1;
	for (int i = 0; i < hi; i++) { File* f = fdt[i]; if (!f) continue;
		if (f->kind == TIMERFD && f->next > now_ns && (n < 0 || f->next < n)) n = f->next;
		if (f->kind == TCP && f->st == S_CONNECTING && f->conn_at > now_ns && (n < 0 || f->conn_at < n)) n = f->conn_at; }
	return n;
}
static struct Init { Init() { next_timer = k_next_timer; } } init_;

static File* lookup(int fd, const char* what) {
	if (fd < 0) { errno = EBADF; return nullptr; }
	if (fd - FD0 >= NFD) { errno = EBADF; return nullptr; }
	{ Guard g; access(&slotobj[fd - FD0], false, 90); sync(&slotobj[fd - FD0], true, false); }
	File* f = fdt[fd - FD0];
	if (!f) { if (options.strict) fail_now("%s on descriptor %d, which is not open", what, fd); errno = EBADF; return nullptr; }
	return f;
}
static File* mk(Kind k) {
	if (nfile >= NFILE) fail_now("simk: too many files");
	File* f = &files[nfile++]; f->kind = k; f->open = true; f->serial = ++serials; f->obj = f; f->next = -1; f->conn_at = -1; return f;
}
static int install(File* f) {
	Guard g; op(&fdtab_obj, 91);
	for (int i = 0; i < NFD; i++) if (!fdt[i]) { if (i >= hi) hi = i + 1; op(&slotobj[i], 92); fdt[i] = f; f->fd = FD0 + i; tracef("  [%d]   = descriptor %d (%s)\n", me->id, FD0 + i, kname[f->kind]); return FD0 + i; }
	errno = EMFILE; return -1;
}
static bool nofds(int need = 1) { for (int i = 0; i < NFD; i++) if (!fdt[i] && !--need) return false; errno = EMFILE; return true; }
// ---- buffers
static size_t b_free(Buf& b) { return b.cap > b.len ? b.cap - b.len : 0; }
static void b_put(Buf& b, const char* p, size_t n) {
	if (b.head + b.len + n > b.room) {
		if (b.len + n <= b.room && b.head > b.room / 2) { memmove(b.d, b.d + b.head, b.len); }
		else { size_t r = (b.len + n) * 2 + 64; char* d = (char*)rt_alloc(r); memcpy(d, b.d + b.head, b.len); b.d = d; b.room = r; }
		b.head = 0;
	}
	memcpy(b.d + b.head + b.len, p, n); b.len += n;
}
static size_t b_get(Buf& b, char* p, size_t n, bool peek = false) { if (n > b.len) n = b.len; memcpy(p, b.d + b.head, n); if (!peek) { b.head += n; b.len -= n; if (!b.len) b.head = 0; } return n; }
// ---- readiness
static void sock_reset(File* f, int err) {   // an RST arrives at f
	if (f->st != S_CONN && f->st != S_CONNECTING) return;
	f->err = f->st == S_CONNECTING ? err : (f->fin ? EPIPE : err);
	f->st = S_DEAD; f->shut_rd = f->shut_wr = true; f->seq++;
}
static void establish(File* c);
static void finish(File* f) { if (f && f->st == S_CONN && f->fin && f->shut_wr) { f->st = S_DEAD; f->other = nullptr; f->shut_rd = true; f->seq++; } }   // both directions are closed
static void settle(File* f) { if (f->kind == TCP && f->st == S_CONNECTING && f->conn_at >= 0 && now_ns >= f->conn_at) { if (f->conn_err) sock_reset(f, f->conn_err); else establish(f); } }
static void settle_all() { for (int i = 0; i < hi; i++) if (fdt[i]) settle(fdt[i]); }
static uint32_t mask_of(File* f) {
	uint32_t m = 0;
	switch (f->kind) {
	case PIPE_R: if (f->rx.len) m |= EPOLLIN; if (f->wclosed) m |= EPOLLHUP; break;
	case PIPE_W: if (f->rclosed) m |= EPOLLERR; if (f->other->rx.cap - f->other->rx.len >= 4096 || !f->other->rx.len) m |= EPOLLOUT; break;
	case EVENTFD: if (f->cnt) m |= EPOLLIN; if (f->cnt < 0xfffffffffffffffeull) m |= EPOLLOUT; break;
	case TIMERFD: if (f->next >= 0 && f->next <= now_ns) m |= EPOLLIN; break;
	case EPOLL: for (Item* i = f->items; i; i = i->next) if (mask_of(i->f) & (i->ev | EPOLLERR | EPOLLHUP)) m |= EPOLLIN; break;
	case UDP: if (f->dq) m |= EPOLLIN; m |= EPOLLOUT; break;
	case TCP:
		if (f->st == S_LISTEN) { if (f->nq) m |= EPOLLIN; break; }
		if ((f->shut_rd && f->shut_wr) || f->st == S_NEW || f->st == S_DEAD) m |= EPOLLHUP;
		if (f->shut_rd) m |= EPOLLIN | EPOLLRDHUP;
		if (f->st != S_CONNECTING) { if (f->rx.len) m |= EPOLLIN; if (f->shut_wr || !f->other || b_free(f->other->rx)) m |= EPOLLOUT; }
		if (f->err) m |= EPOLLERR;
		break;
	}
	if (m & EPOLLIN) m |= EPOLLRDNORM; if (m & EPOLLOUT) m |= EPOLLWRNORM;
	return m;
}
static void* obj_of(File* f) { return f->obj; }
static void touch_r(File* f) { access(obj_of(f), false, 93); sync(obj_of(f), true, false); if (f->kind == TIMERFD || f->kind == TCP) access(&clock_obj, false, 94); if (f->kind == EPOLL) for (Item* i = f->items; i; i = i->next) touch_r(i->f); }
static void touch_w(File* f, int opc) { op(obj_of(f), opc); if (f->kind == TIMERFD || f->kind == TCP) access(&clock_obj, false, 94); }
static bool rd_ready(Th* t) { File* f = (File*)t->wobj; settle(f); return mask_of(f) & (EPOLLIN | EPOLLHUP | EPOLLERR); }
static bool wr_ready(Th* t) { File* f = (File*)t->wobj; settle(f); return mask_of(f) & (EPOLLOUT | EPOLLHUP | EPOLLERR); }
static int ret(const char* what, int fd, long r) { if (tracing()) { int e = errno; if (r < 0) tracef("  [%d]   %s(%d) = %s\n", me->id, what, fd, strerror(e)); else tracef("  [%d]   %s(%d) = %ld\n", me->id, what, fd, r); errno = e; } return (int)r; }
static int dev(int n, const char* what) { return is_quiet ? 0 : env_choose(n, what); }
static bool refused(const char* what) { if (!options.nofile || !dev(2, what)) return false; errno = EMFILE; return true; }
static void sigpipe(int fd) {
	struct sigaction sa; sigset_t cur; Guard g;
	sigaction(SIGPIPE, nullptr, &sa); pthread_sigmask(SIG_BLOCK, nullptr, &cur);
	if (sigismember(&cur, SIGPIPE) || sa.sa_handler == SIG_IGN || is_quiet) return;
	if (sa.sa_handler == SIG_DFL) fail_now("the process is killed by SIGPIPE (write to descriptor %d, whose peer is gone)", fd);
	in_rt--; sa.sa_handler(SIGPIPE); in_rt++;
}
// ---- TCP
static bool is_local(const sockaddr_in& a) { uint32_t h = ntohl(a.sin_addr.s_addr); return h == 0 || (h >> 24) == 127; }
static File* find_listener(const sockaddr_in& to) {
	File* best = nullptr;
	for (int i = 0; i < hi; i++) { File* f = fdt[i]; if (f && f->kind == TCP && f->st == S_LISTEN && f->local.sin_port == to.sin_port && (f->local.sin_addr.s_addr == 0 || f->local.sin_addr.s_addr == to.sin_addr.s_addr)) if (!best || f->nq < best->nq) best = f; }
	return best;
}
static void establish(File* c) {   // the handshake of c completes now
	Guard g;
	File* l = find_listener(c->peer);
	if (!l || l->nq >= 60) { sock_reset(c, ECONNREFUSED); return; }
	op(obj_of(l), 95);
	File* s = mk(TCP); s->st = c->st = S_CONN; s->fd = -1;
	Pair* p = (Pair*)rt_alloc(sizeof(Pair)); 
	op(obj_of(c), 96); op(p, 96);
	s->obj = c->obj = p;
	s->local = c->peer; s->peer = c->local; s->bound = true;
	s->other = c; c->other = s; s->rx.cap = c->rx.cap = options.sock_cap;
	l->q[l->nq++] = s; l->seq++; c->seq++; s->seq++;
}
static void tcp_drop(File* f) {   // f's last descriptor is gone
	if (f->st == S_LISTEN) { for (int i = 0; i < f->nq; i++) { File* s = f->q[i]; op(obj_of(s), 97); if (s->other) { sock_reset(s->other, ECONNRESET); s->other->other = nullptr; } s->other = nullptr; s->st = S_DEAD; } f->nq = 0; }
	else if (f->st == S_CONN) {
		File* o = f->other;
		if (o) {
			bool rst = f->rx.len || (f->linger_on && f->linger == 0);
			if (rst) sock_reset(o, ECONNRESET);
			else if (!o->fin) { o->fin = true; o->shut_rd = true; o->seq++; }
			o->other = nullptr; finish(o);
		}
	}
	f->other = nullptr; f->st = S_DEAD;
}
static long tcp_write(File* f, const char* p, size_t n, int flags) {
	if (f->st == S_NEW || f->st == S_LISTEN) { int e = f->err; f->err = 0; if (!e) { e = EPIPE; if (!(flags & MSG_NOSIGNAL)) sigpipe(f->fd); } errno = e; return -1; }
	if (f->st == S_CONNECTING) { errno = EAGAIN; return -1; }
	if (f->err || f->shut_wr) {
		int e = f->err; f->err = 0; if (!e) e = EPIPE;
		if (e == EPIPE && !(flags & MSG_NOSIGNAL)) sigpipe(f->fd);
		errno = e; return -1;
	}
	if (!f->other) {   // the peer has closed: it answers with a reset
		sock_reset(f, ECONNRESET); return n;
	}
	if (f->other->shut_rd && f->other->shut_wr && n) {   // the peer has shut down both directions: data for it is answered with a reset, which it takes too
		File* o = f->other; o->other = f->other = nullptr; sock_reset(o, ECONNRESET); sock_reset(f, ECONNRESET); return n;
	}
	size_t room = b_free(f->other->rx);
	if (!room) { errno = EAGAIN; return -1; }
	if (n > room) n = room;
	b_put(f->other->rx, p, n); f->other->seq++;
	return n;
}
static long tcp_read(File* f, char* p, size_t n, int flags) {
	if (f->st == S_LISTEN) { errno = ENOTCONN; return -1; }
	if (f->rx.len) { size_t k = b_get(f->rx, p, n, flags & MSG_PEEK); if (f->other && !(flags & MSG_PEEK)) f->other->seq++; return k; }
	if (f->fin) return 0;
	if (f->err) { errno = f->err; f->err = 0; return -1; }
	if (f->shut_rd) return 0;
	errno = f->st == S_NEW ? ENOTCONN : EAGAIN; return -1;
}
// ---- generic read / write
static long do_write(int fd, const iovec* iov, int cnt, int flags, const char* what, uint64_t pc) {
	size_t n = 0; for (int i = 0; i < cnt; i++) { check_range(iov[i].iov_base, iov[i].iov_len, false, what); if (iov[i].iov_len) plain((uintptr_t)iov[i].iov_base, iov[i].iov_len, false, pc); n += iov[i].iov_len; }
	point(what, fd >= FD0 && fd - FD0 < NFD && fdt[fd - FD0] ? obj_of(fdt[fd - FD0]) : nullptr);
	File* f = lookup(fd, what); if (!f) return -1;
	for (;;) {
		settle(f);
		long r = -1;
		size_t lim = n; int d = 0;
		if (f->kind == TCP && f->st == S_CONN && !f->err && !f->shut_wr && f->other) {
			bool sw = options.short_write && n > 1, sp = options.spurious && f->nonblock, rs = options.reset;
			int na = 1 + (sw ? (n > 2 ? 2 : 1) : 0) + sp + rs;
			d = dev(na, "write: short / would block / reset");
			if (d) { int k = 1; if (sw) { if (d == k) lim = 1; k++; if (n > 2) { if (d == k) lim = n - 1; k++; } } if (sp) { if (d == k) lim = 0; k++; } if (rs) { if (d == k) { Guard g; touch_w(f, 98); if (f->other) { sock_reset(f->other, ECONNRESET); f->other->other = nullptr; } f->other = nullptr; f->err = ECONNRESET; f->st = S_DEAD; f->shut_rd = f->shut_wr = true; f->rx.len = 0; } k++; } }
		}
		Guard g;
		touch_w(f, 99);
		if (lim == 0 && n) { errno = EAGAIN; return ret(what, fd, -1); }
		switch (f->kind) {
		case TCP: {
			char* tmp = (char*)rt_alloc(n + 1); size_t k = 0; for (int i = 0; i < cnt; i++) { memcpy(tmp + k, iov[i].iov_base, iov[i].iov_len); k += iov[i].iov_len; }
			in_rt--; r = tcp_write(f, tmp, lim, flags); in_rt++;
			break; }
		case PIPE_W: {
			if (f->rclosed) { in_rt--; sigpipe(fd); in_rt++; errno = EPIPE; break; }
			File* o = f->other; size_t room = b_free(o->rx);
			if (!n) { r = 0; break; }
			if (room == 0 || (n <= 4096 && room < n)) { errno = EAGAIN; break; }
			if (n > room) lim = room;
			size_t k = 0; for (int i = 0; i < cnt && k < lim; i++) { size_t z = iov[i].iov_len < lim - k ? iov[i].iov_len : lim - k; b_put(o->rx, (char*)iov[i].iov_base, z); k += z; }
			o->seq++; r = lim; break; }
		case EVENTFD: { uint64_t v; if (n < 8) { errno = EINVAL; break; } memcpy(&v, iov[0].iov_base, 8); if (v == ~0ull) { errno = EINVAL; break; } if (f->cnt + v < f->cnt || f->cnt + v == ~0ull) { errno = EAGAIN; break; } f->cnt += v; f->seq++; r = 8; break; }
		case UDP: errno = EDESTADDRREQ; break;
		case PIPE_R: errno = EBADF; break;
		default: errno = EINVAL;
		}
		if (r < 0 && errno == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT)) { in_rt--; block(what, wr_ready, f, -1); in_rt++; continue; }
		return ret(what, fd, r);
	}
}
static long do_read(int fd, const iovec* iov, int cnt, int flags, const char* what, uint64_t pc) {
	size_t n = 0; for (int i = 0; i < cnt; i++) { check_range(iov[i].iov_base, iov[i].iov_len, true, what); n += iov[i].iov_len; }
	point(what, fd >= FD0 && fd - FD0 < NFD && fdt[fd - FD0] ? obj_of(fdt[fd - FD0]) : nullptr);
	File* f = lookup(fd, what); if (!f) return -1;
	for (;;) {
		settle(f);
		long r = -1; size_t lim = n; bool wb = false;
		if (f->kind == TCP && f->st == S_CONN && f->rx.len && n) {
			bool sr = options.short_read && f->rx.len > 1 && n > 1, sp = options.spurious && f->nonblock, rs = options.reset;
			int na = 1 + sr + sp + rs, d = dev(na, "read: short / would block / reset"), k = 1;
			if (sr) { if (d == k) lim = 1; k++; } if (sp) { if (d == k) wb = true; k++; }
			if (rs && d == k) { Guard g; touch_w(f, 98); if (f->other) { sock_reset(f->other, ECONNRESET); f->other->other = nullptr; } f->other = nullptr; f->err = ECONNRESET; f->st = S_DEAD; f->shut_rd = f->shut_wr = true; f->rx.len = 0; }
		}
		char* tmp = nullptr;
		{
			Guard g;
			touch_w(f, 100);
			if (wb) { errno = EAGAIN; return ret(what, fd, -1); }
			tmp = (char*)rt_alloc(lim + 1);
			switch (f->kind) {
			case TCP: r = n ? tcp_read(f, tmp, lim, flags) : 0; break;
			case PIPE_R: if (f->rx.len) { r = b_get(f->rx, tmp, n); f->seq++; if (f->other) f->other->seq++; } else if (f->wclosed || !n) r = 0; else errno = EAGAIN; break;
			case EVENTFD: { if (n < 8) { errno = EINVAL; break; } if (!f->cnt) { errno = EAGAIN; break; } uint64_t v = f->sem ? 1 : f->cnt; f->cnt -= v; memcpy(tmp, &v, 8); r = 8; break; }
			case TIMERFD: { if (n < 8) { errno = EINVAL; break; } if (f->next < 0 || now_ns < f->next) { errno = EAGAIN; break; }
				uint64_t v = 1; if (f->interval > 0) { v = 1 + (now_ns - f->next) / f->interval; f->next += v * f->interval; } else f->next = -1; memcpy(tmp, &v, 8); r = 8; break; }
			case UDP: if (f->dq) { Dgram* d = f->dq; size_t k = d->n < lim ? d->n : lim; memcpy(tmp, d->d, k); f->dq = d->next; r = k; } else errno = EAGAIN; break;
			case PIPE_W: errno = EBADF; break;
			default: errno = EINVAL;
			}
			if (r < 0 && errno == EAGAIN && !f->nonblock && !(flags & MSG_DONTWAIT)) { in_rt--; block(what, rd_ready, f, -1); in_rt++; continue; }
			ret(what, fd, r);
		}
		long k = 0; int e = errno;
		for (int i = 0; i < cnt && k < r; i++) { long z = (long)iov[i].iov_len < r - k ? iov[i].iov_len : r - k; if (z) { plain((uintptr_t)iov[i].iov_base, z, true, pc); memcpy(iov[i].iov_base, tmp + k, z); } k += z; }
		errno = e; return r;
	}
}
static int do_close(int fd) {
	point("close", fd - FD0 < NFD && fdt[fd - FD0] ? obj_of(fdt[fd - FD0]) : nullptr);
	if (fd - FD0 >= NFD) { errno = EBADF; return -1; }
	Guard g;
	op(&slotobj[fd - FD0], 101); op(&fdtab_obj, 102);
	File* f = fdt[fd - FD0];
	if (!f) { if (options.strict) fail_now("close of descriptor %d, which is not open (closed twice?)", fd); errno = EBADF; return -1; }
	settle(f); touch_w(f, 103);
	for (int i = 0; i < hi; i++) if (fdt[i] && fdt[i]->kind == EPOLL && fdt[i] != f) for (Item** p = &fdt[i]->items; *p;) { if ((*p)->f == f) { op(fdt[i], 104); *p = (*p)->next; } else p = &(*p)->next; }
	fdt[fd - FD0] = nullptr; f->open = false;
	switch (f->kind) {
	case PIPE_R: if (f->other) { f->other->rclosed = true; f->other->seq++; } break;
	case PIPE_W: if (f->other) { f->other->wclosed = true; f->other->seq++; } break;
	case TCP: tcp_drop(f); break;
	default: break;
	}
	if (f->kind == PIPE_R && f->other) f->other->other = f;
	return ret("close", fd, 0);
}
// ---- epoll
static int scan_epoll(File* e, epoll_event* out, int max, bool dry) {
	int n = 0, total = 0; Item* list[NFD]; for (Item* i = e->items; i; i = i->next) list[total++] = i;
	if (!total) return 0;
	Item* rd[NFD]; uint32_t ms[NFD]; int nr = 0, start = e->cursor % total;
	for (int k = 0; k < total; k++) {
		Item* i = list[(start + k) % total]; settle(i->f);
		if (i->ev == 0xffffffff) continue;   // one-shot, disarmed
		uint32_t m = mask_of(i->f) & (i->ev | EPOLLERR | EPOLLHUP) & ~(uint32_t)(EPOLLET | EPOLLONESHOT);
		if (!m || ((i->ev & EPOLLET) && i->seen == i->f->seq + 1)) continue;
		if (dry) return 1;
		rd[nr] = i; ms[nr++] = m;
	}
	if (dry) return 0;
	int rot = nr > 1 && options.order ? dev(nr, "order of ready events") : 0;
	for (n = 0; n < nr && n < max; n++) { Item* i = rd[(n + rot) % nr]; out[n].events = ms[(n + rot) % nr]; out[n].data.u64 = i->data; i->seen = i->f->seq + 1; if (i->ev & (EPOLLONESHOT | EPOLLET)) { Guard g; access(e, true, 106); } if (i->ev & EPOLLONESHOT) i->ev = 0xffffffff;
		if (n == max - 1 && nr > max) for (int k = 0; k < total; k++) if (list[k] == i) { Guard g; access(e, true, 107); e->cursor = k + 1; } }
	return n;
}
static bool ep_ready(Th* t) { return scan_epoll((File*)t->wobj, nullptr, 1, true); }
static int do_epoll_wait(int epfd, epoll_event* ev, int max, int64_t timeout_ns) {
	check_range(ev, sizeof *ev * (max > 0 ? max : 0), true, "epoll_wait");
	point("epoll_wait");
	File* e = lookup(epfd, "epoll_wait"); if (!e) return -1;
	if (e->kind != EPOLL || max <= 0) { errno = EINVAL; return -1; }
	int64_t deadline = timeout_ns < 0 ? -1 : now_ns + timeout_ns;
	for (;;) {
		settle_all();
		{ Guard g; access(e, false, 105); sync(e, true, true); for (Item* i = e->items; i; i = i->next) touch_r(i->f); }
		if (poll_hook && !is_quiet) poll_hook();
		epoll_event tmp[256]; int n = scan_epoll(e, tmp, max < 256 ? max : 256, false);
		if (n) { Guard g; for (int i = 0; i < n; i++) tracef("  [%d]   ready: data %lu events 0x%x\n", me->id, (unsigned long)tmp[i].data.u64, tmp[i].events); in_rt--; memcpy(ev, tmp, n * sizeof *ev); in_rt++; return ret("epoll_wait", epfd, n); }
		if (timeout_ns == 0 || (deadline >= 0 && now_ns >= deadline)) { if (timeout_ns == 0) { Guard g; tracef("  [%d]   epoll_wait: nothing\n", me->id); } return 0; }
		if (options.eintr && dev(2, "epoll_wait interrupted")) { errno = EINTR; return -1; }
		block("epoll_wait", ep_ready, e, deadline);
	}
}
struct SelArg { int n; fd_set *r, *w; int np; pollfd* p; };
static bool sel_ready(Th* t) {
	SelArg* a = (SelArg*)t->warg;
	for (int fd = FD0; a->r || a->w ? fd < a->n && fd < FD0 + NFD : false; fd++) { File* f = fdt[fd - FD0]; bool wr = a->r && FD_ISSET(fd, a->r), ww = a->w && FD_ISSET(fd, a->w); if (!wr && !ww) continue; if (!f) return true; settle(f); uint32_t m = mask_of(f);
		if ((wr && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) || (ww && (m & (EPOLLOUT | EPOLLERR)))) return true; }
	for (int i = 0; i < a->np; i++) { int fd = a->p[i].fd; if (fd < FD0 || fd - FD0 >= NFD) continue; File* f = fdt[fd - FD0]; if (!f) return true; settle(f); if (mask_of(f) & ((uint32_t)(uint16_t)a->p[i].events | EPOLLHUP | EPOLLERR)) return true; }
	return false;
}
static int do_select(int n, fd_set* r, fd_set* w, fd_set* x, int64_t timeout_ns) {
	point("select");
	fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
	int64_t deadline = timeout_ns < 0 ? -1 : now_ns + timeout_ns;
	SelArg a = {n, r ? &ri : nullptr, w ? &wi : nullptr, 0, nullptr};
	for (int fd = FD0; fd < n && fd < FD0 + NFD; fd++) if (FD_ISSET(fd, &ri) || FD_ISSET(fd, &wi)) { if (!fdt[fd - FD0]) { Guard g; access(&slotobj[fd - FD0], false, 90); if (options.strict) fail_now("select on descriptor %d, which is not open", fd); errno = EBADF; return -1; } }
	for (;;) {
		settle_all(); if (poll_hook && !is_quiet) poll_hook();
		fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo); int cnt = 0;
		{ Guard g;
		for (int fd = FD0; fd < n && fd < FD0 + NFD; fd++) { bool wr = FD_ISSET(fd, &ri), ww = FD_ISSET(fd, &wi); if (!wr && !ww) continue; access(&slotobj[fd - FD0], false, 90); File* f = fdt[fd - FD0]; if (!f) { if (options.strict) fail_now("descriptor %d was closed while select() waits for it", fd); continue; } touch_r(f); uint32_t m = mask_of(f);
			if (wr && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(fd, &ro); cnt++; } if (ww && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(fd, &wo); cnt++; } } }
		if (cnt || timeout_ns == 0 || (deadline >= 0 && now_ns >= deadline)) { if (r) *r = ro; if (w) *w = wo; if (x) FD_ZERO(x); Guard g; tracef("  [%d]   select = %d\n", me->id, cnt); return cnt; }
		if (options.eintr && dev(2, "select interrupted")) { errno = EINTR; return -1; }
		block("select", sel_ready, nullptr, deadline, (long)&a);
	}
}
static int do_poll(pollfd* p, int np, int64_t timeout_ns) {
	point("poll");
	int64_t deadline = timeout_ns < 0 ? -1 : now_ns + timeout_ns;
	SelArg a = {0, nullptr, nullptr, np, p}; int64_t intr = -1;
	for (;;) {
		settle_all(); int cnt = 0;
		{ Guard g; for (int i = 0; i < np; i++) { p[i].revents = 0; int fd = p[i].fd; if (fd < FD0 || fd - FD0 >= NFD) continue; access(&slotobj[fd - FD0], false, 90); File* f = fdt[fd - FD0]; if (!f) { p[i].revents = POLLNVAL; cnt++; continue; } touch_r(f); uint32_t m = mask_of(f) & ((uint32_t)(uint16_t)p[i].events | EPOLLHUP | EPOLLERR); p[i].revents = m; cnt += !!m; } }
		if (cnt || timeout_ns == 0 || (deadline >= 0 && now_ns >= deadline)) return cnt;
		if (intr >= 0 && now_ns >= intr) { errno = EINTR; return -1; }
		if (options.eintr && intr < 0) switch (dev(deadline > now_ns ? 3 : 2, "poll interrupted: at once / in the middle")) { case 1: errno = EINTR; return -1; case 2: intr = now_ns + (deadline - now_ns) / 2; }
		block("poll", sel_ready, nullptr, intr >= 0 ? intr : deadline, (long)&a);
	}
}
int open_count() { int n = 0; for (int i = 0; i < hi; i++) n += !!fdt[i]; return n; }
void dump() { for (int i = 0; i < hi; i++) if (fdt[i]) mc::note("  open: descriptor %d (%s)\n", FD0 + i, kname[fdt[i]->kind]); }
bool is_open(int fd) { return fd >= FD0 && fd - FD0 < NFD && fdt[fd - FD0]; }
size_t rx_len(int fd) { if (!is_open(fd)) return 0; File* f = fdt[fd - FD0]; Guard g; touch_r(f); return f->rx.len; }
uint32_t ready(int fd) { if (!is_open(fd)) return 0; File* f = fdt[fd - FD0]; settle(f); Guard g; touch_r(f); return mask_of(f); }
int64_t serial(int fd) { return is_open(fd) ? fdt[fd - FD0]->serial : -1; }
int connect_attempts() { return nconnect; }
void reset_conn(int fd) {
	point("network reset");
	File* f = lookup(fd, "network reset"); if (!f || f->kind != TCP) return;
	Guard g; settle(f); touch_w(f, 98);
	File* o = f->other; if (o) { sock_reset(o, ECONNRESET); o->other = nullptr; } f->other = nullptr; sock_reset(f, ECONNRESET);
}
int peer_listen(int port) {
	int s = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(s, (sockaddr*)&a, sizeof a) < 0 || listen(s, 16) < 0) { close(s); return -1; }
	return s;
}
int peer_connect(int port) {
	int s = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(s, (sockaddr*)&a, sizeof a) < 0) { int e = errno; close(s); errno = e; return -1; }
	return s;
}
int peer_accept(int l) { return accept(l, nullptr, nullptr); }
bool send_all(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = send(fd, c, n, MSG_NOSIGNAL); if (k <= 0) return false; c += k; n -= k; } return true; }
long recv_some(int fd, void* p, size_t n) { ssize_t k = read(fd, p, n); return k < 0 ? -errno : k; }
int local_port(int fd) { sockaddr_in a; socklen_t l = sizeof a; if (getsockname(fd, (sockaddr*)&a, &l) < 0) return -1; return ntohs(a.sin_port); }
}
using namespace simk;
#define SIMFD(fd) (ON && ((fd) >= FD0 || (fd) < 0))
extern "C" {
ssize_t read(int fd, void* p, size_t n) { if (!SIMFD(fd)) return REAL(read)(fd, p, n); iovec v = {p, n}; return do_read(fd, &v, 1, 0, "read", PC); }
ssize_t write(int fd, const void* p, size_t n) { if (!SIMFD(fd)) return REAL(write)(fd, p, n); iovec v = {(void*)p, n}; return do_write(fd, &v, 1, 0, "write", PC); }
ssize_t readv(int fd, const iovec* v, int c) { if (!SIMFD(fd)) return REAL(readv)(fd, v, c); return do_read(fd, v, c, 0, "readv", PC); }
ssize_t writev(int fd, const iovec* v, int c) { if (!SIMFD(fd)) return REAL(writev)(fd, v, c); return do_write(fd, v, c, 0, "writev", PC); }
ssize_t recv(int fd, void* p, size_t n, int fl) { if (!SIMFD(fd)) return REAL(recv)(fd, p, n, fl); iovec v = {p, n}; return do_read(fd, &v, 1, fl, "recv", PC); }
ssize_t send(int fd, const void* p, size_t n, int fl) { if (!SIMFD(fd)) return REAL(send)(fd, p, n, fl); iovec v = {(void*)p, n}; return do_write(fd, &v, 1, fl, "send", PC); }
static ssize_t udp_send(int fd, const iovec* v, int c, const sockaddr* to, socklen_t tl) {
	point("sendto"); File* f = lookup(fd, "sendto"); if (!f) return -1;
	Guard g; touch_w(f, 110);
	if (!f->bound) { f->local.sin_family = AF_INET; f->local.sin_port = htons(next_port++); f->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK); f->bound = true; }
	sockaddr_in d; if (to) memcpy(&d, to, sizeof d); else d = f->peer; (void)tl;
	size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
	for (int i = 0; i < hi; i++) { File* t = fdt[i]; if (t && t->kind == UDP && t->bound && t->local.sin_port == d.sin_port) {
		op(obj_of(t), 111); Dgram* q = (Dgram*)rt_alloc(sizeof(Dgram) + n); q->n = n; q->from = f->local; if (!q->from.sin_addr.s_addr) q->from.sin_addr.s_addr = htonl(INADDR_LOOPBACK); q->next = nullptr; size_t k = 0; for (int j = 0; j < c; j++) { memcpy(q->d + k, v[j].iov_base, v[j].iov_len); k += v[j].iov_len; }
		Dgram** e = &t->dq; while (*e) e = &(*e)->next; *e = q; t->seq++; break; } }
	return n;
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const sockaddr* to, socklen_t tl) {
	if (!SIMFD(fd)) return REAL(sendto)(fd, p, n, fl, to, tl);
	iovec v = {(void*)p, n}; if (is_open(fd) && fdt[fd - FD0]->kind == UDP) return udp_send(fd, &v, 1, to, tl);
	return do_write(fd, &v, 1, fl, "sendto", PC);
}
ssize_t recvfrom(int fd, void* p, size_t n, int fl, sockaddr* from, socklen_t* ln) {
	if (!SIMFD(fd)) return REAL(recvfrom)(fd, p, n, fl, from, ln);
	iovec v = {p, n}; if (is_open(fd) && fdt[fd - FD0]->kind == UDP && fdt[fd - FD0]->dq && from) { memcpy(from, &fdt[fd - FD0]->dq->from, sizeof(sockaddr_in)); if (ln) *ln = sizeof(sockaddr_in); }
	return do_read(fd, &v, 1, fl, "recvfrom", PC);
}
ssize_t sendmsg(int fd, const msghdr* m, int fl) { if (!SIMFD(fd)) return REAL(sendmsg)(fd, m, fl); if (is_open(fd) && fdt[fd - FD0]->kind == UDP) return udp_send(fd, m->msg_iov, m->msg_iovlen, (sockaddr*)m->msg_name, m->msg_namelen); return do_write(fd, m->msg_iov, m->msg_iovlen, fl, "sendmsg", PC); }
ssize_t recvmsg(int fd, msghdr* m, int fl) { if (!SIMFD(fd)) return REAL(recvmsg)(fd, m, fl); return do_read(fd, m->msg_iov, m->msg_iovlen, fl, "recvmsg", PC); }
int close(int fd) { if (!ON || (fd >= 0 && fd < FD0)) return REAL(close)(fd); if (fd < 0) { errno = EBADF; return -1; } return do_close(fd); }
int pipe2(int fds[2], int fl) {
	if (!ON) return REAL(pipe2)(fds, fl);
	point("pipe"); if (nofds(2) || refused("pipe")) return -1;
	Guard g; File *r = mk(PIPE_R), *w = mk(PIPE_W); Pair* p = (Pair*)rt_alloc(sizeof(Pair)); r->obj = w->obj = p; r->other = w; w->other = r; r->rx.cap = options.pipe_cap; r->nonblock = w->nonblock = fl & O_NONBLOCK;
	r->fdflags = w->fdflags = fl & O_CLOEXEC ? FD_CLOEXEC : 0; fds[0] = install(r); fds[1] = install(w); return 0;
}
int pipe(int fds[2]) { if (!ON) return REAL(pipe)(fds); return pipe2(fds, 0); }
int eventfd(unsigned v, int fl) { if (!ON) return REAL(eventfd)(v, fl); point("eventfd"); if (nofds() || refused("eventfd")) return -1; Guard g; File* f = mk(EVENTFD); f->cnt = v; f->sem = fl & EFD_SEMAPHORE; f->nonblock = fl & EFD_NONBLOCK; return install(f); }
int timerfd_create(int c, int fl) { if (!ON) return REAL(timerfd_create)(c, fl); point("timerfd_create"); if (nofds() || refused("timerfd_create")) return -1; Guard g; File* f = mk(TIMERFD); f->nonblock = fl & TFD_NONBLOCK; f->sem = c == CLOCK_REALTIME; return install(f); }
static void tgetval(File* f, itimerspec* o) { if (!o) return; memset(o, 0, sizeof *o); int64_t left = 0; if (f->next >= 0) { left = f->next - now_ns; if (left <= 0 && f->interval > 0) left = f->interval - ((-left) % f->interval); if (left < 0) left = 0; } o->it_value.tv_sec = left / 1000000000; o->it_value.tv_nsec = left % 1000000000; o->it_interval.tv_sec = f->interval / 1000000000; o->it_interval.tv_nsec = f->interval % 1000000000; }
int timerfd_settime(int fd, int fl, const itimerspec* n, itimerspec* o) {
	if (!SIMFD(fd)) return REAL(timerfd_settime)(fd, fl, n, o);
	point("timerfd_settime"); File* f = lookup(fd, "timerfd_settime"); if (!f) return -1; if (f->kind != TIMERFD) { errno = EINVAL; return -1; }
	Guard g; touch_w(f, 112); tgetval(f, o);
	if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec > 999999999 || n->it_value.tv_sec < 0 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
	int64_t v = n->it_value.tv_sec * 1000000000ll + n->it_value.tv_nsec; f->interval = n->it_interval.tv_sec * 1000000000ll + n->it_interval.tv_nsec;
	if (!v) f->next = -1; else if (fl & TFD_TIMER_ABSTIME) { v -= f->sem ? 1700000000ll * 1000000000ll : 1000ll * 1000000000ll; f->next = v < 0 ? 0 : v; } else f->next = now_ns + v;
	f->seq++; return 0;
}
int timerfd_gettime(int fd, itimerspec* o) { if (!SIMFD(fd)) return REAL(timerfd_gettime)(fd, o); point("timerfd_gettime"); File* f = lookup(fd, "timerfd_gettime"); if (!f) return -1; Guard g; touch_r(f); tgetval(f, o); return 0; }
int socket(int d, int t, int p) {
	if (!ON) return REAL(socket)(d, t, p);
	point("socket"); if (nofds() || refused("socket")) return -1;
	if (simk::socket_hook && !is_quiet && (t & 0xf) == SOCK_STREAM && !simk::socket_hook()) { errno = EMFILE; return -1; }
	Guard g; int ty = t & 0xf; if (d != AF_INET) { errno = EAFNOSUPPORT; return -1; }
	File* f = mk(ty == SOCK_DGRAM ? UDP : TCP); f->nonblock = t & SOCK_NONBLOCK; f->fdflags = t & SOCK_CLOEXEC ? FD_CLOEXEC : 0; f->local.sin_family = AF_INET; return install(f);
}
int bind(int fd, const sockaddr* sa, socklen_t) noexcept {
	if (!SIMFD(fd)) return REAL(bind)(fd, sa, sizeof(sockaddr_in));
	point("bind"); File* f = lookup(fd, "bind"); if (!f) return -1;
	Guard g; op(&port_obj, 113); touch_w(f, 114); sockaddr_in a; memcpy(&a, sa, sizeof a);
	if (f->bound || f->st != S_NEW) { errno = EINVAL; return -1; }
	if (!is_local(a)) { errno = EADDRNOTAVAIL; return -1; }
	if (!a.sin_port) a.sin_port = htons(next_port++);
	else for (int i = 0; i < hi; i++) { File* o = fdt[i]; if (!o || o == f || o->kind != f->kind || !o->bound || o->local.sin_port != a.sin_port || (o->kind == TCP && o->st != S_NEW && o->st != S_LISTEN)) continue;
		if (a.sin_addr.s_addr && o->local.sin_addr.s_addr && a.sin_addr.s_addr != o->local.sin_addr.s_addr) continue;
		if (f->reuseport && o->reuseport) continue; if (f->reuseaddr && o->reuseaddr && o->st != S_LISTEN) continue; errno = EADDRINUSE; return ret("bind", fd, -1); }
	f->local = a; f->local.sin_family = AF_INET; f->bound = true; return ret("bind", fd, 0);
}
int listen(int fd, int b) noexcept {
	if (!SIMFD(fd)) return REAL(listen)(fd, b);
	point("listen"); File* f = lookup(fd, "listen"); if (!f) return -1;
	Guard g; op(&port_obj, 113); touch_w(f, 115); if (f->kind != TCP) { errno = EOPNOTSUPP; return -1; }
	if (f->st != S_NEW && f->st != S_LISTEN) { errno = EINVAL; return -1; }
	if (!f->bound) { f->local.sin_port = htons(next_port++); f->bound = true; }
	f->st = S_LISTEN; f->backlog = b; f->seq++; return ret("listen", fd, 0);
}
int connect(int fd, const sockaddr* sa, socklen_t sl) {
	if (!SIMFD(fd)) return REAL(connect)(fd, sa, sl);
	check_range(sa, sizeof(sockaddr_in), false, "connect");
	point("connect"); File* f = lookup(fd, "connect"); if (!f) return -1;
	settle(f);
	sockaddr_in a; memcpy(&a, sa, sizeof a);
	if (f->kind == UDP) { Guard g; f->peer = a; return 0; }
	if (f->cing == 2) { errno = EINVAL; return -1; }
	if (f->st == S_CONN && f->cing) { Guard g; touch_w(f, 116); f->cing = false; return 0; }
	if (f->st == S_CONN || f->st == S_LISTEN) { errno = EISCONN; return -1; } if (f->st == S_CONNECTING) { errno = EALREADY; return -1; }
	if (f->st == S_DEAD && !f->cing) { errno = EISCONN; return -1; }
	if (f->st == S_DEAD) { Guard g; touch_w(f, 116); errno = f->err ? f->err : ECONNABORTED; f->err = 0; f->cing = f->shut_rd = f->shut_wr = f->fin = false; f->st = S_NEW; f->seq++; return -1; }
	Plan pl; if (connect_plan && !is_quiet) pl = connect_plan(a, nconnect); 
	Guard g; op(&port_obj, 113); touch_w(f, 116); if (!is_quiet) nconnect++;
	if (pl.kind == P_SYNC_ERR) { errno = pl.err; return ret("connect", fd, -1); }
	if (!f->bound) { f->local.sin_port = htons(next_port++); f->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK); f->bound = true; } else if (!f->local.sin_addr.s_addr) f->local.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (!a.sin_addr.s_addr) a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	f->peer = a; f->st = S_CONNECTING; f->conn_err = pl.kind == P_ASYNC_ERR ? pl.err : 0;
	if (pl.kind == P_DEFAULT && !is_local(a)) f->conn_err = ETIMEDOUT, f->conn_at = now_ns + 120000000000ll; else f->conn_at = now_ns + pl.delay_us * 1000;
	f->seq++;
	settle(f);
	if (pl.kind == P_IMMEDIATE && f->st == S_CONN) return ret("connect", fd, 0);
	if (f->nonblock) { f->cing = true; errno = EINPROGRESS; return ret("connect", fd, -1); }
	while (f->st == S_CONNECTING) { in_rt--; block("connect", wr_ready, f, -1); in_rt++; settle(f); touch_w(f, 117); }
	if (f->st == S_CONN) return ret("connect", fd, 0);
	errno = f->err; f->err = 0; return ret("connect", fd, -1);
}
int accept4(int fd, sockaddr* sa, socklen_t* sl, int fl) {
	if (!SIMFD(fd)) return REAL(accept4)(fd, sa, sl, fl);
	for (;;) {
		point("accept"); File* f = lookup(fd, "accept"); if (!f) return -1;
		settle_all(); if (f->st == S_LISTEN && f->nq && refused("accept")) return -1;
		int d = 0; if (options.accept_err && f->st == S_LISTEN && f->nq) d = dev(3, "accept: aborted / no descriptors");
		Guard g; touch_w(f, 118);
		if (f->kind != TCP || f->st != S_LISTEN) { errno = EINVAL; return -1; }
		if (d) { errno = d == 1 ? ECONNABORTED : EMFILE; return ret("accept", fd, -1); }
		if (!f->nq) { if (f->nonblock) { errno = EAGAIN; return ret("accept", fd, -1); } in_rt--; block("accept", rd_ready, f, -1); in_rt++; continue; }
		File* s = f->q[0]; memmove(f->q, f->q + 1, sizeof(File*) * --f->nq); f->seq++;
		touch_w(s, 119); s->nonblock = fl & SOCK_NONBLOCK; s->fdflags = fl & SOCK_CLOEXEC ? FD_CLOEXEC : 0;
		if (sa && sl) { socklen_t k = *sl < sizeof(sockaddr_in) ? *sl : sizeof(sockaddr_in); memcpy(sa, &s->peer, k); *sl = sizeof(sockaddr_in); }
		return install(s);
	}
}
int accept(int fd, sockaddr* sa, socklen_t* sl) { if (!SIMFD(fd)) return REAL(accept)(fd, sa, sl); return accept4(fd, sa, sl, 0); }
int shutdown(int fd, int how) noexcept {
	if (!SIMFD(fd)) return REAL(shutdown)(fd, how);
	point("shutdown", is_open(fd) ? obj_of(fdt[fd - FD0]) : nullptr); File* f = lookup(fd, "shutdown"); if (!f) return -1;
	settle(f); Guard g; touch_w(f, 120);
	if (f->kind != TCP) { errno = ENOTSOCK; return -1; }
	if (f->st == S_LISTEN) { tcp_drop(f); f->st = S_NEW; return 0; }
	if (f->cing) f->cing = f->st == S_DEAD ? 2 : 0;
	if (f->st == S_CONNECTING) { f->st = S_NEW; f->cing = false; f->err = ECONNRESET; f->seq++; return 0; }
	if (f->st != S_CONN) { if (how != SHUT_WR) f->shut_rd = true; if (how != SHUT_RD) f->shut_wr = true; f->seq++; errno = ENOTCONN; return ret("shutdown", fd, -1); }
	if (how == SHUT_RD || how == SHUT_RDWR) f->shut_rd = true;
	if ((how == SHUT_WR || how == SHUT_RDWR) && !f->shut_wr) { f->shut_wr = true; if (f->other && !f->other->fin) { f->other->fin = true; f->other->shut_rd = true; f->other->seq++; } File* o = f->other; finish(f); finish(o); }
	f->seq++;
	return ret("shutdown", fd, 0);
}
int setsockopt(int fd, int lv, int nm, const void* v, socklen_t n) noexcept {
	if (!SIMFD(fd)) return REAL(setsockopt)(fd, lv, nm, v, n);
	File* f = lookup(fd, "setsockopt"); if (!f) return -1; if (f->kind != TCP && f->kind != UDP) { errno = ENOTSOCK; return -1; }
	if (n < sizeof(int)) { errno = EINVAL; return -1; }
	if (lv == SOL_SOCKET && nm == SO_REUSEADDR) f->reuseaddr = *(int*)v; if (lv == SOL_SOCKET && nm == SO_REUSEPORT) f->reuseport = *(int*)v;
	if (lv == SOL_SOCKET && nm == SO_LINGER) { if (n < sizeof(struct linger)) { errno = EINVAL; return -1; } f->linger_on = ((struct linger*)v)->l_onoff; f->linger = ((struct linger*)v)->l_linger; }
	return 0;
}
int getsockopt(int fd, int lv, int nm, void* v, socklen_t* n) noexcept {
	if (!SIMFD(fd)) return REAL(getsockopt)(fd, lv, nm, v, n);
	point("getsockopt", is_open(fd) ? obj_of(fdt[fd - FD0]) : nullptr); File* f = lookup(fd, "getsockopt"); if (!f) return -1; if (f->kind != TCP && f->kind != UDP) { errno = ENOTSOCK; return -1; }
	settle(f); Guard g; touch_w(f, 121); int r = 0;
	if (lv == SOL_SOCKET && nm == SO_ERROR) { r = f->err; f->err = 0; } else if (nm == SO_TYPE) r = f->kind == TCP ? SOCK_STREAM : SOCK_DGRAM; else if (lv == SOL_SOCKET && nm == SO_REUSEADDR) r = f->reuseaddr; else if (lv == SOL_SOCKET && nm == SO_REUSEPORT) r = f->reuseport;
	if (*n >= 4) { memcpy(v, &r, 4); *n = 4; } return 0;
}
int getsockname(int fd, sockaddr* a, socklen_t* n) noexcept {
	if (!SIMFD(fd)) return REAL(getsockname)(fd, a, n);
	point("getsockname"); File* f = lookup(fd, "getsockname"); if (!f) return -1; if (f->kind != TCP && f->kind != UDP) { errno = ENOTSOCK; return -1; } Guard g; touch_r(f); memcpy(a, &f->local, *n < sizeof(sockaddr_in) ? *n : sizeof(sockaddr_in)); *n = sizeof(sockaddr_in); return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* n) noexcept {
	if (!SIMFD(fd)) return REAL(getpeername)(fd, a, n);
	point("getpeername"); File* f = lookup(fd, "getpeername"); if (!f) return -1; settle(f); Guard g; touch_r(f); if (f->kind != TCP || f->st != S_CONN) { errno = ENOTCONN; return -1; } memcpy(a, &f->peer, *n < sizeof(sockaddr_in) ? *n : sizeof(sockaddr_in)); *n = sizeof(sockaddr_in); return 0;
}
int fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (!SIMFD(fd)) return REAL(fcntl)(fd, cmd, arg);
	File* f = lookup(fd, "fcntl"); if (!f) return -1;
	switch (cmd) {
	case F_GETFL: return (f->nonblock ? O_NONBLOCK : 0) | (f->kind == PIPE_R ? O_RDONLY : f->kind == PIPE_W ? O_WRONLY : O_RDWR);
	case F_SETFL: if (options.fcntl_err && dev(2, "fcntl fails")) { errno = EINTR; return -1; } f->nonblock = arg & O_NONBLOCK; return 0;
	case F_GETFD: return f->fdflags; case F_SETFD: f->fdflags = arg; return 0;
	}
	errno = EINVAL; return -1;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long rq, ...) noexcept {
	va_list ap; va_start(ap, rq); void* arg = va_arg(ap, void*); va_end(ap);
	if (!SIMFD(fd)) return REAL(ioctl)(fd, rq, arg);
	File* f = lookup(fd, "ioctl"); if (!f) return -1;
	if (rq == FIONBIO) { f->nonblock = *(int*)arg; return 0; } if (rq == FIONREAD) { Guard g; touch_r(f); *(int*)arg = (int)f->rx.len; return 0; }
	errno = ENOTTY; return -1;
}
int epoll_create1(int fl) noexcept { if (!ON) return REAL(epoll_create1)(fl); point("epoll_create"); if (nofds()) return -1; Guard g; return install(mk(EPOLL)); }
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int epfd, int o, int fd, epoll_event* ev) noexcept {
	if (!SIMFD(epfd)) return REAL(epoll_ctl)(epfd, o, fd, ev);
	point("epoll_ctl"); File* e = lookup(epfd, "epoll_ctl"); if (!e) return -1; File* f = lookup(fd, "epoll_ctl"); if (!f) return -1;
	Guard g; op(e, 122); touch_r(f);
	if (e->kind != EPOLL || e == f) { errno = EINVAL; return -1; }
	Item** p = &e->items; while (*p && !((*p)->f == f && (*p)->fd == fd)) p = &(*p)->next;
	if (o == EPOLL_CTL_ADD) { if (*p) { errno = EEXIST; return ret("epoll_ctl", fd, -1); } Item* i = (Item*)rt_alloc(sizeof *i); memset(i, 0, sizeof *i); i->f = f; i->fd = fd; i->ev = ev->events; i->data = ev->data.u64; *p = i; }
	else if (!*p) { errno = ENOENT; return ret("epoll_ctl", fd, -1); }
	else if (o == EPOLL_CTL_MOD) { (*p)->ev = ev->events; (*p)->data = ev->data.u64; (*p)->seen = 0; }
	else if (o == EPOLL_CTL_DEL) *p = (*p)->next; else { errno = EINVAL; return -1; }
	if (tracing()) tracef("  [%d]   epoll_ctl(%s, %d, 0x%x)\n", me->id, o == EPOLL_CTL_ADD ? "add" : o == EPOLL_CTL_MOD ? "mod" : "del", fd, o == EPOLL_CTL_DEL ? 0 : ev->events);
	return 0;
}
int epoll_wait(int epfd, epoll_event* ev, int max, int to) { if (!SIMFD(epfd)) return REAL(epoll_wait)(epfd, ev, max, to); return do_epoll_wait(epfd, ev, max, to < 0 ? -1 : to * 1000000ll); }
int epoll_pwait(int epfd, epoll_event* ev, int max, int to, const sigset_t* s) { if (!SIMFD(epfd)) return REAL(epoll_pwait)(epfd, ev, max, to, s); return do_epoll_wait(epfd, ev, max, to < 0 ? -1 : to * 1000000ll); }
int select(int n, fd_set* r, fd_set* w, fd_set* x, timeval* t) { if (!ON) return REAL(select)(n, r, w, x, t); return do_select(n, r, w, x, t ? t->tv_sec * 1000000000ll + t->tv_usec * 1000 : -1); }
int pselect(int n, fd_set* r, fd_set* w, fd_set* x, const timespec* t, const sigset_t* s) { if (!ON) return REAL(pselect)(n, r, w, x, t, s); return do_select(n, r, w, x, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1); }
int poll(pollfd* p, nfds_t n, int to) { if (!ON) return REAL(poll)(p, n, to); return do_poll(p, n, to < 0 ? -1 : to * 1000000ll); }
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* s) { if (!ON) return REAL(ppoll)(p, n, t, s); return do_poll(p, n, t ? t->tv_sec * 1000000000ll + t->tv_nsec : -1); }
}
