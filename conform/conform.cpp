// The same scripted system calls on the simulated kernel (mcrt + simk, -DSIM) and on the real one.
// SIM: every script up to the depth is one execution; the calls' answers are appended to $CONFORM_OUT.
// Real: reads the scripts from $CONFORM_IN, performs them and writes the answers in the same form.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <unistd.h>
#ifdef SIM
#include "mcrt.h"
#include "simk.h"
static void settle() {}
#else
static void settle() { usleep(400); }
#endif
static std::string L; static int fd_[4]; static int ep; static const char* nm[4] = { "a", "b", "c", "d" };
static void out(const char* f, long r) { char t[64]; snprintf(t, sizeof t, "%s=%ld", f, r < 0 ? -(long)errno : r); L += t; L += ' '; }
static void look() {
	settle(); epoll_event ev[8]; int n = epoll_wait(ep, ev, 8, 0); unsigned m[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < n; i++) m[ev[i].data.u32] = ev[i].events;
	char t[160];
	for (int i = 0; i < 4; i++) if (fd_[i] >= 0) {
		pollfd p = { fd_[i], POLLIN | POLLOUT, 0 }; int pr = poll(&p, 1, 0);
		fd_set r, w; FD_ZERO(&r); FD_ZERO(&w); FD_SET(fd_[i], &r); FD_SET(fd_[i], &w); timeval tv = { 0, 0 };
		int sr = select(fd_[i] + 1, &r, &w, 0, &tv);
		snprintf(t, sizeof t, "{%s ep%x po%d/%x se%d%s%s} ", nm[i], m[i], pr, (unsigned)p.revents, sr, sr > 0 && FD_ISSET(fd_[i], &r) ? "r" : "", sr > 0 && FD_ISSET(fd_[i], &w) ? "w" : ""); L += t;
	}
}
static void add(int i, unsigned mask) { epoll_event e; memset(&e, 0, sizeof e); e.events = mask; e.data.u32 = i; out("add", epoll_ctl(ep, EPOLL_CTL_ADD, fd_[i], &e)); }
static void nonblock(int s) { fcntl(s, F_SETFL, fcntl(s, F_GETFL, 0) | O_NONBLOCK); }
static sockaddr_in addr(int port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
static int lport(int s) { sockaddr_in a; socklen_t n = sizeof a; getsockname(s, (sockaddr*)&a, &n); return ntohs(a.sin_port); }
static void rd(int i) { char b[8]; memset(b, 0, sizeof b); errno = 0; long r = read(fd_[i], b, 5); out("read", r); if (r > 0) { L += "'"; L += std::string(b, r); L += "' "; } }
static void rdv(int i) { char b[4], c[4]; memset(b, 0, 4); memset(c, 0, 4); iovec v[2] = { { b, 2 }, { c, 3 } }; long r = readv(fd_[i], v, 2); out("readv", r); }
static void serr(int i) { int e = 0; socklen_t n = sizeof e; long r = getsockopt(fd_[i], SOL_SOCKET, SO_ERROR, &e, &n); out("getsockopt", r); out("SO_ERROR", e); }
static void cl(int i) { out("close", close(fd_[i])); fd_[i] = -1; }
static void rst(int i) { linger l = { 1, 0 }; setsockopt(fd_[i], SOL_SOCKET, SO_LINGER, &l, sizeof l); cl(i); }
static void mod(int i, unsigned m) { epoll_event e; memset(&e, 0, sizeof e); e.events = m; e.data.u32 = i; out("mod", epoll_ctl(ep, EPOLL_CTL_MOD, fd_[i], &e)); }
static void del(int i) { epoll_event e; memset(&e, 0, sizeof e); out("del", epoll_ctl(ep, EPOLL_CTL_DEL, fd_[i], &e)); }
static const unsigned ALL = EPOLLIN | EPOLLOUT | EPOLLRDHUP;
static int lst;
static const int NOP[] = { 18, 11, 12, 10 };
static void setup(int kind) {
	fd_[0] = fd_[1] = fd_[2] = fd_[3] = lst = -1; ep = epoll_create1(0);
	if (kind == 0) {          // a connected pair
		lst = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = addr(0); out("bind", bind(lst, (sockaddr*)&a, sizeof a)); out("listen", listen(lst, 5));
		a = addr(lport(lst)); fd_[0] = socket(AF_INET, SOCK_STREAM, 0); out("connect", connect(fd_[0], (sockaddr*)&a, sizeof a));
		fd_[1] = accept(lst, 0, 0); nonblock(fd_[0]); nonblock(fd_[1]); add(0, ALL); add(1, ALL);
	}
	if (kind == 1) {          // a pipe
		int p[2]; out("pipe2", pipe2(p, O_NONBLOCK | O_CLOEXEC)); fd_[0] = p[0]; fd_[1] = p[1]; add(0, EPOLLIN | EPOLLRDHUP); add(1, EPOLLOUT);
	}
	if (kind == 2) {          // listening socket, clients
		lst = socket(AF_INET, SOCK_STREAM, 0); nonblock(lst); sockaddr_in a = addr(0); out("bind", bind(lst, (sockaddr*)&a, sizeof a)); out("listen", listen(lst, 5)); fd_[2] = lst; add(2, EPOLLIN);
		fd_[0] = socket(AF_INET, SOCK_STREAM, 0); nonblock(fd_[0]); add(0, ALL);
	}
	if (kind == 3) {          // timer and event counter
		fd_[0] = timerfd_create(CLOCK_MONOTONIC, TFD_NONBLOCK); fd_[1] = eventfd(0, EFD_NONBLOCK); add(0, EPOLLIN); add(1, EPOLLIN | EPOLLOUT);
	}
	L += "| "; look();
}
static bool op(int kind, int o) {
	auto need = [](int i) { return fd_[i] >= 0; };
	if (kind == 0) {
		int i = o & 1, w = o >> 1; if (!need(i)) return false;
		switch (w) {
		case 0: out("write", write(fd_[i], i ? "xyz" : "abc", 3)); break;
		case 1: rd(i); break;
		case 2: out("shutWR", shutdown(fd_[i], SHUT_WR)); break;
		case 3: out("shutRDWR", shutdown(fd_[i], SHUT_RDWR)); break;
		case 4: cl(i); break;
		case 5: rst(i); break;
		case 6: serr(i); break;
		case 7: rdv(i); break;
		case 8: del(i); mod(i, EPOLLIN); add(i, EPOLLIN); break;
		}
	}
	if (kind == 1) {
		switch (o) {
		case 0: if (!need(1)) return false; out("write", write(fd_[1], "abc", 3)); break;
		case 1: if (!need(0)) return false; rd(0); break;
		case 2: if (!need(0)) return false; cl(0); break;
		case 3: if (!need(1)) return false; cl(1); break;
		case 4: if (!need(0)) return false; out("wrongway", write(fd_[0], "q", 1)); break;
		case 5: if (!need(1)) return false; rd(1); break;
		case 6: if (!need(0)) return false; mod(0, EPOLLOUT); break;
		case 7: if (!need(0)) return false; del(0); break;
		case 8: if (!need(1)) return false; { char big[100]; memset(big, 'z', 100); long r = 0, t = 0; while ((r = write(fd_[1], big, 100)) > 0) t += r; out("fill", r); } break;
		case 9: if (!need(0)) return false; { char big[1000]; long r = 0; while ((r = read(fd_[0], big, 1000)) > 0) ; out("drain", r); } break;
		case 10: if (!need(1)) return false; add(1, EPOLLOUT); mod(1, 0); break;
		}
	}
	if (kind == 2) {
		sockaddr_in a; socklen_t n;
		switch (o) {
		case 0: if (!need(0)) return false; a = addr(need(2) ? lport(fd_[2]) : 1); out("connect", connect(fd_[0], (sockaddr*)&a, sizeof a)); break;
		case 1: if (!need(0)) return false; a = addr(1); out("connect_refused", connect(fd_[0], (sockaddr*)&a, sizeof a)); break;
		case 2: if (!need(2) || need(1)) return false; { int r = accept(fd_[2], 0, 0); if (r >= 0) { fd_[1] = r; nonblock(r); L += "accepted "; add(1, ALL); } else out("accept", r); } break;
		case 3: if (!need(0)) return false; serr(0); break;
		case 4: if (!need(0)) return false; out("write", write(fd_[0], "abc", 3)); break;
		case 5: if (!need(0)) return false; rd(0); break;
		case 6: if (!need(0)) return false; cl(0); break;
		case 7: if (!need(2)) return false; cl(2); lst = -1; break;
		case 8: if (!need(0)) return false; rst(0); break;
		case 9: if (!need(1)) return false; rd(1); break;
		case 10: if (!need(0)) return false; n = sizeof a; { long r = getpeername(fd_[0], (sockaddr*)&a, &n); out("getpeername", r); } break;
		case 11: if (!need(0)) return false; out("shutRDWR", shutdown(fd_[0], SHUT_RDWR)); break;
		}
	}
	if (kind == 3) {
		itimerspec t; memset(&t, 0, sizeof t); uint64_t v = 0;
		switch (o) {
		case 0: if (!need(0)) return false; t.it_value.tv_nsec = 30000000; t.it_interval = t.it_value; out("every30", timerfd_settime(fd_[0], 0, &t, 0)); break;
		case 1: if (!need(0)) return false; t.it_value.tv_nsec = 30000000; out("once30", timerfd_settime(fd_[0], 0, &t, 0)); break;
		case 2: if (!need(0)) return false; out("disarm", timerfd_settime(fd_[0], 0, &t, 0)); break;
		case 3: { timespec d = { 0, 50000000 }; out("sleep50", nanosleep(&d, 0)); } break;
		case 4: if (!need(0)) return false; { long r = read(fd_[0], &v, 8); out("readt", r); out("n", (long)(v % 100000)); } break;
		case 5: if (!need(1)) return false; { long r = read(fd_[1], &v, 8); out("reade", r); out("n", (long)(v % 100000)); } break;
		case 6: if (!need(1)) return false; v = 3; out("writee", write(fd_[1], &v, 8)); break;
		case 7: if (!need(0)) return false; cl(0); break;
		case 8: if (!need(0)) return false; { char c; out("short", read(fd_[0], &c, 1)); } break;
		case 9: if (!need(1)) return false; v = ~0ull - 1; out("full", write(fd_[1], &v, 8)); break;
		}
	}
	look(); return true;
}
static void tear() { for (int i = 0; i < 4; i++) if (fd_[i] >= 0) { if (fd_[i] == lst) lst = -1; close(fd_[i]); } if (lst >= 0 && fd_[2] != lst) close(lst); close(ep); }
#ifdef SIM
void mc_setup() { auto& c = mc::config(); c.preemptions = c.env = c.total = c.early_time = 0; }
void mc_body() {
	signal(SIGPIPE, SIG_IGN); simk::opt().sock_cap = 65536; simk::opt().pipe_cap = 65536;
	int kind = mc::param("kind", 0), depth = mc::param("depth", 3); std::string s; char t[16];
	setup(kind);
	for (int i = 0; i < depth; i++) { int o = mc::choose(NOP[kind]); snprintf(t, sizeof t, "%d ", o); s += t; L += "| "; if (!op(kind, o)) mc::discard_path(); }
	FILE* f = fopen(getenv("CONFORM_OUT"), "a"); fprintf(f, "%d %s: %s\n", kind, s.c_str(), L.c_str()); fclose(f); tear();
}
#else
int main() {
	signal(SIGPIPE, SIG_IGN); FILE* f = fopen(getenv("CONFORM_IN"), "r"); FILE* g = fopen(getenv("CONFORM_OUT"), "w"); static char b[1 << 16];
	while (fgets(b, sizeof b, f)) {
		char* c = strchr(b, ':'); *c = 0; char* p = b; int kind = strtol(p, &p, 10); L.clear(); setup(kind); std::string s;
		for (;;) { char* e; long o = strtol(p, &e, 10); if (e == p) break; p = e; char t[16]; snprintf(t, sizeof t, "%ld ", o); s += t; L += "| "; if (!op(kind, o)) { L += "impossible"; break; } }
		fprintf(g, "%d %s: %s\n", kind, s.c_str(), L.c_str()); tear();
	}
	fclose(g); return 0;
}
#endif
