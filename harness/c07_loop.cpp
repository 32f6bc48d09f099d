// C07: the event loop calls exactly the ready, enabled, live handlers.
#include <cy_core.h>
#include <cy_event.h>
#include "mcrt.h"
#include "simk.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <string>
#include <unistd.h>
using namespace cyclone;
typedef Looper::event_id_t eid;
enum { R = Looper::kRead, W = Looper::kWrite, MAXR = 120 };
struct Reg { bool alive, born, touched[2], must[2], may[2], called[2]; eid id; int fd, want, miss[2], calls[2]; };
static Reg reg[MAXR]; static int nreg; static Looper* L; static int budget, menu, running, in_batch, nmust, loop_tid, stopped, growths, many;
struct Fd { int fd, peer, pipe; };      // pipe: 1 read end, 2 write end
static Fd fds[MAXR]; static int nfd, lfd;
static void nonblock(int fd) { fcntl(fd, F_SETFL, O_NONBLOCK); }
static int new_fd(int is_pipe) {
	Fd& f = fds[nfd]; f.pipe = is_pipe;
	if (is_pipe) { int p[2]; if (pipe2(p, O_NONBLOCK)) mc::fail("harness: pipe"); f.fd = p[is_pipe - 1]; f.peer = p[2 - is_pipe]; }
	else { simk::quiet(true); f.peer = simk::peer_connect(7000); f.fd = simk::peer_accept(lfd); nonblock(f.fd); nonblock(f.peer); simk::quiet(false); }
	return nfd++;
}
static int fd_of(int fd) { for (int i = 0; i < nfd; i++) if (fds[i].fd == fd) return i; return -1; }
static void feed(int i) { ssize_t k = write(fds[i].peer, "x", 1); (void)k; }
static bool drain(int fd) { char b[8]; return read(fd, b, sizeof b) != 0; }   // false at end of stream
static void finish_batch() {
	if (!in_batch) return;
	in_batch = 0;
	for (int i = 0; i < nreg; i++) for (int e = 0; e < 2; e++) {
		Reg& r = reg[i];
		if (r.must[e] && !r.touched[e] && !r.called[e] && !stopped) {
			r.miss[e]++;
			MC_CHECK(r.miss[e] <= (nmust > 14 ? 2 * (nmust / 16 + 1) : 0), "%s handler of event %u is not called although its descriptor is ready and it is enabled (%d events ready)", e ? "the write" : "the read", r.id, nmust);
		} else r.miss[e] = 0;
	}
}
static void on_poll() {
	if (many == 3) return;
	finish_batch(); in_batch = 1; nmust = 0;
	for (int i = 0; i < nreg; i++) { Reg& r = reg[i]; uint32_t m = r.alive ? simk::ready(r.fd) : 0; r.born = false;
		for (int e = 0; e < 2; e++) { bool on = r.alive && (r.want & (e ? W : R)); bool hup = m & (EPOLLHUP | EPOLLERR);
			r.touched[e] = r.called[e] = false; r.may[e] = on && ((m & (e ? EPOLLOUT : EPOLLIN)) || hup); r.must[e] = on && ((m & (e ? EPOLLOUT : EPOLLIN)) || (hup && !(m & ((r.want & R ? EPOLLIN : 0) | (r.want & W ? EPOLLOUT : 0))))); nmust += r.must[e]; } }
}
static void check_flags() { for (int i = 0; i < nreg; i++) if (reg[i].alive) MC_CHECK(L->is_read(reg[i].id) == !!(reg[i].want & R) && L->is_write(reg[i].id) == !!(reg[i].want & W), "event %u: is_read %d is_write %d, expected mask %d", reg[i].id, L->is_read(reg[i].id), L->is_write(reg[i].id), reg[i].want); }
static void action(int self);
static void on_event(int i, eid id, socket_t fd, Looper::event_t ev, void* param, const std::string& payload) {
	Reg& r = reg[i]; int e = ev == W;
	MC_CHECK(mc::self() == loop_tid, "a handler runs on another thread");
	MC_CHECK(ev == R || ev == W, "a handler is called with event %u", ev);
	MC_CHECK(param == (void*)&reg[i], "the handler of event %u gets another event's argument", r.id);
	MC_CHECK(r.alive, "the %s handler of event %u runs after the event was deleted", e ? "write" : "read", r.id);
	MC_CHECK(id == r.id, "the handler of event %u is told it is event %u", r.id, id);
	MC_CHECK(fd == r.fd, "the handler of event %u is given descriptor %d instead of %d", r.id, fd, r.fd);
	MC_CHECK(r.want & ev, "the %s handler of event %u runs although it is disabled", e ? "write" : "read", r.id);
	MC_CHECK(!r.born, "the %s handler of event %u, registered since, runs for somebody else's readiness", e ? "write" : "read", r.id);
	MC_CHECK(r.may[e], "the %s handler of event %u runs although its descriptor was not ready", e ? "write" : "read", r.id);
	MC_CHECK(!r.called[e], "the %s handler of event %u runs twice for one readiness", e ? "write" : "read", r.id);
	r.called[e] = true; r.calls[e]++;
	MC_CHECK(!running++, "a handler runs inside another");
	mc::note("%s(%u) ", e ? "write" : "read", r.id);
	int before = budget; action(i);
	if (r.alive && before == budget) { if (e) { L->disable_write(r.id); r.want &= ~W; r.touched[1] = true; } else if (!drain(r.fd)) { L->disable_read(r.id); r.want &= ~R; r.touched[0] = true; } }
	MC_CHECK(payload == "a payload long enough for the heap", "the handler's own captures were destroyed while it ran");
	running--;
}
static int add(int f, int mask) {
	int i = nreg++; Reg& r = reg[i]; if (i >= MAXR) mc::fail("harness: too many registrations");
	std::string s("a payload long enough for the heap");
	auto h = [i, s](eid id, socket_t fd, Looper::event_t ev, void* param) { on_event(i, id, fd, ev, param, s); };
	r.fd = fds[f].fd; r.want = mask; r.born = true; r.alive = false;
	eid id = L->register_event(r.fd, mask, &r, h, h);
	MC_CHECK(id != Looper::INVALID_EVENT_ID, "register_event fails");
	for (int k = 0; k < i; k++) if (reg[k].alive) MC_CHECK(reg[k].id != id, "event id %u is given twice", id);
	r.id = id; r.alive = true;
	return i;
}
static void del(int i) { Reg& r = reg[i]; r.alive = false; r.touched[0] = r.touched[1] = true; L->delete_event(r.id); }
static bool in_use(int fd) { for (int i = 0; i < nreg; i++) if (reg[i].alive && reg[i].fd == fd) return true; return false; }
enum { PER = 9, GLOBAL = 5 };
static void action(int self) {
	if (!budget) return;
	int live[MAXR], n = 0;
	if (self >= 0) live[n++] = self;                        // "myself" first, so that handlers have the same menu
	for (int i = 0; i < nreg && n < menu; i++) if (reg[i].alive && i != self) live[n++] = i;
	int c = mc::choose(1 + PER * n + GLOBAL);
	if (!c) return;
	c--; budget--;
	if (c < PER * n) {
		int i = live[c / PER]; Reg& r = reg[i]; int f = fd_of(r.fd), p = fds[f].pipe;
		static const char* nm[] = {"delete", "disable_read", "enable_read", "disable_write", "enable_write", "disable_all", "replace (same descriptor)", "replace (new descriptor)", "drain"};
		mc::note("[%s %u] ", nm[c % PER], r.id);
		switch (c % PER) {
		case 0: del(i); break;
		case 1: L->disable_read(r.id); r.want &= ~R; r.touched[0] = true; break;
		case 2: if (p == 2) mc::discard_path(); L->enable_read(r.id); r.want |= R; break;
		case 3: L->disable_write(r.id); r.want &= ~W; r.touched[1] = true; break;
		case 4: if (p == 1) mc::discard_path(); L->enable_write(r.id); r.want |= W; break;
		case 5: L->disable_all(r.id); r.want = 0; r.touched[0] = r.touched[1] = true; break;
		case 6: del(i); add(f, p ? p : R | W); break;
		case 7: { del(i); int k = new_fd(p); add(k, p ? p : R | W); break; }
		case 8: if (p == 2) mc::discard_path(); drain(r.fd); break;
		}
	} else switch (c - PER * n) {
	case 0: { int k = new_fd(false); feed(k); mc::note("[register one] "); add(k, R | W); break; }
	case 1: if (growths++) mc::discard_path(); mc::note("[register 20] "); for (int k = 0; k < 20; k++) { int j = new_fd(true); add(j, R); } break;
	case 2: mc::note("[feed all] "); for (int i = 0; i < nreg && i < 4; i++) if (reg[i].alive && fds[fd_of(reg[i].fd)].pipe != 2) feed(fd_of(reg[i].fd)); break;
	case 3: mc::note("[stop] "); stopped = 1; L->push_stop_request(); break;
	case 4: { mc::note("[delete all] "); for (int i = 0; i < nreg; i++) if (reg[i].alive) del(i); break; }
	}
	check_flags();
}
static void stopper(void*) { mc::idle(); stopped = 1; L->push_stop_request(); }
// events changed by another thread while the loop waits or dispatches
static atomic_int32_t ready_flag, hits[2];
static void loop_thread(void*) {
	L = Looper::create_looper(); loop_tid = mc::self();
	int mask = mc::choose(4);
	auto h = [](eid id, socket_t fd, Looper::event_t ev, void*) {
		MC_CHECK(mc::self() == loop_tid, "a handler runs on another thread");
		hits[ev == W]++; if (ev == R) drain(fd); else L->disable_write(id); };
	reg[0].id = L->register_event(fds[0].fd, mask, nullptr, h, h); reg[0].want = mask;
	if (mc::choose(2)) { auto q = [](eid, socket_t fd, Looper::event_t, void*) { drain(fd); }; reg[1].id = L->register_event(fds[1].fd, R, nullptr, q, q); }
	ready_flag = 1; L->loop();
	L->delete_event(reg[0].id); if (reg[1].id) L->delete_event(reg[1].id);
}
static void run_threads() {
	lfd = simk::peer_listen(7000); new_fd(false); new_fd(true); if (mc::choose(2)) feed(0); if (mc::choose(2)) feed(1);
	mc::spawn(loop_thread, nullptr);
	while (!ready_flag) mc::yield();
	int want = reg[0].want;
	for (int k = 0; k < mc::param("ops", 2); k++) {
		static const char* nm[] = {"enable_read", "enable_write", "disable_read", "disable_write", "disable_all", "feed"};
		int c = mc::choose(6); mc::note("[%s] ", nm[c]);
		if (c >= 2 && c <= 4) { }
		switch (c) { case 0: L->enable_read(reg[0].id); want |= R; break; case 1: L->enable_write(reg[0].id); want |= W; break; case 2: L->disable_read(reg[0].id); want &= ~R; break;
			case 3: L->disable_write(reg[0].id); want &= ~W; break; case 4: L->disable_all(reg[0].id); want = 0; break; case 5: feed(0); break; }
	}
	mc::idle();
	MC_CHECK(!(want & R) || !(simk::ready(fds[0].fd) & EPOLLIN), "the descriptor is readable, its event enabled, and the loop sleeps");
	MC_CHECK(!L->is_write(reg[0].id) || !(simk::ready(fds[0].fd) & EPOLLOUT), "the descriptor is writable, its event enabled, and the loop sleeps");
	MC_CHECK(L->is_read(reg[0].id) == !!(want & R), "is_read answers %d", L->is_read(reg[0].id));
	int h0 = hits[0], h1 = hits[1];
	if (want & R) { feed(0); mc::idle(); MC_CHECK(hits[0] == h0 + 1, "read handler called %d times for one byte", hits[0].load() - h0); }
	else { feed(0); mc::idle(); MC_CHECK(hits[0] == h0 && hits[1] == h1, "a disabled handler runs"); L->enable_read(reg[0].id); mc::idle(); MC_CHECK(hits[0] > h0, "the loop sleeps although the descriptor is readable and its event was enabled"); }
	h1 = hits[1]; L->enable_write(reg[0].id); mc::idle(); MC_CHECK(hits[1] == h1 + 1, "write handler called %d times after enable_write", hits[1].load() - h1);
	L->push_stop_request(); mc::join_all();
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 0); c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.horizon = 20000; simk::opt().order = true; simk::opt().eintr = mc::param("eintr", 0); simk::poll_hook = on_poll; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	uint64_t mark = mc::heap_mark(); int open0 = simk::open_count();
	many = mc::param("many", 0);
	if (many == 3) run_threads();
	else {
		L = Looper::create_looper(); loop_tid = mc::self();
		lfd = simk::peer_listen(7000); menu = mc::param("menu", 4);
		int mode = mc::param("loop", -1); if (mode < 0) mode = mc::choose(2);
		if (many) {
			static const int sizes[] = {15, 16, 17, 33, 40}; int n = sizes[mc::choose(5)];
			for (int i = 0; i < n; i++) { int f = new_fd(true); feed(f); add(f, R); }
			budget = mc::param("acts", 1);
		} else {
			int m0 = mc::choose(3), m1 = mc::choose(2), p = mc::choose(m0 == 2 ? 3 : 2);
			budget = mc::param("acts", 2);
			int a = new_fd(false), b = new_fd(false), c = new_fd(p == 2 && m1 ? 2 : 1);
			if (p == 2) {   // end of file on a pipe, which epoll reports as a hang-up only; a full pipe nobody reads, which it reports as an error only
				simk::quiet(true); if (m1) { char z[4096] = {}; while (write(fds[c].fd, z, sizeof z) > 0) {} } close(fds[c].peer); fds[c].peer = -1; simk::quiet(false);
			}
			feed(a); if (p == 1) { feed(b); feed(c); } else if (m1) { simk::quiet(true); close(fds[b].peer); fds[b].peer = -1; simk::quiet(false); }
			add(a, m0 == 0 ? R : m0 == 1 ? W : R | W); add(b, m1 ? R | W : R); add(c, fds[c].pipe);
		}
		check_flags();
		if (mode) { action(-1); mc::spawn(stopper, nullptr); L->loop(); finish_batch(); mc::join_all(); }
		else for (int k = 0; k < mc::param("rounds", 3) + (many ? 5 : 0); k++) { if (!many) action(-1); L->step(); finish_batch(); if (stopped) break; }
		check_flags();
		if (many && !stopped) for (int i = 0; i < nreg; i++) if (reg[i].alive && (reg[i].want & R)) MC_CHECK(!(simk::ready(reg[i].fd) & EPOLLIN), "event %u never had its turn", reg[i].id);
		for (int i = 0; i < nreg; i++) if (reg[i].alive) { int fd = reg[i].fd; del(i); MC_CHECK(simk::is_open(fd), "delete_event closes the user's descriptor"); }
		uint64_t h = 1; for (int i = 0; i < nreg; i++) h = mc::mix(h, reg[i].calls[0] * 16 + reg[i].calls[1]); mc::outcome(h);
	}
	Looper::destroy_looper(L); simk::poll_hook = nullptr;
	simk::quiet(true); for (int i = 0; i < nfd; i++) { close(fds[i].fd); if (fds[i].peer >= 0) close(fds[i].peer); } close(lfd);
	MC_CHECK(simk::open_count() == open0, "%d descriptors left open", simk::open_count() - open0);
	int n = mc::heap_live_since(mark); if (n) { mc::heap_dump(mark); mc::fail("%d heap blocks leaked", n); }
}
