// C25: connection probe, pipes, and descriptors that run out.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <fcntl.h>
#include <new>
#include <string>
#include <unistd.h>
#include <sys/socket.h>
using namespace cyclone;
static int part, faults; static simk::Plan the_plan;
void mc_setup() {
	auto& c = mc::config(); part = mc::param("part", 0); faults = mc::param("faults", 0);
	c.preemptions = mc::param("P", 0); c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.early_time = 0;
	if (faults) { simk::opt().nofile = simk::opt().fcntl_err = true; } else simk::opt().eintr = true;
}
static simk::Plan plan(const sockaddr_in& to, int) { MC_CHECK(ntohs(to.sin_port) == 7000 && ntohl(to.sin_addr.s_addr) == 0x7f000001, "the probe connects to %08x:%u", ntohl(to.sin_addr.s_addr), ntohs(to.sin_port)); return the_plan; }
static void probe() {
	static const int64_t delays[] = { 0, 400, 5000, 9600, 10400, 1020000, 3000000 }; static const int touts[] = { -1, 0, 1, 10, 1010, 2500 };
	static const int errs[] = { ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ECONNRESET };
	int kind = mc::choose(5), timeout = touts[mc::choose(6)]; int64_t delay = 0; int err = 0; bool high = !faults && mc::choose(2);
	simk::quiet(true); int lfd = simk::peer_listen(7000); int fill[1000], nf = 0; if (high) while (nf < 960) { if (pipe(fill + nf)) mc::fail("harness: pipe"); nf += 2; } simk::quiet(false);
	if (kind == 0) the_plan.kind = simk::P_IMMEDIATE;
	if (kind == 1) the_plan.kind = simk::P_SYNC_ERR, the_plan.err = err = mc::choose(2) ? ENETUNREACH : EADDRNOTAVAIL;
	if (kind == 2) the_plan.kind = simk::P_ASYNC_OK, the_plan.delay_us = delay = delays[mc::choose(7)];
	if (kind == 3) the_plan.kind = simk::P_ASYNC_ERR, the_plan.delay_us = delay = delays[mc::choose(7)], the_plan.err = err = errs[mc::choose(4)];
	if (kind == 4) { if (timeout < 0) mc::discard_path(); the_plan.kind = simk::P_ASYNC_OK, the_plan.delay_us = delay = 60000000; }
	mc::note("[%s after %d us, error %d; timeout %d ms%s] ", kind == 0 ? "connected at once" : kind == 1 ? "refused at once" : kind == 4 ? "no answer" : err ? "fails" : "connected", (int)delay, err, timeout, high ? "; many descriptors open" : "");
	simk::connect_plan = plan; int before = simk::open_count(); uint64_t mark = mc::heap_mark();
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7000); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	int64_t t0 = mc::now_us();
	bool r = socket_api::check_connect(a, timeout);
	int64_t dt = mc::now_us() - t0, lim = timeout < 0 ? 1ll << 50 : timeout * 1000ll;
	mc::note("-> %d after %d us ", r, (int)dt); mc::outcome(r);
	bool in_time = delay < lim, late = delay > lim + 1000;
	if (err || late) MC_CHECK(!r, "answers that the server can be reached although %s", err ? "the attempt failed" : "nothing answered in time");
	if (!err && in_time && !faults) MC_CHECK(r, "answers that the server can't be reached although the connection was established in time");
	MC_CHECK(dt <= lim + 1000, "the probe takes %d us with a timeout of %d ms", (int)dt, timeout);
	if (!faults) MC_CHECK(dt >= std::min(delay, lim) || kind == 1, "the probe gives up after %d us", (int)dt);
	MC_CHECK(simk::open_count() == before, "the probe leaves %d descriptors open", simk::open_count() - before);
	MC_CHECK(!mc::heap_live_since(mark), "the probe leaves memory behind");
	close(lfd); for (int i = 0; i < nf; i++) close(fill[i]);
}
// ---- pipes
static char in_[256], out_[256]; static int nin, nout; static long (*wr)(const char*, size_t); static long (*rd)(char*, size_t);
static Pipe* pp; static pipe_port_t ends[2];
static int wsz[4], rsz[4], nw, nr;
static void writer(void*) {
	for (int i = 0; i < nw; i++) {
		char b[16]; for (int k = 0; k < wsz[i]; k++) b[k] = (char)(nin + k + 1);
		long r = wr(b, wsz[i]); MC_CHECK(r <= wsz[i], "write of %d bytes answers %ld", wsz[i], r);
		if (r < 0) MC_CHECK(socket_api::is_lasterror_WOULDBLOCK(), "write fails with error %d", socket_api::get_lasterror());
		for (int k = 0; k < r; k++) in_[nin++] = b[k];
	}
}
static bool rd_one(int n) {
	char b[32]; memset(b, 0x7e, sizeof b); long r = rd(b, n); MC_CHECK(r <= n && r != 0, "read of %d bytes answers %ld", n, r);
	if (r < 0) { MC_CHECK(socket_api::is_lasterror_WOULDBLOCK(), "read fails with error %d", socket_api::get_lasterror()); return false; }
	for (int k = 0; k < r; k++) out_[nout++] = b[k];
	MC_CHECK(b[r] == 0x7e, "read stores more than it reports"); return true;
}
static void pipes() {
	int how = mc::choose(2);   // the class, or the pair of sockets it can also be made of
	simk::quiet(true); int canary[2]; if (pipe(canary)) mc::fail("harness: pipe"); simk::quiet(false);
	simk::opt().pipe_cap = 4; simk::opt().sock_cap = 4;
	uint64_t mark = mc::heap_mark(); int before = simk::open_count();
	alignas(Pipe) static char room[sizeof(Pipe)]; for (size_t i = 0; i + 4 <= sizeof room; i += 4) memcpy(room + i, &canary[0], 4);
	bool ok;
	if (how == 0) {
		pp = new (room) Pipe(); ok = simk::open_count() == before + 2;
		MC_CHECK(ok || simk::open_count() == before, "a pipe that could not be made leaves %d descriptors", simk::open_count() - before);
		wr = [](const char* b, size_t n) { return (long)pp->write(b, n); }; rd = [](char* b, size_t n) { return (long)pp->read(b, n); };
		if (ok) { ends[0] = pp->get_read_port(); ends[1] = pp->get_write_port(); MC_CHECK(simk::is_open(ends[0]) && simk::is_open(ends[1]) && ends[0] != ends[1], "the ports %d and %d are not the pipe's", ends[0], ends[1]); }
	} else {
		ends[0] = ends[1] = canary[0]; ok = Pipe::construct_socket_pipe(ends);
		MC_CHECK(simk::open_count() == before + (ok ? 2 : 0), "%d descriptors open after construct_socket_pipe answered %d", simk::open_count() - before, ok);
		if (!ok) MC_CHECK(ends[0] == INVALID_SOCKET && ends[1] == INVALID_SOCKET, "construct_socket_pipe fails and leaves descriptor numbers behind");
		wr = [](const char* b, size_t n) { return (long)socket_api::write(ends[1], b, n); }; rd = [](char* b, size_t n) { return (long)socket_api::read(ends[0], b, n); };
	}
	if (!faults) MC_CHECK(ok, "the pipe can't be made");
	mc::note("[%s%s] ", how ? "pair of sockets" : "pipe", ok ? "" : ", not made");
	if (ok) {
		for (int i = 0; i < 2; i++) { MC_CHECK(fcntl(ends[i], F_GETFL) & O_NONBLOCK, "end %d of the pipe can block", i); MC_CHECK(fcntl(ends[i], F_GETFD) & FD_CLOEXEC, "end %d of the pipe is inherited by other programs", i); }
		nw = mc::choose(mc::param("ops", 3) + 1); nr = mc::choose(mc::param("ops", 3) + 1); static const int z[] = { 1, 3, 6 };
		for (int i = 0; i < nw; i++) wsz[i] = z[mc::choose(3)]; for (int i = 0; i < nr; i++) rsz[i] = z[mc::choose(3)];
		mc::spawn(writer, nullptr); for (int i = 0; i < nr; i++) { rd_one(rsz[i]); } mc::join_all();
		while (rd_one(16)) {}
		MC_CHECK(nout == nin && !memcmp(in_, out_, nin), "%d bytes were accepted, %d other ones come out", nin, nout);
		mc::outcome(nin * 100 + nout);
	} else if (how == 0) {
		char b[2] = {}; MC_CHECK(pp->write(b, 1) < 0, "writing to a pipe that could not be made succeeds"); MC_CHECK(pp->read(b, 1) < 0, "reading from a pipe that could not be made succeeds");
	}
	if (how == 0) pp->~Pipe(); else { Pipe::destroy_socket_pipe(ends); Pipe::destroy_socket_pipe(ends); }
	MC_CHECK(simk::is_open(canary[0]) && simk::is_open(canary[1]), "somebody else's descriptor was closed");
	MC_CHECK(simk::open_count() == before, "%d descriptors left open", simk::open_count() - before); MC_CHECK(!mc::heap_live_since(mark), "memory left behind");
	close(canary[0]); close(canary[1]);
}
// ---- servers' listening sockets, timers of a loop
static void servers() {
	simk::quiet(true); int busy = simk::peer_listen(7100); simk::quiet(false);
	int all = simk::open_count(); uint64_t mark = mc::heap_mark();
	{
		TcpServer sv; int before = simk::open_count(); int n = 1 + mc::choose(mc::param("ops", 2)), good = 0; uint16_t ports[3] = { 0, 7001, 7100 }; bool have = false, shared = true;
		for (int i = 0; i < n; i++) {
			int k = mc::choose(4); bool reuse = mc::choose(2); bool taken = k == 2 || k == 3; if (k == 1) { taken = have && !(reuse && shared); have = true; shared &= reuse; }
			Address a = k == 3 ? Address("9.9.9.9", (uint16_t)7001) : Address(ports[k], (bool)mc::choose(2));
			bool r = sv.bind(a, reuse); mc::note("bind %s:%d%s = %d; ", a.get_ip(), a.get_port(), reuse ? " (shared)" : "", r);
			good += r;
			if (taken) MC_CHECK(!r || faults, "an address that can't be had was bound");
			if (!faults && !taken) MC_CHECK(r, "a free address can't be bound");
			MC_CHECK(simk::open_count() == before + good, "%d addresses are bound and %d descriptors open", good, simk::open_count() - before);
			if (r) { Address b = sv.get_bind_address(good - 1); MC_CHECK(b.get_port() && (k == 0 || b.get_port() == ports[k]), "bound to port %d instead of %d", b.get_port(), ports[k]); }
		}
		MC_CHECK(sv.get_bind_address(good).get_port() == 0, "there is an address that was never bound");
		mc::outcome(good);
	}
	MC_CHECK(simk::open_count() == all, "%d descriptors left open by a server that never started", simk::open_count() - all); MC_CHECK(!mc::heap_live_since(mark), "memory left behind");
	close(busy);
}
static void on_timer(Looper::event_id_t, void* p) { (*(int*)p)++; }
static void timers() {
	static int fired[5]; int n = mc::choose(mc::param("ops", 3) + 1);
	simk::quiet(true); Looper* l = Looper::create_looper(); simk::quiet(false);
	int before = simk::open_count(), good = 0; Looper::event_id_t id[5];
	auto reg = [&](int i, int ms, bool must) {
		id[i] = l->register_timer_event(ms, &fired[i], on_timer); bool ok = id[i] != Looper::INVALID_EVENT_ID; good += ok;
		MC_CHECK(ok || !must, "the timer can't be made"); MC_CHECK(simk::open_count() == before + good, "%d timers and %d descriptors", good, simk::open_count() - before);
		for (int k = 0; k < i; k++) MC_CHECK(!ok || id[k] != id[i], "two timers have the same id");
	};
	for (int i = 0; i < 5; i++) id[i] = Looper::INVALID_EVENT_ID;
	for (int i = 0; i < n; i++) reg(i, 5 + i, !faults);
	if (mc::choose(2)) {   // the process has no descriptor left: however many timers are asked for, nothing comes of it
		static int f[1000]; int nf = 0; simk::quiet(true); for (int e[2]; !pipe(e); ) { f[nf++] = e[0]; f[nf++] = e[1]; } for (int e; (e = socket(AF_INET, SOCK_STREAM, 0)) >= 0; ) f[nf++] = e; simk::quiet(false);
		before += nf; reg(4, 1, false); MC_CHECK(id[4] == Looper::INVALID_EVENT_ID, "harness: there was a descriptor");
		uint64_t m = mc::heap_mark(); for (int k = 0; k < 70; k++) reg(4, 1, false);
		MC_CHECK(!mc::heap_live_since(m), "every timer that can't be made takes memory");
		simk::quiet(true); for (int i = 0; i < nf; i++) close(f[i]); simk::quiet(false); before -= nf;
		reg(4, 50, !faults); mc::note("no descriptor for a while; ");
	}
	mc::outcome(good);
	while (good) {   // every timer that was made runs when it is due, and can be deleted
		int i = mc::choose(5); if (id[i] == Looper::INVALID_EVENT_ID) mc::discard_path();
		mc::sleep_us(60000); memset(fired, 0, sizeof fired); l->step(); for (int k = 0; k < 5; k++) MC_CHECK(fired[k] == (id[k] != Looper::INVALID_EVENT_ID), "timer %d ran %d times", k, fired[k]);
		l->delete_event(id[i]); id[i] = Looper::INVALID_EVENT_ID; good--; MC_CHECK(simk::open_count() == before + good, "%d timers and %d descriptors", good, simk::open_count() - before);
	}
	simk::quiet(true); Looper::destroy_looper(l); simk::quiet(false);
}
void mc_body() { set_log_threshold(L_MAXIMUM_LEVEL); if (part == 0) probe(); else if (part == 1) pipes(); else if (part == 2) servers(); else timers(); }
