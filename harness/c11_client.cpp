// C11: TCP client: one verdict per attempt, retries as told, cached data first, nothing leaked.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <string>
#include <unistd.h>
using namespace cyclone;
enum { PORT = 7100, RETRY = 5, MAXATT = 8 };
static int part, budget, attempts_left, loop_tid, lfd = -1, cmd_w = -1, cmd_r = -1, can_reset;
static Looper* L; static TcpClientPtr cli; static TcpClient* raw; static TcpConnection* conn_raw;
static uint64_t mark; static int64_t started;
// ---- reference model (loop thread and, when nothing else runs, the main thread)
enum { IDLE, CONNECTING, WAITING, CONNECTED, CLOSED, GONE };
static int st = IDLE; static int64_t retry_at;
static bool broken, connecting_now, retry_call, plan_ok, plan_sync, verdict_due, peer_reset, cut_short; static int64_t plan_at;
static int natt, nver, nconn, nclosed;
static char expect[256]; static int nexpect, sends; static char cache[256]; static int ncache;
static char got[256]; static int ngot; static int peer = -1; static bool got_eof;
static int kind = -1;
static simk::Plan plan(const sockaddr_in& to, int) {   // the attempt goes on as decided when its socket was made
	simk::Plan p; int k = kind; kind = -1;
	MC_CHECK(ntohs(to.sin_port) == PORT, "connects to port %d", ntohs(to.sin_port));
	MC_CHECK(k >= 0, "an attempt without a new socket");
	switch (k) {
	case 0: case 5: p.kind = simk::P_ASYNC_OK; p.delay_us = 3000; break;
	case 1: p.kind = simk::P_ASYNC_ERR; p.err = ETIMEDOUT; p.delay_us = 3000; break;
	case 2: p.kind = simk::P_IMMEDIATE; break;
	case 3: case 6: p.kind = simk::P_SYNC_ERR; p.err = ENETUNREACH; break;
	case 4: p.kind = simk::P_ASYNC_ERR; p.err = ECONNREFUSED; break;
	}
	return p;
}
static bool attempt() {   // the client makes a socket: an attempt begins
	natt++;
	if (!connecting_now) {
		MC_CHECK(st == WAITING, "a connection attempt is made although none is due (%s)", st == IDLE ? "the client was told to stop" : st == GONE ? "the client was destroyed" : st == CLOSED ? "the connection had been closed" : st == CONNECTING ? "another one is pending" : "it is connected");
		MC_CHECK(mc::now_us() == retry_at, "a retry is made at %lld us, it was due at %lld us", (long long)mc::now_us(), (long long)retry_at);
	}
	MC_CHECK(mc::self() == loop_tid, "a connection attempt on another thread");
	retry_call = !connecting_now; connecting_now = false;
	int k = attempts_left > 0 ? mc::choose(mc::param("kinds", 7)) : 0; attempts_left--; kind = k;
	static const char* nm[] = {"established later", "refused later", "established at once", "fails at once", "refused at once", "established later, then reset", "no descriptor left"};
	mc::note("[attempt: %s] ", nm[k]);
	plan_ok = k == 0 || k == 2 || k == 5; plan_sync = k == 3 || k == 6; peer_reset = k == 5; plan_at = mc::now_us() + (k < 2 || k == 5 ? 3000 : 0);
	st = CONNECTING; verdict_due = true;
	if (plan_sync && !retry_call) verdict_due = false;   // connect() itself answers
	return k != 6;
}
static void do_connect() {
	mc::note("connect "); connecting_now = true; plan_sync = false; int before = natt;
	bool ok = raw->connect(Address("127.0.0.1", (uint16_t)PORT));
	connecting_now = false;
	MC_CHECK(natt <= before + 1, "connect() makes %d attempts", natt - before);
	if (natt == before) { MC_CHECK(!ok, "connect() makes no attempt but answers true"); st = IDLE; return; }
	MC_CHECK(ok == !plan_sync, "connect() answers %d although the attempt %s", ok, plan_sync ? "failed" : "is under way");
	if (!ok) st = IDLE;
}
static void do_send() {
	char b[3]; for (int i = 0; i < 3; i++) b[i] = (char)(sends * 3 + i + 1); sends++;
	mc::note("send ");
	int s = st; raw->send(b, 3); memset(b, 0, 3);
	if (s == CONNECTING) { memcpy(cache + ncache, b, 0); for (int i = 0; i < 3; i++) cache[ncache + i] = (char)((sends - 1) * 3 + i + 1); ncache += 3; }
	else if (s == CONNECTED) { for (int i = 0; i < 3; i++) expect[nexpect + i] = (char)((sends - 1) * 3 + i + 1); nexpect += 3; }
}
static void do_disconnect() {
	mc::note("disconnect "); ncache = 0; int s = st;
	if (s == CONNECTING || s == WAITING || s == IDLE) { st = IDLE; verdict_due = false; }
	raw->disconnect();
	MC_CHECK(s != CONNECTED || broken || st == CLOSED || st == GONE || raw->get_connection_state() == TcpConnection::kDisconnecting, "disconnect() leaves the connection in state %d", (int)raw->get_connection_state());
}
static void do_drop() {
	if (st == CONNECTED) do_disconnect();
	if (st == GONE) return;
	if (cli && cli->get_connection_state() == TcpConnection::kDisconnecting) mc::discard_path();
	mc::note("drop "); st = GONE; verdict_due = false; TcpClientPtr c; c.swap(cli); c.reset();
}
static void check_state() {
	if (st == GONE) return;
	TcpConnection::State s = raw->get_connection_state();
	TcpConnection::State w = st == CONNECTING ? TcpConnection::kConnecting : st == CONNECTED && !broken ? TcpConnection::kConnected : TcpConnection::kDisconnected;
	if (natt) MC_CHECK(raw->get_server_address() == Address("127.0.0.1", (uint16_t)PORT), "get_server_address does not name the server of the latest attempt");
	MC_CHECK(s == w, "get_connection_state answers %d instead of %d", (int)s, (int)w);
}
static bool may(int n) { return budget > 0 && n; }
static void common(const TcpClientPtr& c, const char* what) {
	MC_CHECK(mc::self() == loop_tid, "the %s handler runs on another thread", what);
	MC_CHECK(c.get() == raw, "the %s handler is given another client", what);
	MC_CHECK(st != GONE || broken, "the %s handler runs after the client was destroyed", what);
	mc::note("%s ", what);
}
static void take_peer() {
	simk::quiet(true); if (peer >= 0) close(peer); peer = simk::peer_accept(lfd); fcntl(peer, F_SETFL, O_NONBLOCK); simk::quiet(false); ngot = 0; got_eof = false;
}
static uint32_t on_connected(TcpClientPtr c, TcpConnectionPtr conn, bool ok) {
	common(c, ok ? "on_connected(true)" : "on_connected(false)");
	nver++;
	MC_CHECK(st == CONNECTING && verdict_due, "a connected notification although no attempt is pending");
	verdict_due = false;
	MC_CHECK(ok == plan_ok, "told %s although the attempt %s", ok ? "success" : "failure", plan_ok ? "succeeded" : "failed");
	MC_CHECK(mc::now_us() == plan_at, "told at %lld us, the attempt was decided at %lld us", (long long)mc::now_us(), (long long)plan_at);
	MC_CHECK((conn != nullptr) == ok, "connection object %s", conn ? "given with a failure" : "missing");
	if (ok) {
		broken = conn->get_state() == TcpConnection::kDisconnected;   // while the cached data was being sent
		nconn++; st = CONNECTED; conn_raw = conn.get(); memcpy(expect, cache, ncache); nexpect = ncache; ncache = 0; cut_short = mc::config().env > 0;
		MC_CHECK(conn->get_owner() == c.get(), "the connection's owner is not the client");
	}
	int delay = 0; static const int dl[] = {0, RETRY, 1};
	if (!ok) st = plan_sync ? IDLE : CONNECTING;
	bool mine = false;
	if (may(1)) { int a = mc::choose(5); if (a) budget--;
		switch (a) {
		case 1: do_send(); break;
		case 2: do_disconnect(); mine = true; break;
		case 3: do_drop(); mine = true; break;
		case 4: if (ok) mc::discard_path(); do_disconnect(); do_connect(); mine = true; break;
		} }
	if (attempts_left > 0 || mine) { int m = mc::param("delays", 2); if (!ok || part == 0) delay = dl[ok ? (m > 1 ? mc::choose(2) : 0) : mc::choose(m)]; }
	if (!ok && !mine) { if (delay) { st = WAITING; retry_at = mc::now_us() + delay * 1000; mc::note("(retry in %d ms) ", delay); } else st = IDLE; }
	return delay;
}
static void on_message(TcpClientPtr c, TcpConnectionPtr conn) {
	common(c, "on_message"); MC_CHECK(st == CONNECTED && conn.get() == conn_raw, "a message without a connection");
	conn->get_input_buf().reset();
	if (may(1)) { int a = mc::choose(4); if (a) budget--; switch (a) { case 1: do_send(); break; case 2: do_disconnect(); break; case 3: do_drop(); break; } }
}
static void on_close(TcpClientPtr c, TcpConnectionPtr conn) {
	common(c, "on_close"); MC_CHECK((st == CONNECTED || (broken && st == GONE)) && conn.get() == conn_raw, "a close notification without a connection");
	bool gone = st == GONE; if (!gone) st = CLOSED; broken = false; conn_raw = nullptr; nclosed++; if (gone) return;
	if (may(1)) { int a = mc::choose(mc::param("reconnect", 0) ? 4 : 3); if (a) budget--; switch (a) { case 1: do_send(); break; case 2: do_drop(); break; case 3: do_connect(); break; } }
}
static void on_cmd(Looper::event_id_t, socket_t fd, Looper::event_t, void*) {
	char c; if (read(fd, &c, 1) != 1) return;
	if (st == GONE && c != 'x') return;
	switch (c) {
	case 's': do_send(); break;
	case 'd': do_disconnect(); break;
	case 'k': do_drop(); break;
	case 'c': do_connect(); break;
	case 'x': if (st != GONE) do_drop(); break;
	}
	check_state();
}
static void loop_thread(void*) {
	L = Looper::create_looper(); loop_tid = mc::self();
	cli = std::make_shared<TcpClient>(L, (void*)&budget, 3); raw = cli.get();
	MC_CHECK(cli->get_param() == (void*)&budget, "get_param");
	cli->m_listener.on_connected = on_connected; cli->m_listener.on_message = on_message; cli->m_listener.on_close = on_close;
	Looper::event_id_t e = L->register_event(cmd_r, Looper::kRead, nullptr, on_cmd, nullptr);
	do_connect(); check_state();
	started = 1;
	L->loop();
	cli.reset();
	L->delete_event(e);
	Looper::destroy_looper(L);
}
static void drain() {
	if (peer < 0 && nconn + 0 >= 0) { simk::quiet(true); if (simk::ready(lfd) & EPOLLIN) { peer = simk::peer_accept(lfd); fcntl(peer, F_SETFL, O_NONBLOCK); } }
	if (peer >= 0 && !got_eof) for (;;) { long r = simk::recv_some(peer, got + ngot, sizeof got - ngot); if (r == -EAGAIN) break; if (r <= 0) { got_eof = true; break; } ngot += (int)r; }
}
static void check_data() {
	drain();
	if (peer < 0) return;
	MC_CHECK(ngot <= nexpect && !memcmp(got, expect, ngot), "the server receives other bytes than were sent (%d, %d expected)", ngot, nexpect);
	if (!cut_short) MC_CHECK(ngot == nexpect, "the server receives %d of the %d bytes sent", ngot, nexpect);
	if (st == CLOSED || st == GONE) MC_CHECK(got_eof, "the connection is closed but the server is not told");
}
static void quiescent() {
	check_data();
	MC_CHECK(!verdict_due || mc::now_us() < plan_at, "the attempt %s but nobody is told", plan_ok ? "succeeded" : "failed");
	MC_CHECK(st != WAITING || mc::now_us() < retry_at, "no retry is made although one is due");
}
static void on_poll() {   // the network resets a new connection before the client looks
	if (!peer_reset || !plan_ok || st != CONNECTING || mc::self() != loop_tid || mc::now_us() < plan_at || !(simk::ready(lfd) & EPOLLIN)) return;
	simk::quiet(true); int s = simk::peer_accept(lfd); simk::reset_conn(s); close(s); simk::quiet(false); peer_reset = false; plan_ok = false; mc::note("(reset) ");
}
static void run_seq() {
	budget = mc::param("acts", 1); attempts_left = mc::param("atts", 2);
	int rounds = mc::param("rounds", 2);
	simk::connect_plan = plan; simk::socket_hook = attempt; simk::poll_hook = on_poll;
	int p[2]; simk::quiet(true); if (pipe2(p, O_NONBLOCK)) mc::fail("harness"); cmd_r = p[0]; cmd_w = p[1];
	lfd = simk::peer_listen(PORT);
	mark = mc::heap_mark();
	mc::spawn(loop_thread, nullptr);
	mc::idle();
	for (int k = 0; k < rounds; k++) {
		quiescent();
		// an event from outside
		static const char* nm[] = {"", "send", "disconnect", "drop", "connect", "peer sends", "peer closes", "peer resets"};
		int c = mc::choose(8);
		if (c) mc::note("[%s] ", nm[c]);
		switch (c) {
		case 1: simk::send_all(cmd_w, "s", 1); break;
		case 2: simk::send_all(cmd_w, "d", 1); break;
		case 3: simk::send_all(cmd_w, "k", 1); break;
		case 4: if (st == CONNECTING || st == CONNECTED || st == GONE || (st == CLOSED && !mc::param("reconnect", 0))) mc::discard_path(); if (peer >= 0) { close(peer); peer = -1; ngot = 0; got_eof = false; } simk::send_all(cmd_w, "c", 1); break;
		case 5: if (peer < 0 || got_eof) mc::discard_path(); simk::send_all(peer, "hi", 2); break;
		case 6: if (peer < 0) mc::discard_path(); cut_short = true; close(peer); peer = -1; nexpect = ngot = 0; break;
		case 7: if (peer < 0) mc::discard_path(); cut_short = true; simk::reset_conn(peer); break;
		}
		mc::idle();
		quiescent();
		if (st == CLOSED || st == IDLE) { if (peer >= 0 && got_eof) { close(peer); peer = -1; ngot = 0; got_eof = false; } }
		if (mc::choose(2)) { mc::note("[wait] "); int64_t t = mc::now_us(); (void)t; mc::idle_for(3000); if (peer_reset && peer < 0) { drain(); } quiescent(); mc::idle_for(RETRY * 1000); }
	}
	quiescent();
	simk::send_all(cmd_w, "x", 1); mc::idle();
	check_data();
	L->push_stop_request(); mc::join_all();
	int64_t a = natt; mc::idle_for(20000); MC_CHECK(a == natt, "harness");
	MC_CHECK(nclosed == nconn, "%d connected notifications, %d close notifications", nconn, nclosed);
	if (peer >= 0) close(peer);
	close(lfd); close(cmd_r); close(cmd_w); simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
}
// ---- part 1: other threads use the client
static int mode, nthr, seen_connected, xsent[2]; static TcpClientPtr shared_cli;
static uint32_t on_connected1(TcpClientPtr c, TcpConnectionPtr conn, bool ok) {
	MC_CHECK(nver++ == 0, "a second notification");
	MC_CHECK(ok == (mode != 2), "told %d", ok);
	if (ok) { c->send("BBB", 3); if (mode == 1) c->disconnect(); }
	return 0;
}
static void on_close1(TcpClientPtr, TcpConnectionPtr) { nclosed++; }
static void on_cmd1(Looper::event_id_t, socket_t fd, Looper::event_t, void*) { char c; if (read(fd, &c, 1) == 1) raw->disconnect(); }
static void loop1(void*) {
	L = Looper::create_looper(); loop_tid = mc::self();
	cli = std::make_shared<TcpClient>(L, nullptr); raw = cli.get();
	cli->m_listener.on_connected = on_connected1; cli->m_listener.on_close = on_close1;
	Looper::event_id_t e = L->register_event(cmd_r, Looper::kRead, nullptr, on_cmd1, nullptr);
	MC_CHECK(cli->connect(Address("127.0.0.1", (uint16_t)PORT)), "connect fails");
	cli->send("AAA", 3);
	started = 1;
	L->loop();
	cli.reset(); L->delete_event(e); Looper::destroy_looper(L);
}
static void watcher(void* a) {
	int me = (int)(intptr_t)a, last = TcpConnection::kConnecting;
	for (;;) {
		int s = raw->get_connection_state();
		MC_CHECK(s == last || (last == TcpConnection::kConnecting && s != last && (mode != 2 || s == TcpConnection::kDisconnected)) || (last == TcpConnection::kConnected && s > last) || (last == TcpConnection::kDisconnecting && s == TcpConnection::kDisconnected), "the state goes from %d to %d", last, s);
		if (s == TcpConnection::kConnected && !xsent[me]) { seen_connected = 1; char b[3] = {(char)('X' + me), (char)('X' + me), (char)('X' + me)}; xsent[me] = 1; raw->send(b, 3); memset(b, '?', 3); }
		if (s == TcpConnection::kDisconnected || (xsent[me] && mode == 0)) break;
		last = s; mc::yield();
	}
}
static simk::Plan plan1(const sockaddr_in&, int) {
	simk::Plan p; p.kind = mode == 2 ? simk::P_ASYNC_ERR : simk::P_ASYNC_OK; p.err = ECONNREFUSED; return p;
}
static void run_threads() {
	mode = mc::choose(3); nthr = mc::param("threads", 1); mc::note("[mode %d] ", mode);
	simk::connect_plan = plan1;
	int p[2]; simk::quiet(true); if (pipe2(p, O_NONBLOCK)) mc::fail("harness"); cmd_r = p[0]; cmd_w = p[1];
	lfd = simk::peer_listen(PORT);
	mark = mc::heap_mark();
	mc::spawn(loop1, nullptr);
	while (!started) mc::yield();
	int t[2]; for (int i = 0; i < nthr; i++) t[i] = mc::spawn(watcher, (void*)(intptr_t)i);
	for (int i = 0; i < nthr; i++) mc::join(t[i]);
	mc::idle();
	if (mode == 0) { simk::send_all(cmd_w, "d", 1); mc::idle(); }
	MC_CHECK(nver == 1, "%d notifications", nver);
	MC_CHECK(nclosed == (mode != 2), "%d close notifications", nclosed);
	if (mode != 2) {
		peer = simk::peer_accept(lfd);
		for (;;) { long r = simk::recv_some(peer, got + ngot, sizeof got - ngot); if (r <= 0) { MC_CHECK(r == 0, "the connection ends with error %ld", -r); break; } ngot += (int)r; }
		got[ngot] = 0; mc::note("received %s ", got);
		MC_CHECK(ngot % 3 == 0 && ngot >= 3 && !memcmp(got, "AAA", 3), "data sent while connecting does not come first: %s", got);
		int nb = 0, nx = 0, ny = 0;
		for (int i = 3; i < ngot; i += 3) { MC_CHECK(got[i] == got[i + 1] && got[i] == got[i + 2], "messages are mixed: %s", got); nb += got[i] == 'B'; nx += got[i] == 'X'; ny += got[i] == 'Y'; }
		MC_CHECK(nb == 1 && nx <= 1 && ny <= 1 && 3 * (1 + nb + nx + ny) == ngot, "wrong messages: %s", got);
		if (mode == 0) MC_CHECK(nx == 1 && (nthr < 2 || ny == 1), "a message is missing: %s", got);
		close(peer);
	}
	L->push_stop_request(); mc::join_all();
	close(lfd); close(cmd_r); close(cmd_w); simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
	mc::outcome(1 + seen_connected + mode * 2);
}
void mc_setup() {
	auto& c = mc::config(); part = mc::param("part", 0);
	simk::opt().reset = true;
	c.preemptions = mc::param("P", 0); c.env = mc::param("E", 0); c.total = mc::param("D", 1); c.horizon = 30000;
}
void mc_body() { set_log_threshold(L_MAXIMUM_LEVEL); if (part == 1) run_threads(); else run_seq(); }
