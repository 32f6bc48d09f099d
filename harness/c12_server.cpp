// C12: the TCP server gives each connection to one worker, correctly; C13: stop ends it completely.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <unistd.h>
using namespace cyclone;
enum { PORT = 7200, PEER0 = 9000, MAXP = 6, MAXW = 3 };
enum { CA_NONE, CA_SEND, CA_DOWN, CA_CLOSECMD, CA_STOP, CA_HOLD, NCA };      // in the connected handler
enum { MA_ECHO, MA_NONE, MA_DOWN, MA_CLOSECMD, MA_ECHODOWN, MA_STOP, NMA };  // in the message handler
static int part, W, nports, main_tid;
static TcpServer* srv; static uint64_t mark;
static int wt[MAXW], wstarted[MAXW], mt = -1, mstarted; static Looper* wloop[MAXW]; static Looper* mloop;
struct Peer { int fd, port; char sent[32]; int nsent; bool open, fin, reset, refused, maybe; char got[64]; int ngot; bool eof; int err; } peers[MAXP]; static int npeers;
struct Conn { int act_conn, act_msg; int nconnected, nclosed, nmsg, thread, id; TcpConnection* p; char got[32]; int ngot; char reply[64]; int nreply; bool down; bool maybe_lost; } conns[MAXP];
static TcpConnectionPtr held[MAXP];
static int wseq_sent[MAXW], wseq_got[MAXW], mseq_sent, mseq_got, listening[2] = {1, 1}; static bool unlistened;
static bool stopping, slow; static int closes;   // slow: the peer of connection 0 takes its data late
static int peer_of(const TcpConnectionPtr& c) {
	int k = c->get_peer_addr().get_port() - PEER0;
	if (c->get_peer_addr().get_port() == 0)   // reset before the server looked
		for (k = 0; k < npeers; k++) if (peers[k].reset && (!conns[k].nconnected || conns[k].p == c.get())) break;
	MC_CHECK(k >= 0 && k < MAXP, "the connection's peer address has port %d", c->get_peer_addr().get_port());
	return k;
}
static void common(TcpServer* s, int idx, const TcpConnectionPtr& c, const char* what) {
	MC_CHECK(s == srv, "%s is given another server", what);
	MC_CHECK(idx >= 0 && idx < W, "%s is given thread index %d", what, idx);
	MC_CHECK(wstarted[idx] == 1 && mc::self() == wt[idx], "%s for work thread %d runs on another thread", what, idx);
	MC_CHECK(c != nullptr, "%s without a connection", what);
	MC_CHECK(c->get_looper() == wloop[idx], "%s: the connection belongs to another event loop", what);
}
static void reply(Conn& k, TcpConnection* c, const char* s, int n) { if (c->get_state() == TcpConnection::kConnected) { memcpy(k.reply + k.nreply, s, n); k.nreply += n; } c->send(s, n); }
static void on_connected(TcpServer* s, int32_t idx, TcpConnectionPtr c) {
	common(s, idx, c, "on_connected");
	int i = peer_of(c); Conn& k = conns[i];
	mc::note("on_connected#%d/%d ", i, idx);
	MC_CHECK(k.nconnected++ == 0, "connection %d is announced twice", i);
	k.thread = idx; k.p = c.get(); k.id = c->get_id();
	MC_CHECK(c->get_local_addr().get_port() == peers[i].port, "connection %d: local port %d instead of %d", i, c->get_local_addr().get_port(), peers[i].port);
	MC_CHECK(c->get_state() == TcpConnection::kConnected, "announced in state %d", (int)c->get_state());
	switch (k.act_conn) {
	case CA_SEND: reply(k, c.get(), "hi", 2); break;
	case CA_DOWN: k.down = true; c->shutdown(); break;
	case CA_CLOSECMD: k.down = true; s->shutdown_connection(c); break;
	case CA_STOP: s->stop(); break;
	case CA_HOLD: held[i] = c; if (slow && i == 0) reply(k, c.get(), "0123456789abcdef", 16); break;
	}
}
static void on_message(TcpServer* s, int32_t idx, TcpConnectionPtr c) {
	common(s, idx, c, "on_message");
	int i = peer_of(c); Conn& k = conns[i];
	mc::note("on_message#%d ", i);
	MC_CHECK(k.nconnected == 1 && k.nclosed == 0, "on_message %s", k.nclosed ? "after on_close" : "before on_connected");
	MC_CHECK(k.thread == idx && k.p == c.get(), "on_message on thread %d, on_connected was on %d", idx, k.thread);
	k.nmsg++;
	char b[32]; size_t n = c->get_input_buf().size(); MC_CHECK(n && k.ngot + n <= sizeof k.got, "on_message with %zu bytes", n);
	c->get_input_buf().memcpy_out(b, n); memcpy(k.got + k.ngot, b, n); k.ngot += (int)n;
	switch (k.act_msg) {
	case MA_ECHO: reply(k, c.get(), b, (int)n); break;
	case MA_DOWN: k.down = true; c->shutdown(); break;
	case MA_CLOSECMD: k.down = true; s->shutdown_connection(c); break;
	case MA_ECHODOWN: reply(k, c.get(), b, (int)n); k.down = true; c->shutdown(); break;
	case MA_STOP: s->stop(); break;
	}
}
static void on_close(TcpServer* s, int32_t idx, TcpConnectionPtr c) {
	common(s, idx, c, "on_close");
	int i = peer_of(c); Conn& k = conns[i];
	mc::note("on_close#%d ", i);
	MC_CHECK(k.nconnected == 1, "on_close before on_connected");
	MC_CHECK(k.nclosed++ == 0, "connection %d is closed twice", i);
	MC_CHECK(k.thread == idx && k.p == c.get(), "on_close on thread %d, on_connected was on %d", idx, k.thread);
}
static void on_wstart(TcpServer* s, int32_t idx, Looper* l) { MC_CHECK(idx >= 0 && idx < W && l, "work thread start %d", idx); MC_CHECK(wstarted[idx]++ == 0, "work thread %d starts twice", idx); wt[idx] = mc::self(); wloop[idx] = l; MC_CHECK(l->get_thread_id() == sys_api::thread_get_current_id(), "the looper of work thread %d belongs to another thread", idx); (void)s; }
static void on_mstart(TcpServer*, Looper* l) { MC_CHECK(mstarted++ == 0, "the master thread starts twice"); mt = mc::self(); mloop = l; }
static const int ids[4] = {TcpServer::kCustomMasterThreadCmdID_Begin, 65535, TcpServer::kCustomMasterThreadCmdID_Begin + 1, 300};
static void on_wcmd(TcpServer*, int32_t idx, Packet* p) {
	MC_CHECK(idx >= 0 && idx < W && mc::self() == wt[idx], "a message for work thread %d arrives on another thread", idx);
	MC_CHECK(p->get_packet_id() == ids[(wseq_got[idx] + idx) & 3] && p->get_packet_size() == 4, "work thread %d gets message %d of %d bytes", idx, p->get_packet_id(), (int)p->get_packet_size());
	int32_t v; memcpy(&v, p->get_packet_content(), 4); MC_CHECK(v >> 8 == idx, "work thread %d gets a message for work thread %d", idx, v >> 8); v &= 255; MC_CHECK(v == wseq_got[idx], "work thread %d gets message %d instead of %d", idx, v, wseq_got[idx]); wseq_got[idx]++;
}
static void on_mcmd(TcpServer*, Packet* p) {
	MC_CHECK(mc::self() == mt, "a master message arrives on another thread");
	MC_CHECK(p->get_packet_id() == ids[mseq_got & 3] && p->get_packet_size() == 4, "the master gets message %d of %d bytes", p->get_packet_id(), (int)p->get_packet_size());
	int32_t v; memcpy(&v, p->get_packet_content(), 4); MC_CHECK(v == mseq_got, "the master gets message %d instead of %d", v, mseq_got); mseq_got++;
}
static Packet* make(int id, int32_t v) { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, (uint16_t)id, 4, (const char*)&v); return p; }
static Packet* make_work(int j) { int32_t n = wseq_sent[j]++; return make(ids[(n + j) & 3], j << 8 | n); }
static void send_work(int j) {
	if (wseq_sent[j] & 1) { Packet* a = make_work(j); Packet* b = make_work(j); const Packet* v[2] = {a, b}; srv->send_work_message(j, v, 2); Packet::free_packet(a); Packet::free_packet(b); }
	else { Packet* a = make_work(j); srv->send_work_message(j, a); Packet::free_packet(a); }
}
static void send_master() {
	int32_t v = mseq_sent++;
	if (v & 1) { Packet* a = make(ids[v & 3], v); srv->send_master_message(a); Packet::free_packet(a); } else srv->send_master_message((uint16_t)ids[v & 3], 4, (const char*)&v);
}
static int connect_peer(int port) {
	int i = npeers; if (i >= MAXP) mc::discard_path();
	Peer& p = peers[i]; p.port = port;
	p.fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
	sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(PEER0 + i);
	if (bind(p.fd, (sockaddr*)&a, sizeof a)) mc::fail("harness: bind");
	a.sin_port = htons((uint16_t)port);
	npeers++;
	int r = connect(p.fd, (sockaddr*)&a, sizeof a);
	if (r < 0 && errno == EINPROGRESS) { int e = 0; socklen_t l = sizeof e; getsockopt(p.fd, SOL_SOCKET, SO_ERROR, &e, &l); r = e ? -1 : 0; errno = e; }
	if (r < 0) { close(p.fd); p.fd = -1; p.refused = true; return errno; }
	p.open = true; return 0;
}
static void drain(Peer& p) {
	if (p.fd < 0 || p.eof) return;
	for (;;) { long r = simk::recv_some(p.fd, p.got + p.ngot, sizeof p.got - p.ngot); if (r == -EAGAIN) return; if (r <= 0) { p.eof = true; p.err = (int)-r; return; } p.ngot += (int)r; }
}
// whatever has happened so far has to be consistent; nothing else is going on
static void check_quiet(bool done) {
	int per[MAXW] = {0}, total = 0;
	for (int i = 0; i < npeers; i++) {
		Peer& p = peers[i]; Conn& k = conns[i]; drain(p);
		if (p.refused) { MC_CHECK(k.nconnected == 0, "a refused connection is announced"); continue; }
		if (!k.nconnected) {
			MC_CHECK(p.maybe || done, "connection %d is not announced", i);
			MC_CHECK(k.ngot == 0 && !k.nclosed, "harness");
			if (p.fd >= 0 && !p.reset) MC_CHECK(p.eof, "connection %d is dropped without telling the peer", i);
			continue;
		}
		per[k.thread]++; total++;
		MC_CHECK(k.ngot <= p.nsent && !memcmp(k.got, p.sent, k.ngot), "connection %d: the server received other bytes than were sent", i);
		if (!k.down && !p.reset && !done) MC_CHECK(k.ngot == p.nsent, "connection %d: %d of %d bytes arrive", i, k.ngot, p.nsent);
		bool over = k.down || p.fin || p.reset || done;
		MC_CHECK(k.nclosed == over, "connection %d is %s but %d close notifications came", i, over ? "over" : "open", k.nclosed);
		if (p.fd >= 0 && !p.reset) {
			MC_CHECK(p.ngot <= k.nreply && !memcmp(p.got, k.reply, p.ngot), "connection %d: the peer receives other bytes than were sent", i);
			if (!p.eof || p.err == 0) MC_CHECK(p.ngot == k.nreply, "connection %d: the peer receives %d of %d bytes", i, p.ngot, k.nreply);
			MC_CHECK(p.eof == over, "connection %d is %s but the peer is %stold", i, over ? "over" : "open", over ? "not " : "");
		}
	}
	for (int i = 0; i < npeers; i++) for (int j = 0; j < i; j++) if (conns[i].nconnected && conns[j].nconnected) MC_CHECK(conns[i].id != conns[j].id, "two connections have the id %d", conns[i].id);
	for (int a = 0; a < W && !done; a++) for (int b = 0; b < a; b++) { int d = per[a] - per[b]; MC_CHECK(d >= -1 && d <= 1, "of %d connections thread %d gets %d, thread %d gets %d", total, b, per[b], a, per[a]); }
	for (int a = 0; a < W; a++) MC_CHECK(done ? wseq_got[a] <= wseq_sent[a] : wseq_got[a] == wseq_sent[a], "work thread %d got %d of %d messages", a, wseq_got[a], wseq_sent[a]);
	MC_CHECK(done ? mseq_got <= mseq_sent : mseq_got == mseq_sent, "the master got %d of %d messages", mseq_got, mseq_sent);
}
static void step(const char* ops) {
	int n = (int)strlen(ops); char c = ops[mc::choose(n)];
	int i = 0;
	if (strchr("sxrh", c)) { if (!npeers) mc::discard_path(); i = mc::choose(npeers); if (!peers[i].open || peers[i].fd < 0 || peers[i].fin || peers[i].reset) mc::discard_path(); }
	mc::note("[%c%d] ", c, i);
	switch (c) {
	case 'C': case 'D': {
		static const int ca[] = {CA_NONE, CA_SEND, CA_DOWN, CA_CLOSECMD, CA_STOP}, ma[] = {MA_ECHO, MA_NONE, MA_DOWN, MA_CLOSECMD, MA_ECHODOWN, MA_STOP};
		int nc = mc::param("ca", 4), nm = mc::param("ma", 3); int a = mc::choose(nc + nm - 1);
		conns[npeers].act_conn = a < nc ? ca[a] : CA_NONE; conns[npeers].act_msg = a < nc ? MA_ECHO : ma[a - nc + 1];
		if (mc::param("hold", 0) && conns[npeers].act_conn == CA_NONE) conns[npeers].act_conn = CA_HOLD;
		int q = c == 'D'; mc::note("(%d,%d) ", conns[npeers].act_conn, conns[npeers].act_msg);
		int r = connect_peer(PORT + q); MC_CHECK(listening[q] > 0 ? r == 0 : r == ECONNREFUSED || listening[q] < 0, "connecting to the %s port ends with %d", listening[q] > 0 ? "listening" : "stopped", r);
		if (r) break;
		if (listening[q] < 0) peers[npeers - 1].maybe = true;
		break; }
	case 's': { Peer& p = peers[i]; char b[2] = {(char)('a' + p.nsent), (char)('A' + p.nsent)}; if (p.nsent + 2 > (int)sizeof p.sent) mc::discard_path(); if (simk::send_all(p.fd, b, 2)) { memcpy(p.sent + p.nsent, b, 2); p.nsent += 2; } break; }
	case 'x': drain(peers[i]); close(peers[i].fd); peers[i].fd = -1; peers[i].fin = true; break;
	case 'r': simk::reset_conn(peers[i].fd); peers[i].reset = true; break;
	case 'w': send_work(mc::choose(W)); break;
	case 'm': send_master(); break;
	case 'l': { if (unlistened) mc::discard_path(); unlistened = true; int q = mc::choose(nports); mc::note("(%d) ", q); for (int j = 0; j < npeers; j++) if (peers[j].port == PORT + q) peers[j].maybe = true; srv->stop_listen(q); listening[q] = -1; break; }
	}
}
static void finish() {
	mc::note("stop "); stopping = true;
	srv->stop();
	srv->join();
	for (int i = 0; i < npeers; i++) { held[i].reset(); if (!conns[i].nconnected) peers[i].maybe = true; }
	check_quiet(true);
	for (int q = 0; q < nports; q++) { int f = simk::peer_connect(PORT + q); MC_CHECK(f < 0, "the server has been joined and still listens on its port"); }
	delete srv; srv = nullptr;
	for (int i = 0; i < npeers; i++) if (peers[i].fd >= 0) close(peers[i].fd);
	simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
	uint64_t o = 1; for (int i = 0; i < npeers; i++) o = o * 31 + conns[i].nconnected * 16 + conns[i].ngot * 2 + conns[i].nclosed; mc::outcome(o);
}
static void begin() {
	main_tid = mc::self(); W = mc::param("W", 2); nports = mc::param("ports", 1);
	mark = mc::heap_mark();
	simk::quiet(true);
	srv = new TcpServer;
	auto& l = srv->m_listener;
	l.on_master_thread_start = on_mstart; l.on_master_thread_command = on_mcmd; l.on_work_thread_start = on_wstart; l.on_work_thread_command = on_wcmd;
	l.on_connected = on_connected; l.on_message = on_message; l.on_close = on_close;
	for (int i = 0; i < nports; i++) { MC_CHECK(srv->bind(Address("127.0.0.1", (uint16_t)(PORT + i)), i == 0), "bind fails"); Address a = srv->get_bind_address(i); MC_CHECK(a.get_port() == PORT + i, "get_bind_address(%d) has port %d", i, a.get_port()); }
	MC_CHECK(!srv->bind(Address("127.0.0.1", (uint16_t)PORT), false), "a port is bound twice");
	MC_CHECK(!srv->start(0) && !srv->start(33), "start accepts a wrong number of threads");
	MC_CHECK(srv->start(W), "start fails");
	MC_CHECK(!srv->start(W), "start succeeds twice");
	MC_CHECK(!srv->bind(Address("127.0.0.1", (uint16_t)(PORT + 5)), true), "bind succeeds on a running server");
	MC_CHECK(srv->get_work_thread_counts() == W, "get_work_thread_counts");
}
static void run_hist() {   // C12: histories
	begin(); mc::idle();
	static const char* sets[] = {"Cs", "Csx", "CDsxrwml", "CDsxrwmlh", "C"};
	const char* ops = sets[mc::param("ops", 2)]; int n = mc::param("n", 3);
	for (int i = 0; i < n; i++) {
		if (!mc::choose(2) && i) break;
		step(ops);
		if (mc::param("wait", 1) == 0 || mc::choose(2)) { mc::idle(); check_quiet(false); for (int q = 0; q < 2; q++) if (listening[q] < 0) listening[q] = 0; }
	}
	mc::idle(); check_quiet(false);
	for (int i = 0; i < W; i++) MC_CHECK(wstarted[i] == 1, "work thread %d starts %d times", i, wstarted[i]);
	MC_CHECK(mstarted == 1, "the master thread starts %d times", mstarted);
	finish();
}
static void run_stop() {   // C13: stop at any moment of a history
	begin(); if (mc::choose(2)) mc::idle(); else listening[0] = listening[1] = -1;   // not listening yet
	const char* ops = mc::param("ops", 0) ? "Csxrwml" : "Csx"; int n = mc::param("n", 2);
	for (int i = 0; i < n; i++) {
		if (!mc::choose(2)) break;
		step(ops);
		if (mc::choose(2)) mc::idle();
	}
	finish();
}
static void closer(void*) { for (int i = slow ? closes : 0; i < (slow ? closes + 1 : npeers); i++) for (int k = 0; k < (slow ? 2 : 1); k++) if (held[i]) srv->shutdown_connection(held[i]); }
static void unlistener(void*) { srv->stop_listen(0); }
static void stopper(void*) { srv->stop(); }
static void run_threads() {   // C13: stop, shutdown_connection, sending and peers on several threads
	begin();
	int n = mc::param("n", 1); slow = mc::param("slow", 0); if (slow) { simk::opt().sock_cap = 6; mc::idle(); }
	for (int i = 0; i < n; i++) { conns[npeers].act_conn = CA_HOLD; connect_peer(PORT); }
	mc::idle();
	int kind = mc::param("kind", -1); if (kind < 0) kind = mc::choose(64); if ((!n || slow) && kind & (8 | 16)) mc::discard_path(); if ((kind & 24) == 24 || __builtin_popcount(kind) > mc::param("bits", 6)) mc::discard_path(); mc::note("[kind %d] ", kind); if (kind & 32) listening[0] = -1;
	if (kind & 1) { if (slow) { closes = mc::choose(n); mc::note("(closes %d) ", closes); } for (int i = slow ? closes : 0; i < (slow ? closes + 1 : n); i++) conns[i].down = true; mc::spawn(closer, nullptr); }
	if (kind & 2) mc::spawn(stopper, nullptr);
	int ul = -1; if (kind & 32) ul = mc::spawn(unlistener, nullptr);
	if (kind & 4) { conns[npeers].act_conn = CA_NONE; connect_peer(PORT); }
	if (kind & 8) { simk::send_all(peers[0].fd, "aA", 2); memcpy(peers[0].sent, "aA", 2); peers[0].nsent = 2; }
	if (kind & 16) { close(peers[0].fd); peers[0].fd = -1; peers[0].fin = true; }
	if (!(kind & 2)) srv->stop();
	if (slow) { mc::idle(); drain(peers[0]); while (!peers[0].eof) { mc::idle(); int n = peers[0].ngot; drain(peers[0]); MC_CHECK(peers[0].eof || peers[0].ngot > n, "the rest of the data for connection 0 never comes: %d bytes", n); } }
	if (ul >= 0) mc::join(ul);   // only on a running server
	srv->join(); mc::join_all();
	finish();
}
static void __attribute__((noinline)) dirty_stack() { volatile char b[2000]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)0xA5; }
static void run_api() {   // C13: bound, perhaps started, perhaps stopped listening, destroyed
	main_tid = mc::self(); W = 1; mark = mc::heap_mark(); simk::quiet(true);
	srv = new TcpServer; srv->m_listener.on_work_thread_start = on_wstart;
	int n = mc::choose(3); mc::note("bind %d ", n);
	for (int i = 0; i < n; i++) MC_CHECK(srv->bind(Address("127.0.0.1", (uint16_t)(PORT + i)), false), "bind fails");
	MC_CHECK(srv->get_bind_address(n) == Address(), "an invalid index has an address");
	if (mc::choose(2)) { MC_CHECK(!srv->bind(Address("10.9.8.7", (uint16_t)PORT), false), "bind to a foreign address succeeds"); mc::note("bind fails "); }
	if (mc::choose(2)) { srv->stop(); mc::note("stop "); }
	if (mc::choose(2)) {
		MC_CHECK(srv->start(W), "start fails"); mc::note("start ");
		bool w = mc::choose(2); if (w) mc::idle();
		int gone = n ? mc::choose(n + 1) : 0;
		if (gone) {
			int times = 1 + mc::choose(2); mc::note("stop_listen(%d)*%d ", gone - 1, times); for (int k = 0; k < times; k++) srv->stop_listen(gone - 1);
			mc::idle();
			for (int i = 0; i < n; i++) {
				dirty_stack(); Address a = srv->get_bind_address(i); MC_CHECK(i == gone - 1 ? a == Address() : a.get_port() == PORT + i, "get_bind_address(%d) answers %s:%d", i, a.get_ip(), a.get_port());
				int s = simk::peer_connect(PORT + i); MC_CHECK((s >= 0) == (i != gone - 1), "port %d: connecting %s", i, s >= 0 ? "succeeds" : "fails"); if (s >= 0) close(s);
			}
		}
		if (n && mc::choose(2)) { srv->stop(); mc::note("stop, stop_listen "); srv->stop_listen(0); } else srv->stop();
		if (mc::choose(2)) srv->stop();
		srv->join();
	}
	if (mc::choose(2)) { srv->stop(); srv->join(); }
	delete srv; simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
}
void mc_setup() {
	auto& c = mc::config(); part = mc::param("part", 0); simk::opt().accept_err = mc::param("accept", 0);
	c.preemptions = mc::param("P", 0); c.env = mc::param("E", 0); c.total = mc::param("D", 1); c.horizon = 60000;
}
void mc_body() { set_log_threshold(L_MAXIMUM_LEVEL); if (part == 0) run_hist(); else if (part == 1) run_stop(); else if (part == 2) run_threads(); else run_api(); }
