// C09: a TCP connection delivers the byte stream; C10: it closes once and survives whatever ends it.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <string>
#include <unistd.h>
using namespace cyclone;
enum { PORT = 7000 };
enum { EV_START = 1, EV_RET, EV_DOWN, EV_CLOSE, EV_SENDC, EV_READY };
static int part, peer = -1, afd = -1, lfd = -1, senders;
static Looper* L; static TcpConnectionPtr conn, keep, held[2]; static TcpConnection* raw;
static int loop_tid, closes, messages_after_close, acts_left, peer_ended;
static uint64_t mark; static int64_t afile;
// ---- sending
struct Call { bool used, rejected; int tid, len; };
static Call calls[16]; static int ncalls[3]; static char got[4096]; static int ngot; static bool got_eof; static int got_err;
static int nsc; static bool has_complete;
static int slot_of(int tid) { return tid == loop_tid ? 0 : 8; }
static void do_send(TcpConnection* c, int len, int base) {
	int* n = &ncalls[base == 0 ? 0 : base == 8 ? 1 : 2]; if (*n >= (base ? 4 : 8)) mc::discard_path();
	int id = base + (*n)++; Call& k = calls[id]; char b[16];
	for (int j = 0; j < len; j++) b[j] = (char)(id << 4 | j);
	k.tid = mc::self(); k.len = len; k.rejected = base == 0 && c->get_state() != TcpConnection::kConnected; k.used = true;
	mc::note("send#%d(%d) ", id, len);
	mc::event(EV_START, id);
	c->send(b, len);
	memset(b, 0xee, sizeof b);
	mc::event(EV_RET, id);
}
static void do_down(TcpConnection* c) { mc::note("shutdown "); mc::event(EV_DOWN); c->shutdown(); }
enum { A_NONE, A_3, A_9, A_39, A_DOWN, A_9DOWN, A_DOWN3, A_DOWNDOWN, NACT, A_QUIT };
static void act(TcpConnection* c, int a) {
	switch (a) {
	case A_3: do_send(c, 3, 0); break;
	case A_9: do_send(c, 9, 0); break;
	case A_39: do_send(c, 3, 0); do_send(c, 9, 0); break;
	case A_DOWN: do_down(c); break;
	case A_9DOWN: do_send(c, 9, 0); do_down(c); break;
	case A_DOWN3: do_down(c); do_send(c, 3, 0); break;
	case A_DOWNDOWN: do_down(c); do_down(c); break;
	case A_QUIT: L->push_stop_request(); break;
	}
}
static int a_msg, a_sc, a_close; static bool with_stats, held_by_app;
// ---- receiving
static int rmode; static size_t rsent, rseen, reaten;
static char pat(size_t i) { return (char)(i * 7 + (i >> 8)); }
static void receive(TcpConnection* c) {
	RingBuf& b = c->get_input_buf();
	MC_CHECK(reaten + b.size() > rseen, "the message handler is called although nothing new arrived (%zu bytes)", b.size());
	rseen = reaten + b.size();
	MC_CHECK(rseen <= rsent, "the handler sees %zu bytes, %zu were sent", rseen, rsent);
	std::string s(b.size(), 0); b.peek(0, &s[0], s.size());
	for (size_t i = 0; i < s.size(); i++) MC_CHECK(s[i] == pat(reaten + i), "received byte %zu is %02x instead of %02x", reaten + i, (uint8_t)s[i], (uint8_t)pat(reaten + i));
	switch (rmode) {
	case 0: reaten += b.size(); b.discard(b.size()); break;
	case 1: b.discard(1); reaten++; break;
	case 2: break;
	case 3: reaten += b.size(); b.discard(b.size()); c->send("hello", 5); break;
	case 4: reaten += b.size(); b.discard(b.size()); do_down(c); break;
	}
}
static void common(TcpConnectionPtr& c, const char* what) {
	MC_CHECK(mc::self() == loop_tid, "the %s handler runs on another thread", what);
	MC_CHECK(c.get() == raw, "the %s handler is given another connection", what);
	MC_CHECK(!closes, "the %s handler runs after the close handler", what);
}
static void on_message(TcpConnectionPtr c) {
	common(c, "message");
	mc::note("on_message ");
	if (part == 2) { receive(c.get()); return; }
	RingBuf& b = c->get_input_buf(); MC_CHECK(b.size(), "message handler without data");
	while (b.size()) { char ch = 0; b.memcpy_out(&ch, 1); if (ch == 'm') act(c.get(), a_msg); else if (ch == 'q') do_down(c.get()); else mc::fail("the handler sees byte %02x", (uint8_t)ch); }
}
static int accepted_bytes() { int n = 0; for (int i = 0; i < 8; i++) if (calls[i].used && !calls[i].rejected) n += calls[i].len; return n; }
static void on_complete(TcpConnectionPtr c) {
	common(c, "send-complete");
	mc::event(EV_SENDC); nsc++; mc::note("on_send_complete ");
	if (!senders && part != 2) {
		int n = 0; for (int i = 0; i < 8; i++) n += calls[i].used;
		MC_CHECK(nsc <= n, "send-complete handler called %d times for %d sends", nsc, n);
		if (!peer_ended) MC_CHECK(ngot + (int)simk::rx_len(peer) == accepted_bytes(), "send-complete called with %d bytes handed to the kernel, %d were sent", ngot + (int)simk::rx_len(peer), accepted_bytes());
	}
	int a = a_sc; a_sc = 0; act(c.get(), a);
}
static void on_close(TcpConnectionPtr c) {
	MC_CHECK(mc::self() == loop_tid, "the close handler runs on another thread");
	MC_CHECK(c.get() == raw, "the close handler is given another connection");
	MC_CHECK(!closes++, "the close handler runs a second time");
	MC_CHECK(c->get_state() == TcpConnection::kDisconnected, "state %d in the close handler", (int)c->get_state());
	mc::event(EV_CLOSE); mc::note("on_close ");
	if (with_stats && !peer_ended && !senders && !a_sc && part != 2) { auto w = c->get_write_statistics(); MC_CHECK((int)w.first == ngot + (int)simk::rx_len(peer), "write statistics count %zu bytes, %d were written", w.first, ngot + (int)simk::rx_len(peer)); }
	conn.reset();             // the application forgets the connection
	act(c.get(), a_close);
}
static int a_init;
static void loop_thread(void*) {
	L = Looper::create_looper(); loop_tid = mc::self();
	TcpConnectionPtr mine = std::make_shared<TcpConnection>(5, afd, L, nullptr); conn = mine; raw = mine.get();
	conn->set_on_message(on_message); conn->set_on_close(on_close); if (has_complete) conn->set_on_send_complete(on_complete);
	if (with_stats) { conn->start_read_statistics(1000000); conn->start_write_statistics(1000000); }
	if (held_by_app) keep = mine;
	for (int i = 0; i < senders; i++) held[i] = mine;
	mc::event(EV_READY);
	act(mine.get(), a_init); mine.reset();
	L->loop();
	conn.reset();
	Looper::destroy_looper(L); L = nullptr;
}
static int ev_first(int kind) { for (int i = 0; i < mc::event_count(); i++) if (mc::event_at(i).kind == kind) return i; return -1; }
static int ev_last(int kind) { for (int i = mc::event_count(); i-- > 0; ) if (mc::event_at(i).kind == kind) return i; return -1; }
static int ev_call(int kind, int id) { for (int i = 0; i < mc::event_count(); i++) if (mc::event_at(i).kind == kind && mc::event_at(i).a == id) return i; return -1; }
static bool drain() {   // true if something arrived
	bool any = false;
	for (;;) {
		if (got_eof || got_err) return any;
		long r = simk::recv_some(peer, got + ngot, sizeof got - ngot);
		if (r == -EAGAIN) return any;
		any = true;
		if (r == 0) got_eof = true; else if (r < 0) got_err = (int)-r; else ngot += (int)r;
	}
}
static void settle() { do mc::idle(); while (drain()); }
static void check_stream(bool graceful) {
	int order[16], n = 0; bool in[16] = {};
	for (int p = 0; p < ngot; ) {
		int id = (uint8_t)got[p] >> 4, j = got[p] & 15;
		MC_CHECK(j == 0, "byte %d of the stream is byte %d of call #%d: a call's data is torn apart or lost", p, j, id);
		MC_CHECK(calls[id].used && !in[id], "byte %d of the stream belongs to call #%d, which %s", p, id, in[id] ? "was delivered before" : "was never made");
		MC_CHECK(!calls[id].rejected, "call #%d was made when no longer connected, but its data is sent", id);
		int k = 1; while (k < calls[id].len && p + k < ngot && (uint8_t)got[p + k] == (id << 4 | k)) k++;
		MC_CHECK(k == calls[id].len || (p + k == ngot && !graceful), "only %d of the %d bytes of call #%d arrive in one piece", k, calls[id].len, id);
		in[id] = true; order[n++] = id; p += k;
	}
	for (int x = 0; x < n; x++) for (int y = x + 1; y < n; y++) {
		int r = ev_call(EV_RET, order[y]), s = ev_call(EV_START, order[x]);
		MC_CHECK(!(r >= 0 && r < s), "call #%d, made after call #%d, is delivered before it", order[x], order[y]);
	}
	int down = ev_first(EV_DOWN), closed = ev_first(EV_CLOSE);
	if (graceful) for (int i = 0; i < 16; i++) if (calls[i].used && !calls[i].rejected && !in[i]) {
		int r = ev_call(EV_RET, i), s = ev_call(EV_START, i); (void)s;
		MC_CHECK(!(r >= 0 && (down < 0 || r < down) && (closed < 0 || r < closed)), "call #%d was accepted but its data is never sent", i);
	}
	if (closed < 0 && has_complete) {
		int s = -1; for (int i = 0; i < 16; i++) if (in[i]) { int k = ev_call(EV_START, i); if (k > s) s = k; }
		MC_CHECK(s < 0 || ev_last(EV_SENDC) > s, "everything was handed to the kernel but the send-complete handler is not called");
	}
}
// ---- sender threads
static int script[2];
static void sender(void* a) {
	int i = (int)(intptr_t)a; TcpConnectionPtr c; c.swap(held[i]);
	switch (script[i]) {
	case 0: do_send(c.get(), 3, 8 + 4 * i); break;
	case 1: do_send(c.get(), 9, 8 + 4 * i); break;
	case 2: do_send(c.get(), 9, 8 + 4 * i); do_send(c.get(), 3, 8 + 4 * i); break;
	}
	(void)c->get_state(); 
}
static void late_use(TcpConnectionPtr& c, bool reuse) {   // after the close
	int p2 = -1, a2 = -1;
	if (reuse) { p2 = simk::peer_connect(PORT); a2 = simk::peer_accept(lfd); }
	char b[4] = {1, 2, 3, 4}; c->send(b, 4);
	mc::idle();
	MC_CHECK(c->get_state() == TcpConnection::kDisconnected, "state %d after the close", (int)c->get_state());
	if (reuse) { MC_CHECK(simk::is_open(a2), "the descriptor of another connection was closed"); MC_CHECK(!simk::rx_len(p2), "data sent on a closed connection goes to another one"); close(p2); close(a2); }
}
void mc_setup() {
	auto& c = mc::config(); part = mc::param("part", 0);
	c.preemptions = mc::param("P", 0); c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.horizon = 30000; c.refcount_points = mc::param("ref", 0);
	simk::opt().sock_cap = mc::param("cap", 5);
	simk::opt().short_write = mc::param("sw", 1); simk::opt().short_read = mc::param("sr", part == 2); simk::opt().spurious = mc::param("sp", 1); simk::opt().eintr = mc::param("eintr", 0);
}
static void setup_peer() {
	simk::quiet(true);
	lfd = simk::peer_listen(PORT); peer = simk::peer_connect(PORT); afd = simk::peer_accept(lfd);
	afile = simk::serial(afd); fcntl(peer, F_SETFL, O_NONBLOCK);
}
static void finish(TcpConnectionPtr* keep) {   // the connection must be closed by now
	MC_CHECK(closes == 1, "the connection has ended but the close handler was called %d times", closes);
	MC_CHECK(simk::serial(afd) != afile, "the connection is closed but its descriptor is not");
	if (keep) { late_use(*keep, true); }
	int how = keep ? mc::choose(2) : 0;
	if (how == 0 && keep) keep->reset();
	if (a_close != A_QUIT) L->push_stop_request();
	mc::join_all();
	if (how == 1) { char b[4] = {9, 9, 9, 9}; (*keep)->send(b, 4); (void)(*keep)->get_state(); keep->reset(); }   // the loop is gone, too
	close(peer); close(lfd);
	simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
}
static void graceful_end() {
	settle();
	if (!got_eof && !got_err && !closes) {
		MC_CHECK(!(simk::ready(peer) & EPOLLIN), "harness");
		if (ev_first(EV_DOWN) >= 0) mc::fail("shut down, everything read by the peer, but the connection is not closed");
		check_stream(true);
		simk::send_all(peer, "q", 1); settle();
	}
	MC_CHECK(got_eof && !got_err, "after a shutdown the peer sees %s instead of the end of the stream", got_err ? strerror(got_err) : "nothing");
	check_stream(true);
}
static void run_sends() {   // parts 0, 1, 3, 4
	bool c10 = part >= 3, thr = part == 1 || part == 4;
	senders = thr ? mc::param("senders", 1) : 0;
	has_complete = thr || mc::choose(2) == 0;
	with_stats = !thr && mc::param("stats", 1);
	static const int few[] = {A_NONE, A_3, A_9, A_9DOWN, A_DOWN};
	if (thr) { a_init = few[mc::choose(mc::param("inits", 3))]; a_msg = few[mc::choose(mc::param("msgs", 5))]; }
	else { a_init = mc::choose(NACT); a_msg = mc::choose(NACT); if (has_complete) a_sc = few[mc::choose(5)]; }
	if (c10) { static const int cl[] = {A_NONE, A_3, A_DOWN, A_QUIT}; a_close = cl[thr ? 3 * mc::choose(2) : mc::choose(3)]; }
	int end = c10 ? mc::choose(thr ? 3 : 4) : 0;      // 0 local, 1 peer closes, 2 reset, 3 half close
	int when = c10 ? mc::choose(3) : mc::choose(2);   // before anything was read, without waiting, after the data was read
	bool again = c10 && a_msg && mc::choose(2);
	held_by_app = c10 && (again || when == 1 || a_close == A_DOWN || mc::choose(2) == 0);   // else nobody but the loop holds the connection
	static const char* en[] = {"local shutdown", "peer closes", "reset", "peer half-closes"};
	mc::note("[end: %s, %d] ", en[end], when);
	for (int i = 0; i < senders; i++) { script[i] = mc::choose(3); }
	mark = mc::heap_mark();
	setup_peer();
	mc::spawn(loop_thread, nullptr);
	if (thr || c10) while (ev_first(EV_READY) < 0) mc::yield();
	for (int i = 0; i < senders; i++) mc::spawn(sender, (void*)(intptr_t)i);
	if (a_msg) { if (when == 2) settle(); simk::send_all(peer, "m", 1); }
	if (!c10) { if (when) settle(); if (!closes && !got_eof && a_msg && when) { simk::send_all(peer, "m", 1); } graceful_end(); }
	else {
		if (when == 2) settle(); else if (when == 0) mc::idle();
		if (again && !closes && !got_eof) simk::send_all(peer, "m", 1);
		if (end == 0) graceful_end();
		else {
			peer_ended = 1;
			if (end == 1) { close(peer); peer = -1; } else if (end == 2) simk::reset_conn(peer); else { ::shutdown(peer, SHUT_WR); }
			if (peer >= 0) settle(); else mc::idle();
			check_stream(false);
			if (peer < 0) peer = socket(AF_INET, SOCK_STREAM, 0);
		}
	}
	for (int i = 0; i < senders; i++) mc::join(2 + i);
	finish(held_by_app ? &::keep : nullptr);
}
static void run_receive() {
	static const size_t small[] = {1, 2, 5}, big[] = {1023, 1500, 67000};
	bool large = mc::param("large", 0); const size_t* sz = large ? big : small;
	has_complete = true; rmode = mc::choose(5);
	int n = 1 + mc::choose(mc::param("segs", 3)), seg[3], gap[3];
	for (int i = 0; i < n; i++) { seg[i] = (int)sz[mc::choose(3)]; gap[i] = mc::choose(2); }
	int end = mc::choose(3);
	mark = mc::heap_mark(); with_stats = mc::choose(2);
	simk::opt().sock_cap = 300000;
	setup_peer();
	mc::spawn(loop_thread, nullptr);
	std::string s;
	for (int i = 0; i < n; i++) {
		s.resize(seg[i]); for (int k = 0; k < seg[i]; k++) s[k] = pat(rsent + k);
		mc::note("[%d bytes] ", seg[i]);
		if (simk::serial(afd) != afile) break;
		rsent += seg[i];
		if (!simk::send_all(peer, s.data(), s.size())) break;
		if (gap[i]) mc::idle();
	}
	static const char* en[] = {"FIN", "half close", "RST"}; mc::note("[%s] ", en[end]);
	peer_ended = 1;
	if (end == 0) { close(peer); } else if (end == 1) ::shutdown(peer, SHUT_WR); else simk::reset_conn(peer);
	mc::idle();
	if (end < 2 && rmode != 4 && !(rmode == 3 && end == 0)) MC_CHECK(rseen == rsent, "%zu of the %zu bytes that arrived before the end reach the handler", rseen, rsent);
	if (with_stats) { }
	if (end == 0) peer = socket(AF_INET, SOCK_STREAM, 0);
	std::string().swap(s);
	finish(nullptr);
}
void mc_body() { set_log_threshold(L_MAXIMUM_LEVEL); if (part == 2) run_receive(); else run_sends(); }
