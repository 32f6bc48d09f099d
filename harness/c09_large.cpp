// C09: large messages on a connection, larger than the socket, the connection's buffers and any size a faster path may start at.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <algorithm>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
using namespace cyclone;
enum { PORT = 7000 };
static Looper* L; static TcpConnectionPtr conn, other; static int peer, afd, lfd, closes, nsc; static int64_t afile; static volatile bool ready;
static int n, where, down; static size_t len[4], base[4], total, handed, seen; static bool got_eof; static int got_err; static char buf[70000]; static uint64_t mark;
static char pat(size_t i) { return (char)(i * 7 + (i >> 8) * 13 + (i >> 16)); }
static void send_one(TcpConnection* c, int i) {
	char* p = new char[len[i]]; for (size_t k = 0; k < len[i]; k++) p[k] = pat(base[i] + k);
	mc::note("send(%zu) ", len[i]); handed = base[i] + len[i]; c->send(p, len[i]); memset(p, 0x5a, len[i]); delete[] p;
}
static void on_message(TcpConnectionPtr c) { c->get_input_buf().reset(); c->shutdown(); }
static void on_complete(TcpConnectionPtr c) {
	nsc++; MC_CHECK(where == 1 || seen + simk::rx_len(peer) == handed, "send-complete called with %zu bytes handed to the kernel, %zu were sent", seen + simk::rx_len(peer), handed);
	if (where == 2 && nsc < n && handed < total) { int i = 0; while (base[i] != handed) i++; send_one(c.get(), i); if (down == 0 && handed == total) c->shutdown(); }
}
static void on_close(TcpConnectionPtr) { MC_CHECK(!closes++, "the close handler runs a second time"); conn.reset(); }
static void loop_thread(void*) {
	L = Looper::create_looper();
	TcpConnectionPtr mine = std::make_shared<TcpConnection>(5, afd, L, nullptr); conn = mine;
	conn->set_on_message(on_message); conn->set_on_close(on_close); conn->set_on_send_complete(on_complete);
	if (where == 1) other = mine;
	ready = true;
	if (where == 0) { for (int i = 0; i < n; i++) send_one(mine.get(), i); if (down == 0) mine->shutdown(); }
	if (where == 2) { send_one(mine.get(), 0); if (n == 1 && down == 0) mine->shutdown(); }
	mine.reset(); L->loop(); conn.reset(); Looper::destroy_looper(L); L = nullptr;
}
static void sender(void*) { TcpConnectionPtr c; c.swap(other); for (int i = 0; i < n; i++) send_one(c.get(), i); }
static void settle(size_t piece) {
	for (;;) {
		mc::idle(); bool any = false;
		while (!got_eof && !got_err) {
			long r = simk::recv_some(peer, buf, piece); if (r == -EAGAIN) break;
			any = true; if (r == 0) { got_eof = true; break; } if (r < 0) { got_err = (int)-r; break; }
			MC_CHECK(seen + r <= total, "the peer receives %zu bytes, %zu were sent", seen + (size_t)r, total);
			for (long k = 0; k < r; k++) MC_CHECK(buf[k] == pat(seen + k), "byte %zu of the stream is %02x instead of %02x", seen + k, (uint8_t)buf[k], (uint8_t)pat(seen + k));
			seen += r; if (piece < sizeof buf && simk::rx_len(peer) < 100000) break;   // a slow reader lets the other side run in between
		}
		if (!any) return;
	}
}
void mc_setup() {
	auto& c = mc::config(); c.preemptions = mc::param("P", 0); c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.horizon = 200000;
	simk::opt().short_write = simk::opt().spurious = true;
}
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	static const int Z[] = { 1, 1023, 1024, 1025, 4096, 65535, 65536, 70000, 200000 }; static const int C[] = { 5000, 65536, 1000000 };
	int cap = C[mc::choose(3)]; bool slow = mc::choose(2); simk::opt().sock_cap = cap;
	n = 1 + mc::choose(mc::param("n", 2)); where = mc::choose(3); down = where == 1 ? 1 : mc::choose(2);
	for (int i = 0; i < n; i++) { len[i] = Z[mc::choose(9)]; base[i] = total; total += len[i]; }
	mc::note("[socket of %d, %s reader, %s] ", cap, slow ? "slow" : "fast", where == 0 ? "all at once" : where == 1 ? "from another thread" : "one after another");
	mark = mc::heap_mark(); simk::quiet(true); lfd = simk::peer_listen(PORT); peer = simk::peer_connect(PORT); afd = simk::peer_accept(lfd); afile = simk::serial(afd); fcntl(peer, F_SETFL, O_NONBLOCK);
	mc::spawn(loop_thread, nullptr);
	if (where == 1) { while (!ready) mc::yield(); mc::spawn(sender, nullptr); }
	settle(slow ? std::min<size_t>(sizeof buf - 1, 1000 + total / 8) : sizeof buf);
	MC_CHECK(seen == total && !got_err, "%zu of the %zu bytes sent arrive (error %d)", seen, total, got_err);
	if (down) MC_CHECK(nsc >= 1, "the send-complete handler is never called");
	if (down) { MC_CHECK(!got_eof && !closes, "closed without being told to"); simk::send_all(peer, "q", 1); settle(sizeof buf); }
	MC_CHECK(got_eof && closes == 1, "shut down, but %s", got_eof ? "the close handler does not run" : "the peer does not see the end");
	MC_CHECK(simk::serial(afd) != afile, "the descriptor is not closed");
	mc::outcome(seen);
	L->push_stop_request(); mc::join_all(); close(peer); close(lfd); simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
}
