// C11: data of every size sent while connecting arrives first, whole and once, also after retries.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "mcrt.h"
#include "simk.h"
#include <algorithm>
#include <sys/socket.h>
#include <fcntl.h>
#include <unistd.h>
using namespace cyclone;
enum { PORT = 7100 };
static Looper* L; static TcpClientPtr cli; static int natt, fails, nver, nclosed, nbefore, nafter, done; static size_t len[6], base[7], seen; static char buf[70000]; static uint64_t mark;
static char pat(size_t i) { return (char)(i * 7 + (i >> 8) * 13 + (i >> 16)); }
static simk::Plan plan(const sockaddr_in&, int) { simk::Plan p; bool ok = natt++ >= fails; p.kind = ok ? simk::P_ASYNC_OK : simk::P_ASYNC_ERR; p.err = ECONNREFUSED; p.delay_us = 3000; return p; }
static void send_next() { int i = done++; char* p = new char[len[i]]; for (size_t k = 0; k < len[i]; k++) p[k] = pat(base[i] + k); mc::note("send(%zu) ", len[i]); cli->send(p, len[i]); memset(p, 0x5a, len[i]); delete[] p; }
static uint32_t on_connected(TcpClientPtr, TcpConnectionPtr, bool ok) {
	nver++; mc::note("connected(%d) ", ok);
	if (!ok) { if (done < nbefore) send_next(); return 5; }
	while (done < nbefore + nafter) send_next();
	return 0;
}
static void on_close(TcpClientPtr, TcpConnectionPtr) { nclosed++; }
static void loop_thread(void*) {
	L = Looper::create_looper(); cli = std::make_shared<TcpClient>(L, nullptr);
	cli->m_listener.on_connected = on_connected; cli->m_listener.on_close = on_close; cli->m_listener.on_message = [](TcpClientPtr, TcpConnectionPtr c) { c->get_input_buf().reset(); cli->disconnect(); };
	MC_CHECK(cli->connect(Address("127.0.0.1", (uint16_t)PORT)), "connect fails");
	while (done < (fails ? std::max(1, nbefore - 1) : nbefore)) send_next();
	L->loop(); cli.reset(); Looper::destroy_looper(L);
}
void mc_setup() { auto& c = mc::config(); c.preemptions = 0; c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.early_time = 0; c.horizon = 200000; simk::opt().short_write = simk::opt().spurious = true; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	static const int Z[] = { 1, 1023, 1024, 1025, 4097, 65535, 65536, 70000 }, C[] = { 5000, 65536, 1000000 }; simk::opt().sock_cap = C[mc::choose(3)];
	fails = mc::choose(2); nbefore = 1 + mc::choose(mc::param("n", 2)); nafter = mc::choose(2); int n = nbefore + nafter; size_t total = 0;
	for (int i = 0; i < n; i++) { len[i] = Z[mc::choose(8)]; base[i] = total; total += len[i]; }
	simk::connect_plan = plan; mark = mc::heap_mark(); simk::quiet(true); int lfd = simk::peer_listen(PORT), peer = -1;
	mc::spawn(loop_thread, nullptr);
	mc::idle_for(30000);
	MC_CHECK(nver == fails + 1 && natt == fails + 1, "%d notifications, %d attempts", nver, natt);
	peer = simk::peer_accept(lfd); fcntl(peer, F_SETFL, O_NONBLOCK); bool eof = false, asked = false;
	for (;;) {
		mc::idle(); bool any = false;
		for (;;) { long r = simk::recv_some(peer, buf, sizeof buf); if (r == -EAGAIN || eof) break; any = true; if (r == 0) { eof = true; break; } MC_CHECK(r > 0, "error %ld", -r);
			MC_CHECK(seen + r <= total, "the peer receives %zu bytes, %zu were sent", seen + (size_t)r, total);
			for (long k = 0; k < r; k++) MC_CHECK(buf[k] == pat(seen + k), "byte %zu of the stream is %02x instead of %02x", seen + k, (uint8_t)buf[k], (uint8_t)pat(seen + k)); seen += r; }
		if (any) continue;
		if (asked) break;
		MC_CHECK(seen == total, "%zu of the %zu bytes sent arrive", seen, total); asked = true; simk::send_all(peer, "q", 1);
	}
	MC_CHECK(eof && nclosed == 1, "told to disconnect, but %s", eof ? "the close handler does not run" : "the peer does not see the end"); mc::outcome(seen);
	L->push_stop_request(); mc::join_all(); close(peer); close(lfd); simk::quiet(false);
	if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are left open", simk::open_count()); }
	if (mc::heap_live_since(mark)) { mc::heap_dump(mark); mc::fail("%d heap blocks are left", mc::heap_live_since(mark)); }
}
