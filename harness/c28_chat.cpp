// C28: the chat and echo programs (samples/chat, samples/echo), run as they are.
#include <cy_core.h>
#include "mcrt.h"
#include "simk.h"
#include <errno.h>
#include <fcntl.h>
#include <istream>
#include <stdarg.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>
int chat_server_main(int, char**); int chat_client_main(int, char**); int echo_server_main(int, char**);
using namespace cyclone;
namespace cyclone { namespace sys_api { int32_t cpus(void); int32_t cpus(void) { return mc::param("threads", 1); } } }
enum { PORT = 1978, MAXC = 3 };
static void take(int fd, std::string& to, bool& eof) { char b[512]; while (!eof) { long r = simk::recv_some(fd, b, sizeof b); if (r == -EAGAIN) return; if (r <= 0) eof = true; else to.append(b, r); } }
static std::string packet(const std::string& p) { char h[4] = {(char)(p.size() >> 8), (char)p.size(), 0, 0}; return std::string(h, 4) + p; }
// ---- part 0: chat server
struct Msg { std::string body; int epoch; bool sure; int who; };
struct C { int fd; bool eof, deaf; std::string got, part; int born; };
static std::vector<Msg> msgs; static C cl[MAXC]; static int ncl, epoch, base_open; static bool ended;
static void run_chat(void*) { static char* a[] = {(char*)"chat", (char*)"-p", (char*)"1978", nullptr}; chat_server_main(3, a); mc::fail("the chat server ends"); }
static void run_echo(void*) { static char* a[] = {(char*)"echo", (char*)"-p", (char*)"1978", nullptr}; int r = echo_server_main(3, a); MC_CHECK(r == 0, "the echo server ends with %d", r); ended = true; }
static void drain(bool all) { for (int i = 0; i < ncl; i++) if (cl[i].fd >= 0 && (all || !cl[i].deaf)) take(cl[i].fd, cl[i].got, cl[i].eof); }
static void settle(bool all) { for (size_t b = 0, a = 1; a != b;) { mc::idle(); b = 0; for (int i = 0; i < ncl; i++) b += cl[i].got.size(); drain(all); a = 0; for (int i = 0; i < ncl; i++) a += cl[i].got.size(); } epoch++; }
static std::vector<std::vector<int>> seen;   // per client: which messages, in order
static void check_chat(bool all) {
	seen.assign(ncl, {});
	for (int i = 0; i < ncl; i++) {
		C& c = cl[i]; std::string g = c.got; size_t at = 0; std::vector<int> n(msgs.size(), 0);
		while (g.size() - at >= 4) {
			size_t len = (unsigned char)g[at] << 8 | (unsigned char)g[at + 1]; if (g.size() - at < 4 + len) break; int m = -1;
			if (len) m = (unsigned char)g[at + 4]; MC_CHECK(m >= 0 && m < (int)msgs.size() && g.compare(at + 4, len, msgs[m].body) == 0 && g[at + 2] == 0 && g[at + 3] == 0, "client %d receives a message nobody sent", i);
			MC_CHECK(!n[m]++, "client %d receives message %d twice", i, m); seen[i].push_back(m); at += 4 + len;
			MC_CHECK(msgs[m].epoch >= c.born, "client %d receives message %d, sent before it connected", i, m);
		}
		if (c.fd < 0 || (c.deaf && !all)) continue;
		MC_CHECK(at == g.size(), "client %d has received a piece of a message", i);
		MC_CHECK(!c.eof, "the server closes client %d", i);
		for (size_t m = 0; m < msgs.size(); m++) if (msgs[m].sure && msgs[m].epoch > c.born) MC_CHECK(n[m], "client %d does not receive message %zu", i, m);
	}
	for (int i = 0; i < ncl; i++) for (int j = 0; j < i; j++) {   // messages both have received are in the same order
		std::vector<int> pos(msgs.size(), -1); for (size_t k = 0; k < seen[j].size(); k++) pos[seen[j][k]] = (int)k;
		int last = -1; for (int m : seen[i]) if (pos[m] >= 0) { MC_CHECK(pos[m] > last, "clients %d and %d see the messages in different orders", j, i); last = pos[m]; }
	}
}
static void put(int fd, const std::string& o) { for (size_t at = 0, tries = 0; at < o.size() && tries < 5; tries++) { if (tries) mc::idle(); ssize_t r = send(fd, o.data() + at, o.size() - at, MSG_NOSIGNAL); if (r > 0) at += r; } }
static void lost(int i) { for (auto& m : msgs) if (m.epoch == epoch && m.who == i) m.sure = false; }
static void chat_step() {
	int k = mc::choose(7), i = 0; if (k) { if (!ncl) mc::discard_path(); i = ncl > 1 ? mc::choose(ncl) : 0; if (cl[i].fd < 0) mc::discard_path(); }
	static const char* nm[] = {"connect", "send", "send a piece", "send two", "close", "reset", "stop reading"}; mc::note("[%s %d] ", nm[k], i); C& c = cl[i];
	switch (k) {
	case 0: { if (ncl >= mc::param("clients", 3)) mc::discard_path(); C& q = cl[ncl]; q = C(); q.fd = simk::peer_connect(PORT); MC_CHECK(q.fd >= 0, "the server refuses a client"); fcntl(q.fd, F_SETFL, O_NONBLOCK); q.born = epoch; ncl++; break; }
	case 1: case 3: {
		std::string o;
		for (int j = 0; j < (k == 3 ? 2 : 1); j++) {
			if (!c.part.empty()) { o += c.part; c.part.clear(); for (auto& m : msgs) if (m.epoch == -1 - i) { m.epoch = epoch; m.sure = true; } continue; }
			Msg m; m.body = std::string(1, (char)msgs.size()) + std::string(mc::param("slow", 0) ? 11 : msgs.size() % 3 == 0 ? 0 : msgs.size() % 3 == 1 ? 3 : 300, (char)('a' + i)); m.epoch = epoch; m.sure = true; m.who = i; msgs.push_back(m); o += packet(m.body);
		}
		put(c.fd, o); break; }
	case 2: { if (!c.part.empty()) mc::discard_path(); Msg m; m.body = std::string(1, (char)msgs.size()) + "xyz"; m.who = i; m.epoch = -1 - i; m.sure = false; msgs.push_back(m); std::string o = packet(m.body); size_t cut = mc::choose(2) ? 3 : 6; put(c.fd, o.substr(0, cut)); c.part = o.substr(cut); break; }
	case 4: if (mc::param("slow", 0) || simk::rx_len(c.fd)) lost(i); close(c.fd); c.fd = -1; break;   // answers that arrive later reset the connection
	case 5: simk::reset_conn(c.fd); close(c.fd); c.fd = -1; lost(i); break;
	case 6: if (c.deaf || !mc::param("slow", 0)) mc::discard_path(); c.deaf = true; break;
	}
}
static void chat() {
	if (mc::param("slow", 0)) simk::opt().sock_cap = 24;
	mc::spawn(run_chat, nullptr); mc::idle(); base_open = simk::open_count();
	for (int i = mc::param("start", 0); i > 0; i--) { C& q = cl[ncl]; q = C(); q.fd = simk::peer_connect(PORT); fcntl(q.fd, F_SETFL, O_NONBLOCK); ncl++; mc::idle(); } epoch = 1;
	int n = mc::param("n", 4);
	for (int k = 0; k < n; k++) { if (k && !mc::choose(2)) break; chat_step(); if (mc::param("wait", 0) || mc::choose(2)) { settle(false); check_chat(false); } }
	settle(true); check_chat(true);
	for (int i = 0; i < ncl; i++) if (cl[i].fd >= 0) { close(cl[i].fd); cl[i].fd = -1; mc::idle(); }
	mc::idle(); if (simk::open_count() != base_open) { simk::dump(); mc::fail("%d descriptors are open after all clients have gone, %d before the first", simk::open_count(), base_open); }
	uint64_t o = 1; for (int i = 0; i < ncl; i++) for (int m : seen[i]) o = o * 31 + m; mc::outcome(o);
}
// ---- part 1: chat client
static int in_r, in_w; static std::vector<std::string> shown; static bool left_;
struct Keys : std::streambuf { char b[64]; int underflow() override { ssize_t r = read(in_r, b, sizeof b); if (r <= 0) return EOF; setg(b, b, b + r); return (unsigned char)b[0]; } };
static Keys& keys() { static Keys k; return k; }
namespace std { istream c28_in(&keys()); }
static bool in_client; extern "C" void __real_exit(int) __attribute__((noreturn)); extern "C" void __wrap_exit(int code) { if (!in_client) __real_exit(code); MC_CHECK(code == 0, "exit code %d", code); left_ = true; int p[2]; simk::quiet(true); if (pipe(p)) return; char c; for (;;) if (read(p[0], &c, 1) < 0) mc::sleep_us(1000000000); }
namespace cyclone { void c28_log(LOG_LEVEL level, const char* fmt, ...); void c28_log(LOG_LEVEL level, const char* fmt, ...) { if (level != L_INFO || strcmp(fmt, "%s")) return; va_list a; va_start(a, fmt); shown.push_back(va_arg(a, const char*)); va_end(a); } }
static void run_client(void*) { static char* a[] = {(char*)"chat", (char*)"-h", (char*)"127.0.0.1", (char*)"-p", (char*)"1978", nullptr}; chat_client_main(5, a); mc::fail("the chat client ends"); }
static void client() {
	int p[2]; MC_CHECK(!pipe(p), "harness"); in_r = p[0]; in_w = p[1];
	bool there = mc::choose(2); int lfd = there ? simk::peer_listen(PORT) : -1;
	in_client = true; mc::spawn(run_client, nullptr); mc::idle();
	std::vector<std::string> typed, want; std::string got, up, part; bool eof = false; int fd = -1;
	if (!there) { if (mc::choose(2)) { mc::idle_for(5100000); } lfd = simk::peer_listen(PORT); mc::idle_for(5100000); }
	MC_CHECK(simk::ready(lfd) & 1, "the client does not connect"); fd = simk::peer_accept(lfd); fcntl(fd, F_SETFL, O_NONBLOCK); mc::idle();
	static const size_t len[] = {1, 30, 255, 1022, 1023, 1024, 5000};
	int n = mc::param("n", 3);
	for (int k = 0; k < n; k++) {
		if (k && !mc::choose(2)) break;
		int op = mc::choose(5); static const char* nm[] = {"line", "message", "two messages", "piece", "end"}; mc::note("[%s] ", nm[op]);
		if (op == 0) { std::string l(mc::choose(2) ? 255 : 2, (char)('a' + typed.size())); if (mc::choose(2)) simk::send_all(in_w, "\n", 1); typed.push_back(l); l += "\n"; simk::send_all(in_w, l.data(), l.size()); }
		else if (op < 4) {
			std::string o = part; part.clear();
			if (o.empty() || op == 2) for (int j = 0; j < (op == 2 ? 2 : 1); j++) { std::string b(len[j ? 1 : mc::choose(7)], (char)('A' + want.size())); want.push_back(b); o += packet(b); }
			if (op == 3) { if (part.size() || o.empty()) mc::discard_path(); size_t cut = mc::choose(3) == 0 ? 2 : mc::choose(2) ? 4 : o.size() - 1; if (cut >= o.size()) mc::discard_path(); part = o.substr(cut); o.resize(cut); }
			simk::send_all(fd, o.data(), o.size());
		} else { close(fd); fd = -1; mc::idle(); MC_CHECK(left_, "the server has gone, the client goes on"); break; }
		if (mc::choose(2)) mc::idle();
	}
	mc::idle(); size_t whole = want.size() - (part.empty() ? 0 : 1);
	if (fd >= 0) {
		MC_CHECK(!left_, "the client ends"); take(fd, got, eof); mc::idle(); take(fd, got, eof); MC_CHECK(!eof, "the client closes the connection");
		for (auto& l : typed) up += packet(l); MC_CHECK(got == up, "the server receives %zu bytes, %zu were typed", got.size(), up.size());
		MC_CHECK(shown.size() == whole, "%zu messages are shown, %zu have arrived", shown.size(), whole);
	} else if (shown.size() > whole) mc::fail("%zu messages are shown, %zu have arrived", shown.size(), whole);
	for (size_t i = 0; i < shown.size(); i++) MC_CHECK(shown[i] == want[i], "message %zu is shown wrongly (%zu bytes instead of %zu)", i, shown[i].size(), want[i].size());
	mc::outcome(shown.size() * 8 + typed.size());
}
// ---- part 2: echo server
static void echo() {
	static int other; mc::spawn(run_echo, nullptr); mc::idle(); other = simk::open_count(); std::string want[MAXC]; bool gone[MAXC] = {false}; bool stopped = false;
	int n = mc::param("n", 4);
	for (int k = 0; k < n && !stopped; k++) {
		if (k && !mc::choose(2)) break;
		int op = mc::choose(5), i = 0; if (op) { if (!ncl) mc::discard_path(); i = ncl > 1 ? mc::choose(ncl) : 0; if (cl[i].fd < 0 || gone[i]) mc::discard_path(); }
		static const char* nm[] = {"connect", "text", "exit", "close", "shutdown"}; mc::note("[%s %d] ", nm[op], i); C& c = cl[i];
		static const size_t len[] = {1, 254, 255, 256, 511, 1000};
		switch (op) {
		case 0: { if (ncl >= 2) mc::discard_path(); C& q = cl[ncl]; q = C(); q.fd = simk::peer_connect(PORT); MC_CHECK(q.fd >= 0, "the server refuses a client"); fcntl(q.fd, F_SETFL, O_NONBLOCK); ncl++; break; }
		case 1: { std::string t(len[mc::choose(6)], 'q'); for (size_t j = 0; j < t.size(); j++) t[j] = (char)('a' + (want[i].size() + j) % 17); size_t cut = mc::choose(2) ? t.size() / 2 : 0; if (cut) simk::send_all(c.fd, t.data(), cut); simk::send_all(c.fd, t.data() + cut, t.size() - cut); for (char& ch : t) ch = (char)toupper(ch); want[i] += t; break; }
		case 2: simk::send_all(c.fd, "exit", 4); gone[i] = true; break;
		case 3: close(c.fd); c.fd = -1; break;
		case 4: simk::send_all(c.fd, "shutdown", 8); stopped = true; break;
		}
		settle(true);
		for (int j = 0; j < ncl; j++) if (cl[j].fd >= 0) { MC_CHECK(cl[j].got == want[j], "client %d gets %zu bytes back, %zu were expected", j, cl[j].got.size(), want[j].size()); MC_CHECK(cl[j].eof == (gone[j] || stopped), "client %d's connection is %s", j, cl[j].eof ? "closed" : "open"); }
		if (stopped) MC_CHECK(ended, "the server has been told to shut down, but goes on"); else MC_CHECK(!ended, "the server ends");
	}
	for (int j = 0; j < ncl; j++) if (cl[j].fd >= 0) close(cl[j].fd);
	mc::idle(); if (!stopped) { if (simk::open_count() != other) { simk::dump(); mc::fail("%d descriptors are open after all clients have gone, %d before the first", simk::open_count(), other); } }
	else if (simk::open_count()) { simk::dump(); mc::fail("%d descriptors are open after the server has ended", simk::open_count()); }
	mc::outcome(ncl * 2 + stopped);
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 0); c.env = mc::param("E", 0); c.total = mc::param("D", 1); c.horizon = 60000; simk::opt().order = mc::param("E", 0) > 0; }
void mc_body() { set_log_threshold(L_MAXIMUM_LEVEL); simk::quiet(true); int part = mc::param("part", 0); if (part == 0) chat(); else if (part == 1) client(); else echo(); }
