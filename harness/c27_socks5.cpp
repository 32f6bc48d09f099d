// C27: the SOCKS5 server program (samples/socks5), run as it is: every client gets the answers of the protocol and its own target's bytes.
#include <cy_core.h>
#include "mcrt.h"
#include "simk.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
int s5_main(int, char**);
using namespace cyclone;
enum { PORT = 1984, TARGET = 4000, MAXC = 4, CAP = 600 };
enum { OK, REFUSED, AT_ONCE, UNREACHABLE, LATE_OK, LATE_ERR, NPLAN };
struct C { int fd; bool eof; std::string got, sent; int stage; bool dead, failed, pending, fuzzy; int t, plan, form; std::string msg; bool again; };   // stage: 0 opening, 1 greeted, 2 requested, 3 answered
struct T { int fd; bool eof; std::string got, sent; int c; };
static C cl[MAXC]; static T tg[MAXC]; static int ncl, ntg, lfd = -1, slow, base_open, next_plan = OK; static bool dns;
static char th[4] = "1"; static char* args_[] = {(char*)"s5", (char*)"-p", (char*)"1984", (char*)"-t", th, nullptr};
static void run(void*) { s5_main(5, args_); mc::fail("the server ends"); }
static addrinfo g_ai; static sockaddr_in g_sa;
extern "C" int __wrap_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo** res) {
	if (!dns) return EAI_NONAME;
	memset(&g_ai, 0, sizeof g_ai); g_sa.sin_family = AF_INET; g_sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); g_ai.ai_family = AF_INET; g_ai.ai_addr = (sockaddr*)&g_sa; g_ai.ai_addrlen = sizeof g_sa; *res = &g_ai; return 0;
}
extern "C" void __wrap_freeaddrinfo(addrinfo*) {}
static simk::Plan plan(const sockaddr_in&, int) {
	simk::Plan p;
	switch (next_plan) {
	case OK: case REFUSED: break;
	case AT_ONCE: p.kind = simk::P_IMMEDIATE; break;
	case UNREACHABLE: p.kind = simk::P_SYNC_ERR; p.err = ENETUNREACH; break;
	case LATE_OK: p.kind = simk::P_ASYNC_OK; p.delay_us = 50000; break;
	case LATE_ERR: p.kind = simk::P_ASYNC_ERR; p.err = EHOSTUNREACH; p.delay_us = 50000; break;
	}
	return p;
}
static const std::string HELLO("\x05\x00", 2);
static std::string answer(int code) { char b[10] = {5, (char)code, 0, 1, 127, 0, 0, 1, (char)(TARGET >> 8), (char)(TARGET & 255)}; return std::string(b, 10); }
static bool take(int fd, std::string& to) {   // true at the end
	char b[256]; for (;;) { long r = simk::recv_some(fd, b, sizeof b); if (r == -EAGAIN) return false; if (r <= 0) return true; to.append(b, r); MC_CHECK(to.size() < CAP, "harness: too much data"); }
}
static void accept_new() {   // connections are made one at a time, so that it is known whose they are
	while (lfd >= 0 && simk::ready(lfd) & 1) {
		int who = -1; for (int i = 0; i < ncl; i++) if (cl[i].pending && cl[i].t < 0 && (cl[i].plan == OK || cl[i].plan == AT_ONCE || cl[i].plan == LATE_OK)) { who = i; break; }
		MC_CHECK(who >= 0 && ntg < MAXC, "the target gets a connection nobody asked for"); T& t = tg[ntg]; t = T(); t.c = who; cl[who].t = ntg++;
		t.fd = simk::peer_accept(lfd); fcntl(t.fd, F_SETFL, O_NONBLOCK);
	}
}
static void drain(bool all) {
	for (int i = 0; i < ncl; i++) if (cl[i].fd >= 0 && !cl[i].eof && (all || !(slow & 2) || cl[i].got.size() < 12)) cl[i].eof = take(cl[i].fd, cl[i].got);
	if (all || !(slow & 1)) for (int i = 0; i < ntg; i++) if (tg[i].fd >= 0 && !tg[i].eof) tg[i].eof = take(tg[i].fd, tg[i].got);
}
static size_t total() { size_t n = 0; for (int i = 0; i < ncl; i++) n += cl[i].got.size() + cl[i].eof; for (int i = 0; i < ntg; i++) n += tg[i].got.size() + tg[i].eof; return n; }
static void check(bool all) {
	accept_new(); if (!slow) all = true;
	for (size_t b = total(), a;; b = a) { drain(all); mc::idle(); accept_new(); a = total(); if (a == b) break; }
	for (int i = 0; i < ncl; i++) {
		C& c = cl[i]; T* t = c.t >= 0 ? &tg[c.t] : nullptr; std::string want; bool known = true;
		if (c.stage >= 1) want = HELLO;
		if (c.stage >= 2 && !c.dead) {
			if (c.plan == REFUSED || c.plan == UNREACHABLE || (c.plan == LATE_ERR && !c.pending)) c.failed = true;
			if (c.failed) { bool at = c.got.size() >= 4 && c.got[3] != 0; want += answer(at ? c.got[3] : 4); }
			else if (c.plan == OK || c.plan == AT_ONCE || (c.plan == LATE_OK && !c.pending)) { if (c.fd >= 0) MC_CHECK(t, "client %d's request was good, but the target is not connected", i); want += answer(0); if (t) want += t->sent; else known = false; }
		}
		(void)known;
		if (c.fd >= 0 && !c.fuzzy && !all && (slow & 2)) {} else if (c.fd >= 0 && !c.fuzzy) {
			MC_CHECK(c.got == want, "client %d has received %zu bytes, %s", i, c.got.size(), c.got.size() < want.size() && !want.compare(0, c.got.size(), c.got) ? "some are missing" : "not the right ones");
			bool over = c.dead || c.failed || (t && t->fd < 0);
			MC_CHECK(c.eof == over, "client %d's connection is %s", i, over ? "still open" : "closed");
		} else { MC_CHECK(!want.compare(0, c.got.size(), c.got) || c.fuzzy, "client %d has received wrong bytes", i); if (c.dead && c.fd >= 0) MC_CHECK(c.eof, "client %d sent nonsense, but is still connected", i); }
		if (t && t->fd >= 0 && (all || !(slow & 1))) {
			MC_CHECK(t->got == c.sent.substr(0, t->got.size()), "the target receives other bytes than client %d sent", i);
			if (!c.fuzzy) MC_CHECK(t->got == c.sent, "the target receives %zu of client %d's %zu bytes", t->got.size(), i, c.sent.size());
			MC_CHECK(t->eof == (c.fd < 0), "client %d is %s, its connection to the target is %s", i, c.fd < 0 ? "gone" : "there", t->eof ? "closed" : "open");
		}
	}
}
static bool put(C& c) {   // the rest of c.msg, whole or in two pieces; false: the last piece is kept for a later step
	const std::string m = c.msg; if (!c.again) { int k = mc::choose(4); size_t cut = k == 1 ? 1 : k == 2 ? m.size() - 1 : k == 3 ? 3 : 0; if (k == 3 && m.size() <= 4) mc::discard_path();
		if (cut) { mc::note("(%zu first) ", cut); simk::send_all(c.fd, m.data(), cut); mc::idle(); c.msg = m.substr(cut); if (mc::choose(2)) { c.again = true; mc::note("(no more) "); return false; } } }
	return true;
}
static void rest(C& c) { simk::send_all(c.fd, c.msg.data(), c.msg.size()); c.msg.clear(); c.again = false; }
static void step() {
	int k = mc::choose(7), i = 0; bool tk = k == 4 || k == 5;
	if (k >= 1 && k <= 5) { int n = tk ? ntg : ncl; if (!n) mc::discard_path(); i = n > 1 ? mc::choose(n) : 0; if ((tk ? tg[i].fd : cl[i].fd) < 0) mc::discard_path(); }
	static const char* nm[] = {"connect", "client's next message", "client sends nonsense", "client closes", "target sends", "target closes", "time passes"}; mc::note("[%s %d] ", nm[k], i);
	C& c = cl[i]; T& t = tg[i];
	switch (k) {
	case 0: { if (ncl >= mc::param("clients", 2)) mc::discard_path(); C& q = cl[ncl]; q = C(); q.t = -1; q.fd = simk::peer_connect(PORT); MC_CHECK(q.fd >= 0, "the server refuses a client"); fcntl(q.fd, F_SETFL, O_NONBLOCK); ncl++; break; }
	case 1:
		drain(false); if (c.eof || c.dead || (c.stage == 1 && c.got.size() < HELLO.size())) mc::discard_path();
		if (c.stage == 0) { if (!c.again) c.msg = mc::choose(2) ? std::string("\x05\x03\x01\x00\x02", 5) : std::string("\x05\x01\x00", 3); if (put(c)) { rest(c); c.stage = 1; } }
		else if (c.stage == 1) {
			if (!c.again) {
				c.plan = mc::choose(NPLAN); c.form = mc::choose(3); bool plain = c.plan == OK || c.plan == REFUSED; if (c.form && !plain) mc::discard_path(); if (mc::param("order", 0) && (c.form || !plain)) mc::discard_path();
				mc::note("(target %s, %s) ", c.plan == OK ? "accepts" : c.plan == REFUSED ? "refuses" : c.plan == AT_ONCE ? "connects at once" : c.plan == UNREACHABLE ? "is unreachable" : c.plan == LATE_OK ? "accepts later" : "fails later", c.form == 0 ? "address" : c.form == 1 ? "name" : "unknown name");
				char port[2] = {(char)(TARGET >> 8), (char)(TARGET & 255)}; c.msg = c.form ? std::string("\x05\x01\x00\x03\x04host", 9) : std::string("\x05\x01\x00\x01\x7f\x00\x00\x01", 8); c.msg.append(port, 2);
			}
			if (!put(c)) break;
			next_plan = c.plan; dns = c.form != 2; bool listen = c.plan != REFUSED;
			if (listen != (lfd >= 0)) { for (int j = 0; j < ncl; j++) if (cl[j].pending) mc::discard_path(); if (!listen) { close(lfd); lfd = -1; } else lfd = simk::peer_listen(TARGET); }
			c.pending = true; c.stage = 2; rest(c); mc::idle(); accept_new();
			if (c.form == 2) { c.dead = true; c.pending = false; c.stage = 1; c.fuzzy = true; }
			else if (c.plan != LATE_OK && c.plan != LATE_ERR) c.pending = false;
		} else { if (c.failed) mc::discard_path(); char b[40]; int n = mc::choose(2) ? slow ? 40 : 17 : 3, at = 0; for (int j = 0; j < n; j++) b[j] = (char)(32 * i + (c.sent.size() + j) % 32); for (int tries = 0; at < n && tries < 3; tries++) { if (tries) mc::idle(); long r = send(c.fd, b + at, n - at, MSG_NOSIGNAL); if (r > 0) at += (int)r; } c.sent.append(b, at); }
		break;
	case 2: { if (c.eof || c.dead || c.stage > 1 || c.again || (c.stage == 1 && c.got.size() < HELLO.size())) mc::discard_path(); int v = mc::choose(3); static const char* bad0[] = {"GET", "\x04\x01\x01", "\x05\x01\x02"}; static const char* bad1[] = {"\x05\x02\x01\x01\x7f\x01\x01\x01\x01\x01", "\x05\x01\x01\x04\x7f\x01\x01\x01\x01\x01", "GET / HTTP"};
		simk::send_all(c.fd, c.stage ? bad1[v] : bad0[v], c.stage ? 10 : 3); c.dead = true; c.fuzzy = true; break; }
	case 3: drain(!slow); close(c.fd); c.fd = -1; break;
	case 4: { if (t.eof || cl[t.c].fd < 0) mc::discard_path(); char b[40]; int n = mc::choose(2) ? slow ? 40 : 17 : 3, at = 0; for (int j = 0; j < n; j++) b[j] = (char)(128 + 32 * t.c + (t.sent.size() + j) % 32); for (int tries = 0; at < n && tries < 3; tries++) { if (tries) mc::idle(); long r = send(t.fd, b + at, n - at, MSG_NOSIGNAL); if (r > 0) at += (int)r; } t.sent.append(b, at); break; }
	case 5: if (!slow) drain(true); close(t.fd); t.fd = -1; break;
	case 6: { bool any = false; for (int j = 0; j < ncl; j++) any |= cl[j].pending; if (!any) mc::discard_path(); mc::idle_for(60000); accept_new(); for (int j = 0; j < ncl; j++) cl[j].pending = false; break; }
	}
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 0); c.env = mc::param("E", 0); c.total = mc::param("D", 1); c.horizon = 60000; simk::opt().reset = false; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL); simk::quiet(true); slow = mc::param("slow", 0); if (slow) simk::opt().sock_cap = 16;
	th[0] = (char)('0' + mc::param("threads", 1)); simk::connect_plan = plan;
	lfd = simk::peer_listen(TARGET);
	mc::spawn(run, nullptr); mc::idle();
	base_open = simk::open_count() - 1;
	int n = mc::param("n", 4); bool wait = mc::param("wait", 0);
	for (int k = 0; k < n; k++) { if (k && !mc::choose(2)) break; step(); if (wait || mc::choose(2)) { mc::idle(); check(false); } }
	mc::idle_for(60000); accept_new(); for (int j = 0; j < ncl; j++) cl[j].pending = false;
	mc::idle(); check(true);
	for (int i = 0; i < ncl; i++) if (cl[i].fd >= 0) { close(cl[i].fd); cl[i].fd = -1; }
	mc::idle(); check(true);
	for (int i = 0; i < ntg; i++) if (tg[i].fd >= 0) { MC_CHECK(tg[i].eof, "all clients are gone, a connection to the target is left"); close(tg[i].fd); }
	if (lfd >= 0) close(lfd);
	mc::idle();
	if (simk::open_count() != base_open) { simk::dump(); mc::fail("%d descriptors are open after all clients have gone, %d before the first", simk::open_count(), base_open); }
	uint64_t o = 1; for (int i = 0; i < ncl; i++) o = o * 31 + cl[i].got.size(); for (int i = 0; i < ntg; i++) o = o * 31 + tg[i].got.size(); mc::outcome(o);
}
