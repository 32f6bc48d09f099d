// C26: the relay programs (samples/relay), run as they are: every session's bytes go through unaltered, and sessions end together.
#include <cy_core.h>
#include "mcrt.h"
#include "simk.h"
#include <errno.h>
#include <fcntl.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
namespace cyclone { void quiet_threshold(LOG_LEVEL) {} }   // stands in for the programs' set_log_threshold
int relay_server_main(int, char**); int relay_local_main(int, char**);
using namespace cyclone;
enum { DOWN = 2000, UP = 3000, TARGET = 4000, MAXC = 4, CAP = 300000 };
struct End { int fd; bool eof, shut; char got[CAP]; int ngot; char sent[CAP]; int nsent; int pair; };   // pair: which one of the other side it talks to, once known
static End cl[MAXC], tg[MAXC]; static int ncl, ntg, lfd = -1, enc, slow, base_open; static bool refused_any;
static char* args_s[] = {(char*)"s", (char*)"-p", (char*)"3000", (char*)"-up", (char*)"4000", (char*)"-t", (char*)"1", (char*)"-e", nullptr};
static char* args_l[] = {(char*)"l", (char*)"-p", (char*)"2000", (char*)"-up", (char*)"3000", (char*)"-t", (char*)"1", (char*)"-e", nullptr};
static void run_server(void*) { relay_server_main(enc ? 8 : 7, args_s); mc::fail("the relay server ends"); }
static void run_local(void*) { relay_local_main(enc ? 8 : 7, args_l); mc::fail("the local relay ends"); }
static void accept_new() {
	while (lfd >= 0 && simk::ready(lfd) & 1) { MC_CHECK(ntg < MAXC, "%d clients, but the target gets more connections", ncl); End& e = tg[ntg++]; e = End(); e.pair = -1; e.fd = simk::peer_accept(lfd); fcntl(e.fd, F_SETFL, O_NONBLOCK); }
}
static void drain(End& e) {
	if (e.fd < 0 || e.eof) return;
	for (;;) { long r = simk::recv_some(e.fd, e.got + e.ngot, CAP - e.ngot); if (r == -EAGAIN) return; if (r <= 0) { e.eof = true; return; } e.ngot += (int)r; MC_CHECK(e.ngot < CAP, "harness: too much data"); }
}
static void put(End& e, int who, bool target, int n) {   // every byte tells its sender and its place
	static char b[66000]; for (int i = 0; i < n; i++) b[i] = (char)((target ? 128 : 0) | who << 5 | ((e.nsent + i) & 31));
	ssize_t r = send(e.fd, b, n, MSG_NOSIGNAL); if (r <= 0) return;
	memcpy(e.sent + e.nsent, b, r); e.nsent += (int)r;
}
// what one end has received is what its partner sent, from the start
static void check_end(End* me, int i, End* other, int nother, bool target) {
	End& e = me[i]; if (!e.ngot) return;
	int tag = (unsigned char)e.got[0]; MC_CHECK((tag >> 7) == !target, "%s %d receives data that was sent the other way", target ? "target connection" : "client", i);
	int p = tag >> 5 & 3; MC_CHECK(p < nother, "%s %d receives bytes nobody sent", target ? "target connection" : "client", i);
	MC_CHECK(e.pair < 0 || e.pair == p, "%s %d receives the bytes of another session", target ? "target connection" : "client", i);
	MC_CHECK(other[p].pair < 0 || other[p].pair == i, "%s %d receives the bytes of another session", target ? "target connection" : "client", i);
	e.pair = p; other[p].pair = i;
	MC_CHECK(e.ngot <= other[p].nsent && !memcmp(e.got, other[p].sent, e.ngot), "%s %d receives other bytes than were sent", target ? "target connection" : "client", i);
}
static bool open_(End& e) { return e.fd >= 0 && !e.eof; }
static void check(bool take) {
	accept_new();
	for (;;) {   // the readers take what is there until nothing more comes
		int before = 0, after = 0; for (int i = 0; i < ncl; i++) before += cl[i].ngot + cl[i].eof; for (int i = 0; i < ntg; i++) before += tg[i].ngot + tg[i].eof;
		for (int i = 0; i < ncl; i++) drain(cl[i]); if (take || !slow) for (int i = 0; i < ntg; i++) drain(tg[i]);
		for (int i = 0; i < ncl; i++) after += cl[i].ngot + cl[i].eof; for (int i = 0; i < ntg; i++) after += tg[i].ngot + tg[i].eof;
		if (before == after) break;
		mc::idle(); accept_new();
	}
	for (int i = 0; i < ncl; i++) check_end(cl, i, tg, ntg, false);
	for (int i = 0; i < ntg; i++) check_end(tg, i, cl, ncl, true);
	if (slow && !take) return;
	int oc = 0, ot = 0;
	for (int i = 0; i < ncl; i++) oc += open_(cl[i]); for (int i = 0; i < ntg; i++) ot += open_(tg[i]);
	MC_CHECK(oc == ot, "%d clients are connected, and %d connections to the target", oc, ot);
	for (int i = 0; i < ncl; i++) if (cl[i].pair >= 0) {
		End &c = cl[i], &t = tg[c.pair];
		MC_CHECK(open_(c) == open_(t), "one side of session %d is open, the other is not", i);
		if (open_(c)) { MC_CHECK(t.ngot == c.nsent, "the target receives %d of %d bytes of client %d", t.ngot, c.nsent, i); }
		else if (t.fd >= 0 && mc::param("wait", 0)) MC_CHECK(t.ngot == c.nsent, "the target receives %d of the %d bytes client %d sent before it closed", t.ngot, c.nsent, i);
		if (c.fd >= 0) MC_CHECK(c.ngot == t.nsent, "client %d receives %d of the target's %d bytes", i, c.ngot, t.nsent);
	}
}
static void step() {
	int k = mc::choose(6), n = 0, i = 0; End* e = nullptr; bool t = k == 3 || k == 4;
	if (k >= 1 && k <= 4) {   // one end's turn
		if (t) { accept_new(); } n = t ? ntg : ncl; if (!n) mc::discard_path();
		i = n > 1 ? mc::choose(n) : 0; e = t ? &tg[i] : &cl[i]; if (e->fd < 0) mc::discard_path();
		if (e->eof && (k == 1 || k == 3)) mc::discard_path();
	}
	static const char* nm[] = {"connect", "client sends", "client closes", "target sends", "target closes", "target stops or starts listening"}; mc::note("[%s %d] ", nm[k], i);
	switch (k) {
	case 0: { if (ncl >= mc::param("clients", 2)) mc::discard_path(); End& c = cl[ncl]; c = End(); c.pair = -1; c.fd = simk::peer_connect(DOWN); MC_CHECK(c.fd >= 0, "the relay refuses a client"); fcntl(c.fd, F_SETFL, O_NONBLOCK); ncl++; if (lfd < 0) refused_any = true; break; }
	case 1: case 3: { static const int big[] = {16, 0xFEFF, 0xFF00, 0xFF01, 0xFF11}; put(*e, i, t, mc::param("big", 0) ? big[mc::choose(5)] : mc::choose(2) ? 17 : 3); break; }
	case 2: case 4: if (!slow || !t) drain(*e); close(e->fd); e->fd = -1; break;
	case 5: if (ncl > ntg && lfd >= 0) mc::discard_path(); if (lfd >= 0) { close(lfd); lfd = -1; } else lfd = simk::peer_listen(TARGET); break;
	}
}
// ---- part 1: the harness is the local relay, so that every packet sequence is possible
static int pfd = -1, nin; static unsigned char in_[2000]; static bool in_eof, shook, bad;
struct Ses { bool made, closed, told, maybe; char got[CAP]; int ngot; char sent[CAP]; int nsent; int t; } ses[4]; static int unknown_owed, unknown_may, unknown_told;
static void pk(std::string& o, int id, const void* p, int n) { char h[4] = {(char)(n >> 8), (char)n, (char)(id >> 8), (char)id}; o.append(h, 4); o.append((const char*)p, n); }
static void out(const std::string& o) {
	int cut = mc::choose(3); size_t k = cut == 0 ? o.size() : cut == 1 ? 3 : o.size() - 1; if (k > o.size()) k = o.size();
	for (size_t i = 0; i < o.size();) { ssize_t r = send(pfd, o.data() + i, i < k ? k - i : o.size() - i, MSG_NOSIGNAL); if (r > 0) i += r; else if (errno != EAGAIN) return; if (i < o.size()) mc::idle(); }
}
static void take_pipe() {
	while (!in_eof) { long r = simk::recv_some(pfd, in_ + nin, sizeof in_ - nin); if (r == -EAGAIN) break; if (r <= 0) { in_eof = true; break; } nin += (int)r; }
	int o = 0;
	while (nin - o >= 4) {
		int n = in_[o] << 8 | in_[o + 1], id = in_[o + 2] << 8 | in_[o + 3]; if (nin - o < 4 + n) break; const unsigned char* b = in_ + o + 4; int32_t sid = -1; if (n >= 4) memcpy(&sid, b, 4);
		if (id == 100) { MC_CHECK(!shook && n == 16, "a second handshake answer, or one of %d bytes", n); shook = true; for (int i = 0; i < 16; i++) MC_CHECK(b[i] == 0, "a key in plain mode"); }
		else if (id == 102) { MC_CHECK(n == 4 && shook, "a close message of %d bytes", n); if (sid >= 0 && sid < 3 && ses[sid].made && !ses[sid].told) { MC_CHECK(ses[sid].closed, "session %d is closed although both ends are open", sid); ses[sid].told = true; } else { MC_CHECK(unknown_told < unknown_owed + unknown_may, "a close message for session %d that nobody asked for", sid); unknown_told++; } }
		else if (id == 103) { int32_t sz = -1; if (n >= 8) memcpy(&sz, b + 4, 4); MC_CHECK(shook && sid >= 0 && sid < 3 && ses[sid].made && !ses[sid].told && sz == n - 8, "a forward message for session %d of %d bytes in %d", sid, sz, n); MC_CHECK(ses[sid].ngot + sz <= CAP, "harness"); memcpy(ses[sid].got + ses[sid].ngot, b + 8, sz); ses[sid].ngot += sz; }
		else mc::fail("a message %d comes down", id);
		o += 4 + n;
	}
	memmove(in_, in_ + o, nin - o); nin -= o;
}
static void check_raw(bool take) {
	accept_new(); if (take) for (int i = 0; i < ntg; i++) drain(tg[i]);
	for (int k = 0; k < 20; k++) { int b = nin; take_pipe(); mc::idle(); if (b == nin && k > 2) break; }
	if (!take) return;
	for (int k = 0; k < 20; k++) { int b = 0, a = 0; for (int i = 0; i < ntg; i++) { b += tg[i].ngot; drain(tg[i]); a += tg[i].ngot; } mc::idle(); if (a == b && k > 2) break; }
	MC_CHECK(in_eof == bad, "the connection to the local relay is %s", in_eof ? "closed" : "still open");
	for (int i = 0; i < 3; i++) { Ses& s = ses[i]; if (!s.made) continue;
		if (s.t < 0) { MC_CHECK(s.told || bad, "nobody is told that session %d could not be made", i); continue; }
		End& t = tg[s.t]; bool over = s.closed || bad;
		if (t.fd >= 0) { MC_CHECK(t.eof == over, "session %d is %s, its connection to the target is %s", i, over ? "over" : "open", t.eof ? "closed" : "open"); MC_CHECK(t.ngot == s.nsent && !memcmp(t.got, s.sent, t.ngot), "the target receives other bytes than were sent through session %d (%d of %d)", i, t.ngot, s.nsent); }
		else MC_CHECK(s.told || s.maybe || bad, "nobody is told that the target closed session %d", i);
		MC_CHECK(s.ngot <= t.nsent && !memcmp(s.got, t.sent, s.ngot), "other bytes come down through session %d than the target sent", i); if (!s.maybe && !bad) MC_CHECK(s.ngot == t.nsent, "%d of the target's %d bytes come down through session %d", s.ngot, t.nsent, i);
	}
	MC_CHECK(bad || unknown_told >= unknown_owed, "%d answers to %d messages for unknown sessions", unknown_told, unknown_owed);
}
static int nses;
static void raw_step() {
	int k = mc::choose(8); std::string o; int32_t i = 0; if (bad) mc::discard_path();
	if (k >= 1 && k <= 4) { if (!nses) mc::discard_path(); i = mc::choose(nses); }
	static const char* nm[] = {"new session", "forward", "close session", "target sends", "target closes", "forward to an unknown session", "unknown message", "down closes"}; mc::note("[%s %d] ", nm[k], i);
	Ses& s = ses[i];
	switch (k) {
	case 0: { if (nses >= 2) mc::discard_path(); i = nses++; Ses& q = ses[i]; q = Ses(); q.made = true; q.t = -1; pk(o, 101, &i, 4); bool on = mc::choose(2); if (on != (lfd >= 0)) { if (on) lfd = simk::peer_listen(TARGET); else { close(lfd); lfd = -1; } }
		if (mc::choose(2)) { int32_t f[2] = {i, 3}; std::string b((char*)f, 8); b.append("abc"); pk(o, 103, b.data(), 11); memcpy(q.sent, "abc", 3); q.nsent = 3; mc::note("(and forward) "); if (!on) { q.maybe = true; unknown_may++; } }
		out(o); mc::idle(); accept_new(); if (on) { q.t = ntg - 1; MC_CHECK(ntg == nses - (ses[0].t < 0 && i) , "no connection to the target is made"); } else q.closed = true; break; }
	case 1: { int32_t f[2] = {i, 5}; std::string b((char*)f, 8); b.append("vwxyz"); pk(o, 103, b.data(), 13); if (s.closed) unknown_owed++; else { memcpy(s.sent + s.nsent, "vwxyz", 5); s.nsent += 5; } out(o); break; }
	case 2: pk(o, 102, &i, 4); if (!s.closed) { s.maybe = true; s.closed = s.told = true; } out(o); break;
	case 3: if (s.t < 0 || tg[s.t].fd < 0 || tg[s.t].eof) mc::discard_path(); put(tg[s.t], i, true, 7); if (s.closed) s.maybe = true; break;
	case 4: if (s.t < 0 || tg[s.t].fd < 0) mc::discard_path(); drain(tg[s.t]); close(tg[s.t].fd); tg[s.t].fd = -1; if (!s.closed) s.closed = true; break;
	case 5: { int32_t f[2] = {77, 2}; std::string b((char*)f, 8); b.append("no"); pk(o, 103, b.data(), 10); unknown_owed++; out(o); break; }
	case 6: {
		int v = mc::choose(10); int32_t f[2] = {nses ? 0 : 5, 3}; bool live = nses && !ses[0].closed; mc::note("(kind %d) ", v); std::string b;
		switch (v) {
		case 0: pk(o, 104, "junk", 4); break; case 1: pk(o, 100, "junk", 4); break;
		case 2: f[1] = 1000; b.assign((char*)f, 8); b += "ab"; pk(o, 103, b.data(), 10); break;   // more than there is
		case 3: f[1] = 3; b.assign((char*)f, 8); b += "ab"; pk(o, 103, b.data(), 10); break;
		case 4: f[1] = -1; b.assign((char*)f, 8); b += "ab"; pk(o, 103, b.data(), 10); break;
		case 5: pk(o, 103, f, 4); break; case 6: pk(o, 102, f, 2); break; case 7: pk(o, 101, f, 3); break;
		case 8: pk(o, 102, f, 0); break;
		case 9: if (!live) mc::discard_path(); pk(o, 101, f, 4); break;   // a session that is there
		}
		bad = true; out(o); break; }
	case 7: simk::quiet(true); close(pfd); pfd = -1; in_eof = bad = true; break;
	}
}
static void run_raw() {
	enc = 0; lfd = simk::peer_listen(TARGET); slow = mc::param("slow", 0); if (slow) simk::opt().sock_cap = 6;
	mc::spawn(run_server, nullptr); mc::idle();
	base_open = simk::open_count() - 1;
	pfd = simk::peer_connect(UP); MC_CHECK(pfd >= 0, "the relay server does not listen"); fcntl(pfd, F_SETFL, O_NONBLOCK);
	std::string o; char key[16] = {0}; pk(o, 100, key, 16); out(o); for (int k = 0; k < 6; k++) { mc::idle(); take_pipe(); } MC_CHECK(shook, "no handshake answer");
	int n = mc::param("n", 4);
	for (int k = 0; k < n; k++) { if (k && !mc::choose(2)) break; raw_step(); mc::idle(); check_raw(!slow); }
	if (pfd >= 0) { close(pfd); pfd = -1; in_eof = bad = true; mc::idle(); } check_raw(true);
	for (int i = 0; i < ntg; i++) if (tg[i].fd >= 0) close(tg[i].fd);
	if (lfd >= 0) close(lfd); mc::idle();
	if (simk::open_count() != base_open) { simk::dump(); mc::fail("%d descriptors are open after all sessions have ended, %d before the first", simk::open_count(), base_open); }
	mc::outcome(nses * 4 + bad);
}
// ---- part 2: the harness is the relay server
struct Lc { int fd; bool eof, told, over, half; std::string got, want, up, sent; int id; }; static Lc lc[3]; static int nlc, closes_owed, closes_seen; static bool up_bad, hand; static std::string upb;
static void take_up() {
	if (pfd < 0) return;
	char b[1000]; for (;;) { long r = simk::recv_some(pfd, b, sizeof b); if (r == -EAGAIN) break; if (r <= 0) { in_eof = true; break; } upb.append(b, r); }
	while (upb.size() >= 4) {
		size_t n = (unsigned char)upb[0] << 8 | (unsigned char)upb[1]; int id = (unsigned char)upb[2] << 8 | (unsigned char)upb[3]; if (upb.size() < 4 + n) break; std::string m = upb.substr(4, n); upb.erase(0, 4 + n); int32_t sid = -1, sz = -1; if (n >= 4) memcpy(&sid, m.data(), 4); Lc* c = nullptr; for (int i = 0; i < nlc; i++) if (lc[i].id == sid && sid >= 0) c = &lc[i];
		if (id == 100) { MC_CHECK(n == 16 && !hand, "a handshake of %zu bytes", n); hand = true; }
		else if (id == 101) { MC_CHECK(n == 4 && !c, "session %d is announced twice", sid); int i = 0; while (i < nlc && lc[i].id >= 0) i++; MC_CHECK(i < nlc, "a session nobody began"); lc[i].id = sid; }
		else if (id == 103) { if (n >= 8) memcpy(&sz, m.data() + 4, 4); MC_CHECK(c && sz == (int)n - 8, "a forward message for session %d with %d of %zu bytes", sid, sz, n); c->up += m.substr(8); }
		else if (id == 102) { if (c && !c->told && (c->fd < 0)) c->told = true; else { MC_CHECK(closes_seen < closes_owed, "session %d is closed, nobody asked for it", sid); closes_seen++; } }
		else mc::fail("a message %d comes up", id);
	}
}
static void check_local() {
	for (int k = 0; k < 3; k++) { mc::idle(); take_up(); for (int i = 0; i < nlc; i++) if (lc[i].fd >= 0 && !lc[i].eof) { char b[500]; for (;;) { long r = simk::recv_some(lc[i].fd, b, sizeof b); if (r == -EAGAIN) break; if (r <= 0) { lc[i].eof = true; break; } lc[i].got.append(b, r); } } }
	if (pfd >= 0) MC_CHECK(in_eof == up_bad, "the connection to the relay server is %s", in_eof ? "closed" : "open");
	for (int i = 0; i < nlc; i++) { Lc& c = lc[i]; if (!up_bad) MC_CHECK(c.id >= 0, "client %d has no session", i);
		if (c.fd >= 0) { bool over = c.over || up_bad; MC_CHECK(c.eof == over, "client %d's session is %s, its connection is %s", i, over ? "over" : "open", c.eof ? "closed" : "open"); MC_CHECK(c.got == c.want, "client %d receives %zu bytes of %zu", i, c.got.size(), c.want.size()); }
		else if (!up_bad && !c.over) MC_CHECK(c.told, "client %d has closed, the relay server is not told", i);
		if (!up_bad) MC_CHECK(c.up == c.sent, "%zu of client %d's %zu bytes come up", c.up.size(), i, c.sent.size()); }
	if (!up_bad) MC_CHECK(closes_seen == closes_owed, "%d answers to %d messages for unknown sessions", closes_seen, closes_owed);
}
static void run_raw_local() {
	enc = 0; int ul = simk::peer_listen(UP); mc::spawn(run_local, nullptr); mc::idle(); MC_CHECK(simk::ready(ul) & 1, "the local relay does not connect");
	pfd = simk::peer_accept(ul); fcntl(pfd, F_SETFL, O_NONBLOCK); mc::idle(); take_up(); MC_CHECK(hand, "no handshake");
	if (mc::choose(2)) { int f = simk::peer_connect(DOWN); fcntl(f, F_SETFL, O_NONBLOCK); mc::idle(); char b; long r = simk::recv_some(f, &b, 1); MC_CHECK(r == 0, "a client before the handshake is not sent away"); close(f); mc::idle(); mc::note("[early client] "); }
	char key[17] = {0}; std::string o; int hs = mc::choose(4); mc::note("[handshake %d] ", hs); base_open = simk::open_count();
	if (hs == 0) pk(o, 100, key, 16); else if (hs == 1) pk(o, 101, key, 16); else if (hs == 2) pk(o, 100, key, 15); else { memset(key, 7, 16); pk(o, 100, key, 16); }
	out(o); if (hs) up_bad = true; check_local();
	int n = mc::param("n", 3);
	for (int k = 0; k < n; k++) {
		if (k && !mc::choose(2)) break;
		int op = mc::choose(8), i = 0; if (op == 1 || op == 2 || op == 3 || op == 4) { if (!nlc) mc::discard_path(); i = nlc > 1 ? mc::choose(nlc) : 0; }
		static const char* nm[] = {"client", "client sends", "client closes", "forward", "close session", "unknown session", "bad message", "server goes"}; mc::note("[%s %d] ", nm[op], i); o.clear(); Lc& c = lc[i]; int32_t f[2] = {c.id, 6}; std::string b((char*)f, 8); b += "abcdef";
		if (up_bad && op > 2) mc::discard_path();
		switch (op) {
		case 0: { if (nlc >= 2) mc::discard_path(); int fd = simk::peer_connect(DOWN); MC_CHECK(fd >= 0, "no connection"); fcntl(fd, F_SETFL, O_NONBLOCK); Lc& q = lc[nlc++]; q = Lc(); q.fd = fd; q.id = -1; break; }
		case 1: if (c.fd < 0 || c.eof) mc::discard_path(); { std::string t(mc::choose(2) ? 20 : 1, (char)('a' + i)); simk::send_all(c.fd, t.data(), t.size()); c.sent += t; } break;
		case 2: if (c.fd < 0) mc::discard_path(); close(c.fd); c.fd = -1; break;
		case 3: if (c.over || c.fd < 0) closes_owed++; else c.want += "abcdef"; pk(o, 103, b.data(), 14); out(o); break;
		case 4: if (c.over || c.fd < 0) mc::discard_path(); c.over = true; pk(o, 102, f, 4); if (mc::choose(2)) { std::string p; pk(p, 103, b.data(), 14); o = p + o; c.want += "abcdef"; } out(o); break;
		case 5: f[0] = 4711; if (mc::choose(2)) { b.replace(0, 4, (char*)f, 4); pk(o, 103, b.data(), 14); closes_owed++; } else pk(o, 102, f, 4); out(o); break;
		case 6: { int v = mc::choose(6); mc::note("(kind %d) ", v); f[0] = nlc ? lc[0].id : 0; if (v == 0) pk(o, 99, "junk", 4); else if (v == 1) pk(o, 101, f, 4); else if (v == 2) pk(o, 102, f, 3); else if (v == 3) pk(o, 103, f, 7); else { f[1] = v == 4 ? 7 : -1; b.replace(0, 8, (char*)f, 8); pk(o, 103, b.data(), 14); } out(o); up_bad = true; break; }
		case 7: simk::quiet(true); close(pfd); pfd = -1; up_bad = true; break;
		}
		mc::idle(); check_local();
	}
	for (int i = 0; i < nlc; i++) if (lc[i].fd >= 0) { close(lc[i].fd); lc[i].fd = -1; mc::idle(); } check_local();
	if (pfd >= 0) { close(pfd); pfd = -1; up_bad = true; mc::idle(); }
	int want = base_open - 2; if (simk::open_count() != want) { simk::dump(); mc::fail("%d descriptors are open after everybody has gone, %d should be", simk::open_count(), want); }
	mc::outcome(nlc * 2 + up_bad);
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 0); c.env = mc::param("E", 0); c.total = mc::param("D", 1); c.horizon = 60000; simk::opt().reset = false; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL); simk::quiet(true); if (mc::param("raw", 0) == 2) { run_raw_local(); return; } if (mc::param("raw", 0)) { run_raw(); return; }
	enc = mc::choose(2); slow = mc::param("slow", 0); if (slow) simk::opt().sock_cap = 16;
	lfd = simk::peer_listen(TARGET);
	mc::spawn(run_server, nullptr); mc::idle();
	mc::spawn(run_local, nullptr); mc::idle();
	base_open = simk::open_count() - 1;
	int n = mc::param("n", 4);
	for (int k = 0; k < n; k++) { if (k && !mc::choose(2)) break; step(); if (mc::param("wait", 0) || mc::choose(2)) { mc::idle(); check(false); } }
	mc::idle(); check(true);
	for (int i = 0; i < ncl; i++) if (cl[i].fd >= 0) { close(cl[i].fd); cl[i].fd = -1; }
	mc::idle(); check(true);
	for (int i = 0; i < ntg; i++) { MC_CHECK(tg[i].fd < 0 || tg[i].eof, "all clients are gone, a connection to the target is left"); if (tg[i].fd >= 0) close(tg[i].fd); }
	if (lfd >= 0) close(lfd);
	mc::idle();
	if (simk::open_count() != base_open) { simk::dump(); mc::fail("%d descriptors are open after all sessions have ended, %d before the first", simk::open_count(), base_open); }
	uint64_t o = 1; for (int i = 0; i < ncl; i++) o = o * 31 + cl[i].ngot; for (int i = 0; i < ntg; i++) o = o * 31 + tg[i].ngot; mc::outcome(o);
}
