// C24: addresses and name resolution against their bytes.
#include <cy_core.h>
#include <cy_network.h>
#include "seqmc.h"
#include <netdb.h>
#include <algorithm>
#include <functional>
using namespace cyclone;
using mc::choose;
struct Raw { uint8_t ip[4]; uint16_t port; };
static bool same(const Raw& a, const Raw& b) { return !memcmp(a.ip, b.ip, 4) && a.port == b.port; }
static sockaddr_in native(const Raw& r, uint8_t junk) { sockaddr_in s; memset(&s, junk, sizeof s); s.sin_family = AF_INET; memcpy(&s.sin_addr, r.ip, 4); uint8_t p[2] = { (uint8_t)(r.port >> 8), (uint8_t)r.port }; memcpy(&s.sin_port, p, 2); return s; }
static std::string text(const Raw& r) { char b[32]; snprintf(b, sizeof b, "%u.%u.%u.%u", r.ip[0], r.ip[1], r.ip[2], r.ip[3]); return b; }
// --- the kernel's part
static Raw k_local, k_peer; static bool k_fail; static int k_asked[2];
static int answer(const Raw& r, sockaddr* a, socklen_t* n) { if (k_fail) { errno = ENOTCONN; return -1; } sockaddr_in s = native(r, 0); memcpy(a, &s, std::min((size_t)*n, sizeof s)); *n = sizeof s; return 0; }
extern "C" int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n) { MC_CHECK(fd == 777, "getsockname of descriptor %d", fd); k_asked[0]++; return answer(k_local, a, n); }
extern "C" int __wrap_getpeername(int fd, sockaddr* a, socklen_t* n) { MC_CHECK(fd == 777, "getpeername of descriptor %d", fd); k_asked[1]++; return answer(k_peer, a, n); }
static addrinfo g_ai[4]; static sockaddr_in6 g_sa[4]; static int g_n, g_freed, g_err; static std::string g_name; static addrinfo g_hints; static bool g_hints_set;
extern "C" int __wrap_getaddrinfo(const char* node, const char*, const addrinfo* h, addrinfo** res) { g_name = node ? node : "(null)"; if (h) { g_hints = *h; g_hints_set = true; } if (g_err) return g_err; *res = g_n ? g_ai : nullptr; return 0; }
extern "C" void __wrap_freeaddrinfo(addrinfo* p) { MC_CHECK(!g_err, "freeaddrinfo of a lookup that failed"); MC_CHECK(p == (g_n ? g_ai : nullptr), "freeaddrinfo of something else than the list"); g_freed++; for (int i = 0; i < 4; i++) memset(&g_sa[i], 0xDD, sizeof g_sa[i]); }

static void is(const Address& a, const Raw& r, const char* how) {
	MC_CHECK(text(r) == a.get_ip(), "%s: the address of %s says \"%s\"", how, text(r).c_str(), a.get_ip());
	MC_CHECK(a.get_port() == r.port, "%s: the port %u is reported as %u", how, r.port, a.get_port());
	const sockaddr_in& s = a.get_sockaddr_in(); sockaddr_in e = native(r, 0);
	MC_CHECK(s.sin_family == AF_INET && !memcmp(&s.sin_addr, &e.sin_addr, 4) && s.sin_port == e.sin_port, "%s: the native address of %s:%u has other bytes", how, text(r).c_str(), r.port);
}
static void one(const Raw& r) {
	mc::note("%s:%u", text(r).c_str(), r.port);
	Address a(text(r).c_str(), r.port); is(a, r, "from text"); mc::step();
	Address b(native(r, 0)), c(native(r, 0xEE)); is(b, r, "from a native address"); is(c, r, "from a native address with padding");
	Address d(a); is(d, r, "copied");
	Raw o = { { 9, 8, 7, 6 }, 5 }; Address e(native(o, 0)), f; e = a; f = a; is(e, r, "assigned"); is(f, r, "assigned to an empty one");
	const Address& self = a; a = self; is(a, r, "assigned to itself");
	Address g(a.get_ip(), a.get_port()); MC_CHECK(g == a && !(g < a) && !(a < g), "text and port of an address do not give it back");
	std::hash<Address> h; MC_CHECK(h(a) == h(b) && h(a) == h(c) && h(a) == h(d) && h(a) == h(e), "equal addresses have different hashes"); MC_CHECK(a == b && a == c && b == c, "equal addresses compare different");
	k_local = r; k_peer = o; k_fail = false; k_asked[0] = k_asked[1] = 0; Address l(false, 777); is(l, r, "local address of a socket"); MC_CHECK(k_asked[1] == 0, "the peer's address was asked for");
	k_local = o; k_peer = r; k_asked[0] = 0; Address p(true, 777); is(p, r, "peer address of a socket"); MC_CHECK(k_asked[0] == 0, "the local address was asked for");
	k_fail = true; Raw zero = {}; Address z(choose(2), 777); is(z, zero, "address of a socket that has none");
	Raw any = { { 0, 0, 0, 0 }, r.port }, loop = { { 127, 0, 0, 1 }, r.port }; Address x(r.port, false), y(r.port, true); is(x, any, "any address"); is(y, loop, "loopback address");
	mc::state(mc::mix(mc::hash_bytes(r.ip, 4), r.port));
}
static const uint8_t IPS[][4] = { { 0, 0, 0, 0 }, { 0, 0, 0, 1 }, { 1, 0, 0, 0 }, { 127, 0, 0, 1 }, { 127, 0, 0, 2 }, { 128, 0, 0, 1 }, { 10, 0, 0, 1 }, { 10, 0, 1, 0 }, { 10, 1, 0, 0 }, { 255, 255, 255, 255 }, { 255, 255, 255, 254 }, { 254, 255, 255, 255 }, { 1, 2, 3, 4 } };
static const uint16_t PORTS[] = { 0, 1, 2, 255, 256, 257, 0x1234, 0x3412, 0x7fff, 0x8000, 65535 };
enum { NI = sizeof IPS / 4, NP = sizeof PORTS / 2 };
static Raw nth(int i) { Raw r; memcpy(r.ip, IPS[i / NP], 4); r.port = PORTS[i % NP]; return r; }
void mc_body(void) {
	set_log_threshold(L_MAXIMUM_LEVEL);
	switch (choose(6)) {
	case 0: {   // every value of every byte, the other bytes from the list
		Raw r = nth(choose(NI) * NP + choose(NP)); int at = choose(6), v = choose(256);
		if (at < 4) r.ip[at] = (uint8_t)v; else r.port = at == 4 ? (uint16_t)((r.port & 0xff) | v << 8) : (uint16_t)((r.port & 0xff00) | v);
		one(r); break; }
	case 1: {   // pairs: equality, order, hash; then a third for transitivity
		Raw a = nth(choose(NI * NP)), b = nth(choose(NI * NP)); mc::note("%s:%u and %s:%u", text(a).c_str(), a.port, text(b).c_str(), b.port);
		Address A(native(a, 1)), B(native(b, 2)); mc::step();
		bool eq = A == B, lt = A < B, gt = B < A;
		MC_CHECK(eq == same(a, b), "== answers %d", eq); MC_CHECK(eq + lt + gt == 1, "not an order: equal %d, less %d, greater %d", eq, lt, gt);
		MC_CHECK(!(A < A) && A == A, "an address differs from itself");
		for (int i = 0; i < NI * NP; i += (mc::thorough() ? 1 : 5)) { Address C(native(nth(i), 0)); MC_CHECK(!(A < B && B < C) || A < C, "the order is not transitive with %s:%u", C.get_ip(), C.get_port()); }
		break; }
	case 2: {   // addresses that differ in one byte: the hash must not ignore it
		Raw a = nth(choose(NI * NP)), b = a; int at = choose(6), v = 1 + choose(255); if (at < 4) b.ip[at] ^= (uint8_t)v; else b.port ^= (uint16_t)(at == 4 ? v << 8 : v);
		mc::note("%s:%u and %s:%u", text(a).c_str(), a.port, text(b).c_str(), b.port); mc::step();
		Address A(native(a, 0)), B(native(b, 0)); MC_CHECK(!(A == B), "different addresses compare equal");
		MC_CHECK(Address::hash_value(A.get_sockaddr_in()) != Address::hash_value(B.get_sockaddr_in()), "addresses that differ in byte %d have the same hash", at);
		break; }
	case 3: {   // text that is no address
		static const char* bad[] = { "", "1", "1.2.3", "1.2.3.", "1.2.3.256", "256.1.1.1", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4.5", "a.b.c.d", "::1", "localhost", "-1.2.3.4", "1..2.3", "0x1.2.3.4", "999999999999.1.1.1", "1.2.3.4567890123456789012345678901234567890" };
		int i = choose(sizeof bad / sizeof *bad); uint16_t p = PORTS[choose(NP)]; mc::note("\"%s\" port %u", bad[i], p); mc::step();
		Address a(bad[i], p); Raw r = { { 0, 0, 0, 0 }, p }; is(a, r, "from text that is no address"); break; }
	case 4: {   // name lookup: every list of up to 3 results of both families
		g_n = choose(4); g_err = 0; g_freed = 0; g_hints_set = false; if (choose(2)) g_err = g_n == 0 ? EAI_NONAME : g_n == 1 ? EAI_AGAIN : g_n == 2 ? EAI_FAIL : EAI_SYSTEM;
		int first = -1; memset(g_ai, 0, sizeof g_ai); memset(g_sa, 0, sizeof g_sa);
		for (int i = 0; i < g_n; i++) { bool v6 = choose(2); if (!v6 && first < 0) first = i; g_ai[i].ai_next = i + 1 < g_n ? &g_ai[i + 1] : nullptr; g_ai[i].ai_family = v6 ? AF_INET6 : AF_INET; g_ai[i].ai_addr = (sockaddr*)&g_sa[i]; g_ai[i].ai_addrlen = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); g_ai[i].ai_socktype = SOCK_STREAM;
			Raw r = { { (uint8_t)(10 + i), 1, 2, 3 }, 0 }; if (v6) { g_sa[i].sin6_family = AF_INET6; memset(&g_sa[i].sin6_addr, 0xA0 + i, 16); } else { sockaddr_in s = native(r, 0); memcpy(&g_sa[i], &s, sizeof s); }
			mc::note(v6 ? "v6 " : "v4 "); }
		mc::note(g_err ? "lookup error %d" : "found", g_err);
		Raw was = { { 77, 66, 55, 44 }, 4321 }; sockaddr_in out = native(was, 0); char name[] = "some.host.example";
		bool ok = socket_api::resolve_hostname(name, out); mc::step();
		MC_CHECK(g_name == name, "the name asked for is \"%s\"", g_name.c_str());
		MC_CHECK(ok == (!g_err && first >= 0), "resolve_hostname answers %d", ok);
		Raw r = was; if (ok) { r.ip[0] = (uint8_t)(10 + first); r.ip[1] = 1; r.ip[2] = 2; r.ip[3] = 3; }
		sockaddr_in e = native(r, 0); MC_CHECK(!memcmp(&out.sin_addr, &e.sin_addr, 4), "the resolved address is wrong (%s)", ok ? "not the first IPv4 result" : "changed although nothing was found"); MC_CHECK(out.sin_port == e.sin_port, "the port of the address was changed");
		MC_CHECK(g_freed == (g_err ? 0 : 1) || (!g_n && !g_err), "the result list was freed %d times", g_freed); break; }
	case 5: {   // byte order helpers: every value of every byte
		uint8_t b[4] = { 1, 2, 3, 4 }; int at = choose(4); b[at] = (uint8_t)choose(256); mc::step();
		uint16_t h; uint32_t w; memcpy(&h, b, 2); memcpy(&w, b, 4);
		MC_CHECK(socket_api::ntoh_16(h) == (b[0] << 8 | b[1]), "ntoh_16 is wrong"); MC_CHECK(socket_api::ntoh_32(w) == ((uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]), "ntoh_32 is wrong"); break; }
	}
}
