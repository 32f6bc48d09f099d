// C23 (parser part): every byte string over the protocol alphabet, delivered in every segmentation.
#include "s5_protocol.h"
#include "seqmc.h"
#include <netdb.h>
using mc::choose;
typedef std::vector<uint8_t> Bytes;
static std::string g_asked; static int g_lookups; static bool g_dns_ok;
static addrinfo g_ai; static sockaddr_in g_sa;
extern "C" int __wrap_getaddrinfo(const char* node, const char*, const addrinfo*, addrinfo** res) {
	g_asked = node ? node : "(null)"; g_lookups++; if (!g_dns_ok) return EAI_NONAME;
	memset(&g_ai, 0, sizeof g_ai); g_sa.sin_family = AF_INET; g_sa.sin_addr.s_addr = htonl(0x0A0B0C0D); g_ai.ai_family = AF_INET; g_ai.ai_addr = (sockaddr*)&g_sa; g_ai.ai_addrlen = sizeof g_sa; *res = &g_ai; return 0;
}
extern "C" void __wrap_freeaddrinfo(addrinfo*) {}
enum V { ACCEPT, MORE, REJECT, MORE_OR_REJECT, NOT_MORE };
static V oracle_hs(const Bytes& b) {
	if (b.empty()) return MORE;
	if (b[0] != 5) return b.size() < 3 ? MORE_OR_REJECT : REJECT;
	if (b.size() == 1) return MORE;
	size_t n = b[1];
	if (n == 0) return b.size() < 3 ? MORE_OR_REJECT : REJECT;
	if (b.size() < n + 2) return MORE;
	bool ok = false; for (size_t i = 0; i < n; i++) ok |= b[2 + i] == 0;
	if (b.size() > n + 2) return NOT_MORE;
	return ok ? ACCEPT : REJECT;
}
static V oracle_rq(const Bytes& b, size_t& need) {
	need = 0;
	if ((b.size() > 0 && b[0] != 5) || (b.size() > 1 && b[1] != 1) || (b.size() > 3 && b[3] != 1 && b[3] != 3)) return b.size() < 4 ? MORE_OR_REJECT : REJECT;
	if (b.size() < 5) return MORE;
	need = b[3] == 1 ? 10 : 7 + b[4];
	return b.size() < need ? MORE : b.size() > need ? NOT_MORE : ACCEPT;
}
static void run(bool hs, const Bytes& all, const std::vector<size_t>& cuts) {
	RingBuf rb(16); size_t off = choose(2) * 11; size_t fed = 0;
	if (off) { Bytes z(off); rb.memcpy_into(z.data(), off); if (!all.empty() && !cuts.empty() && cuts[0] > 0) { rb.memcpy_into(all.data(), 1); fed = 1; } rb.discard(off); }
	Bytes cur(all.begin(), all.begin() + fed);
	for (size_t c : cuts) {
		if (c > fed) { rb.memcpy_into(all.data() + fed, c - fed); cur.insert(cur.end(), all.begin() + fed, all.begin() + c); fed = c; }
		size_t need = 0; V v = hs ? oracle_hs(cur) : oracle_rq(cur, need);
		Address a; std::string dom; g_lookups = 0;
		int r = hs ? s5_get_handshake(rb) : s5_get_connect_request(rb, a, dom); mc::step();
		mc::state(mc::mix(mc::mix(cur.size(), r + 100), mc::hash_bytes(cur.data(), cur.size())));
		bool more = r == S5ERR_NEED_MORE_DATA, acc = r == S5ERR_SUCCESS;
		if (v == ACCEPT) {
			if (!hs && cur[3] == 3 && (!g_dns_ok || cur[4] == 0)) { MC_CHECK(!more, "complete request reported as incomplete"); if (!g_dns_ok) MC_CHECK(!acc, "accepted although the name does not resolve"); return; }
			MC_CHECK(acc, "complete valid message of %zu bytes answered %d", cur.size(), r);
			MC_CHECK(rb.size() == 0, "%zu bytes left after an accepted message", rb.size());
			if (!hs) {
				const sockaddr_in& s = a.get_sockaddr_in(); const uint8_t* ip = (const uint8_t*)&s.sin_addr.s_addr; const uint8_t* pt = (const uint8_t*)&s.sin_port; size_t n = cur.size();
				MC_CHECK(pt[0] == cur[n - 2] && pt[1] == cur[n - 1], "port is %02x%02x", pt[0], pt[1]);
				if (cur[3] == 1) { for (int i = 0; i < 4; i++) MC_CHECK(ip[i] == cur[4 + i], "address byte %d is %u, expected %u", i, ip[i], cur[4 + i]); char t[32]; snprintf(t, 32, "%u.%u.%u.%u", cur[4], cur[5], cur[6], cur[7]); MC_CHECK(dom == t, "domain is %s, expected %s", dom.c_str(), t); MC_CHECK(g_lookups == 0, "name lookup for a literal address"); }
				else { std::string d((const char*)cur.data() + 5, cur[4]); MC_CHECK(g_asked == d && g_lookups == 1, "looked up \"%s\", expected \"%s\"", g_asked.c_str(), d.c_str()); MC_CHECK(dom == d, "domain is \"%s\"", dom.c_str()); MC_CHECK(s.sin_addr.s_addr == htonl(0x0A0B0C0D), "address is not the resolved one"); }
			}
			return;
		}
		if (v == MORE) MC_CHECK(more, "a proper prefix (%zu bytes) of a valid message answered %d", cur.size(), r);
		if (v == REJECT) MC_CHECK(!more && !acc, "invalid message answered %d", r);
		if (v == MORE_OR_REJECT) MC_CHECK(!acc, "accepted an incomplete message");
		if (v == NOT_MORE) MC_CHECK(!more, "more data requested although more than a message is there");
		if (!more) return;
		MC_CHECK(rb.size() == cur.size(), "an incomplete message was consumed: %zu of %zu bytes left", rb.size(), cur.size());
		Bytes d(cur.size()); rb.peek(0, d.data(), d.size()); MC_CHECK(d == cur, "an incomplete message was changed");
	}
}
static std::vector<size_t> cuts_of(size_t n) {
	std::vector<size_t> c; int style = choose(3);
	if (style == 0) c = { n };
	else if (style == 1) for (size_t i = 0; i <= n; i++) c.push_back(i);
	else { size_t k = choose((int)n + 1); c = { k, n }; mc::note(" cut %zu", k); }
	return c;
}
void mc_body(void) {
	Bytes b; g_dns_ok = true;
	switch (choose(5)) {
	case 0: { static const uint8_t A[] = { 5, 0, 1, 2, 3, 0xFF }; int n = choose(mc::thorough() ? 8 : 7); for (int i = 0; i < n; i++) b.push_back(A[choose(6)]); mc::note("handshake"); for (auto x : b) mc::note(" %02x", x); run(true, b, cuts_of(n)); break; }
	case 1: { static const int N[] = { 253, 254, 255, 128, 127, 20 }; int n = N[choose(6)], zero = choose(4), extra = choose(5) - 2; b = { 5, (uint8_t)n }; for (int i = 0; i < n; i++) b.push_back((uint8_t)(1 + i % 250)); if (zero == 1) b[2] = 0; if (zero == 2) b[1 + n] = 0; if (zero == 3) b[2 + n / 2] = 0; if (extra < 0) b.resize(b.size() + extra); else for (int i = 0; i < extra; i++) b.push_back(0); mc::note("handshake of %d methods, style %d, %+d bytes", n, zero, extra); std::vector<size_t> c = { b.size() / 2, b.size() }; run(true, b, c); break; }
	case 2: { static const uint8_t V_[] = { 5, 4, 0xFF }, C[] = { 1, 2, 0 }, T[] = { 1, 3, 4, 0, 0x81, 0xFF }; b = { V_[choose(3)], C[choose(3)], 0, T[choose(6)] }; int n = choose(12); static const uint8_t A[] = { 2, 0x7F, 0xFF, 1, 0x50, 0x80 }; for (int i = 0; i < n; i++) b.push_back(A[(i * 5 + n) % 6]); int cut = choose(4); if (n == 0) b.resize(4 - cut); mc::note("request"); for (auto x : b) mc::note(" %02x", x); run(false, b, cuts_of(b.size())); break; }
	case 3: { uint8_t p = (uint8_t)choose(256); int pos = choose(6); b = { 5, 1, 0, 1, 10, 20, 30, 40, 0x12, 0x34 }; b[4 + pos] = p; mc::note("ip request byte %d=%02x", pos, p); run(false, b, cuts_of(10)); break; }
	case 4: { static const int L[] = { 0, 1, 2, 3, 5, 63, 127, 128, 129, 247, 248, 249, 250, 253, 254, 255 }; int l = L[choose(16)], extra = choose(4) - 2; g_dns_ok = choose(2); b = { 5, 1, 0, 3, (uint8_t)l }; for (int i = 0; i < l; i++) b.push_back((uint8_t)('a' + i % 26)); b.push_back(0xAB); b.push_back(0xCD); if (extra < 0) b.resize(b.size() + extra); else for (int i = 0; i < extra; i++) b.push_back('x'); mc::note("name request of length %d, %+d bytes, dns %d", l, extra, g_dns_ok); std::vector<size_t> c; int st = choose(2); if (st) for (size_t i = 0; i <= b.size(); i++) c.push_back(i); else c = { b.size() }; run(false, b, c); break; }
	}
	if (choose(2) == 0) return;
	// replies
	RingBuf o; s5_build_handshake_act(o); uint8_t r[16]; MC_CHECK(o.memcpy_out(r, 16) == 2 && r[0] == 5 && r[1] == 0, "handshake reply");
	uint8_t rep = (uint8_t)choose(2); s5_build_connect_act(o, rep, Address("1.2.3.4", (uint16_t)0x5678)); static const uint8_t E[] = { 5, 0, 0, 1, 1, 2, 3, 4, 0x56, 0x78 };
	MC_CHECK(o.memcpy_out(r, 16) == 10, "connect reply length"); for (int i = 0; i < 10; i++) MC_CHECK(r[i] == (i == 1 ? rep : E[i]), "connect reply byte %d", i);
}
