// C01: RingBuf against a plain byte queue. Every start geometry x every operation sequence.
#include <cy_core.h>
#include <cy_crypt.h>
#include "seqmc.h"
#include <deque>
#include <memory>
#include <limits>
using namespace cyclone;
using mc::choose;
typedef std::deque<uint8_t> Model;

static uint8_t g_next; static int g_mode;
static uint8_t gen() { g_next++; return g_mode ? (uint8_t)(g_next % 3) : (uint8_t)(g_next * 37 + 11); }

static uint32_t ref_adler(const Model& m, size_t off, size_t n) {
	uint32_t a = 1, b = 0;
	for (size_t i = 0; i < n; i++) { a = (a + m[off + i]) % 65521; b = (b + a) % 65521; }
	return b << 16 | a;
}
static const size_t HUGE_ARGS[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2 + 1 };

// all observers, in the current state
static void peek1(const RingBuf& rb, const Model& m, size_t off, size_t cnt) {
	size_t n = m.size(), exp = off > n ? 0 : std::min(cnt, n - off);
	std::unique_ptr<uint8_t[]> dst(new uint8_t[exp + 1]);
	dst[exp] = 0xA5;
	size_t r = rb.peek(off, dst.get(), cnt);
	MC_CHECK(r == exp, "peek(off=%zu,count=%zu) on %zu bytes returned %zu, expected %zu", off, cnt, n, r, exp);
	for (size_t i = 0; i < exp; i++) MC_CHECK(dst[i] == m[off + i], "peek(off=%zu,count=%zu): byte %zu is %u, expected %u", off, cnt, i, dst[i], m[off + i]);
	MC_CHECK(dst[exp] == 0xA5, "peek wrote past its result");
}
static void sum1(const RingBuf& rb, const Model& m, size_t off, size_t cnt) {
	bool in = off <= m.size() && cnt <= m.size() - off && cnt > 0;
	uint32_t exp = in ? ref_adler(m, off, cnt) : 1, r = rb.checksum(off, cnt);
	MC_CHECK(r == exp, "checksum(off=%zu,count=%zu) on %zu bytes is %08x, expected %08x", off, cnt, m.size(), r, exp);
}
static void search1(const RingBuf& rb, const Model& m, size_t off, uint8_t v) {
	ssize_t exp = -1;
	for (size_t i = off; i < m.size(); i++) if (m[i] == v) { exp = (ssize_t)i; break; }
	ssize_t r = rb.search(off, v);
	MC_CHECK(r == exp, "search(off=%zu,byte=%u) on %zu bytes returned %zd, expected %zd", off, v, m.size(), r, exp);
}
static void observe(const RingBuf& rb, const Model& m, bool full_scan) {
	size_t n = m.size();
	MC_CHECK(rb.size() == n, "size() is %zu, expected %zu", rb.size(), n);
	MC_CHECK(rb.empty() == (n == 0), "empty() wrong at size %zu", n);
	MC_CHECK(rb.capacity() >= n, "capacity() %zu below size %zu", rb.capacity(), n);
	MC_CHECK(rb.get_free_size() == rb.capacity() - n, "get_free_size() %zu, capacity %zu, size %zu", rb.get_free_size(), rb.capacity(), n);
	MC_CHECK(rb.full() == (rb.get_free_size() == 0), "full() wrong");
	if (full_scan) {
		for (size_t off = 0; off <= n + 2; off++) for (size_t c = 0; c <= n + 2; c++) { peek1(rb, m, off, c); sum1(rb, m, off, c); }
		for (size_t off = 0; off <= n + 2; off++) for (size_t h : HUGE_ARGS) {
			peek1(rb, m, off, h); sum1(rb, m, off, h); peek1(rb, m, h, off); sum1(rb, m, h, off);
			if (off) { peek1(rb, m, off, SIZE_MAX - off + 1); sum1(rb, m, off, SIZE_MAX - off + 1); peek1(rb, m, off, SIZE_MAX - off + 2); sum1(rb, m, off, SIZE_MAX - off + 2); }
		}
		for (size_t h : HUGE_ARGS) { peek1(rb, m, h, h); sum1(rb, m, h, h); }
		for (size_t off = 0; off <= n + 1; off++) {
			bool seen[256] = {};
			for (uint8_t b : m) if (!seen[b]) { seen[b] = true; search1(rb, m, off, b); }
			for (int v = 0; v < 256; v += 51) search1(rb, m, off, (uint8_t)v);
		}
		for (size_t h : HUGE_ARGS) search1(rb, m, h, n ? m[0] : 0);
	} else {
		size_t pts[] = { 0, 1, n / 2, n ? n - 1 : 0, n, n + 1, 1022, 1023, 1024, 1025, 4095, 4096, 65535 };
		for (size_t a : pts) { peek1(rb, m, a, SIZE_MAX); peek1(rb, m, 0, a); sum1(rb, m, a, a <= n ? n - a : 1); sum1(rb, m, 0, a); for (size_t h : HUGE_ARGS) sum1(rb, m, a, h); }
		for (size_t a : pts) { search1(rb, m, a, n ? m[n - 1] : 0); search1(rb, m, a, n ? m[0] : 0); search1(rb, m, a, 1); }
	}
	uint64_t h = mc::mix(rb.capacity(), n);
	for (uint8_t b : m) h = mc::mix(h, b);
	mc::state(h);
}
static void put(RingBuf& rb, Model& m, size_t k) {
	std::unique_ptr<uint8_t[]> src(new uint8_t[k]);
	for (size_t i = 0; i < k; i++) { src[i] = gen(); m.push_back(src[i]); }
	rb.memcpy_into(src.get(), k); mc::step();
}
static void drop(RingBuf& rb, Model& m, size_t k) {
	size_t exp = std::min(k, m.size()), r = rb.discard(k); mc::step();
	MC_CHECK(r == exp, "discard(%zu) on %zu bytes returned %zu", k, m.size(), r);
	m.erase(m.begin(), m.begin() + exp);
}
static void take(RingBuf& rb, Model& m, size_t k) {
	size_t exp = std::min(k, m.size());
	std::unique_ptr<uint8_t[]> dst(new uint8_t[exp]);
	size_t r = rb.memcpy_out(dst.get(), k); mc::step();
	MC_CHECK(r == exp, "memcpy_out(%zu) on %zu bytes returned %zu", k, m.size(), r);
	for (size_t i = 0; i < exp; i++) MC_CHECK(dst[i] == m[i], "memcpy_out(%zu): byte %zu is %u, expected %u", k, i, dst[i], m[i]);
	m.erase(m.begin(), m.begin() + exp);
}
// bring a buffer made with capacity cap to read offset off and fill f (public operations only)
static void shape(RingBuf& rb, Model& m, size_t cap, size_t off, size_t f) {
	if (f == 0) { if (off) { put(rb, m, std::min(off, cap)); drop(rb, m, off); } return; }
	if (off < cap) { put(rb, m, off + 1); if (off) drop(rb, m, off); }
	else { put(rb, m, cap); if (cap > 1) drop(rb, m, cap - 1); put(rb, m, 1); drop(rb, m, 1); }
	if (f > 1) put(rb, m, f - 1);
}
static void norm(RingBuf& rb, Model& m) {
	uint8_t* p = rb.normalize(); mc::step();
	for (size_t i = 0; i < m.size(); i++) MC_CHECK(p[i] == m[i], "normalize(): byte %zu of %zu is %u, expected %u", i, m.size(), p[i], m[i]);
}
static void move_to(RingBuf& rb, Model& m, size_t dcap, size_t doff, size_t df, size_t k) {
	RingBuf d(dcap); Model dm; shape(d, dm, dcap, doff, df);
	size_t exp = std::min(k, m.size()), r = rb.moveto(d, k); mc::step();
	MC_CHECK(r == exp, "moveto(%zu) on %zu bytes returned %zu", k, m.size(), r);
	for (size_t i = 0; i < exp; i++) dm.push_back(m[i]);
	m.erase(m.begin(), m.begin() + exp);
	observe(d, dm, dm.size() < 20);
	take(d, dm, SIZE_MAX); observe(d, dm, false);
}

static void small_body(int maxcap, int depth) {
	size_t cap = 1 + choose(maxcap), off = choose((int)cap + 1), f = choose((int)cap + 1);
	g_mode = choose(2); g_next = 0;
	if (f == 0 && off > cap) mc::discard_path();
	RingBuf rb(cap); Model m;
	mc::note("RingBuf(%zu) read offset %zu fill %zu%s:", cap, off, f, g_mode ? " repeating bytes" : "");
	shape(rb, m, cap, off, f);
	observe(rb, m, true);
	bool moved = false;
	for (int i = 0; i < depth; i++) {
		size_t c = std::max(cap, rb.capacity()); if (c > 6) c = 6;
		switch (choose(moved ? 7 : 8)) {
		case 0: return;
		case 1: { size_t k = choose((int)c + 2); mc::note(" put%zu", k); put(rb, m, k); break; }
		case 2: { size_t k = choose((int)m.size() + 2); if (k == m.size() + 1) k = SIZE_MAX; mc::note(" take%zd", (ssize_t)k); take(rb, m, k); break; }
		case 3: { size_t k = choose((int)m.size() + 2); if (k == m.size() + 1) k = SIZE_MAX; mc::note(" discard%zd", (ssize_t)k); drop(rb, m, k); break; }
		case 4: { mc::note(" normalize"); norm(rb, m); break; }
		case 5: { size_t k = choose((int)c + 4); mc::note(" resize%zu", k); rb.resize(k); mc::step(); MC_CHECK(rb.capacity() >= k, "capacity() is %zu after resize(%zu)", rb.capacity(), k); break; }
		case 7: { moved = true; size_t k = choose((int)m.size() + 2), dc = 1 + choose(3), dof = choose((int)dc + 1), df = choose((int)dc + 1); if (k == m.size() + 1) k = SIZE_MAX;
			mc::note(" moveto(%zd -> cap%zu off%zu fill%zu)", (ssize_t)k, dc, dof, df); move_to(rb, m, dc, dof, df, k); break; }
		case 6: { mc::note(" reset"); rb.reset(); mc::step(); m.clear(); break; }
		}
		observe(rb, m, true);
	}
}
// shapes around the internal thresholds (default capacity 1023, powers of two, 64k)
static void big_body(int depth) {
	static const size_t CAPS[] = { 1023, 1024, 2047, 2048, 2050, 4095, 4096, 70000 };
	size_t cap = CAPS[choose(8)];
	// part before the physical end / part after the wrap
	static const size_t P[] = { 1, 2, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 66000 };
	size_t a = P[choose(12)], b = choose(2) ? P[choose(12)] : 0;
	g_mode = choose(2); g_next = 0;
	if (a + b > cap) mc::discard_path();
	size_t off = b ? cap + 1 - a : (choose(2) ? cap + 1 - a : (cap - a) / 2);
	if (off > cap) mc::discard_path();
	RingBuf rb(cap); Model m;
	mc::note("RingBuf(%zu) content %zu bytes up to the end + %zu bytes wrapped, read offset %zu:", cap, a, b, off);
	shape(rb, m, cap, off, a + b);
	observe(rb, m, false);
	for (int i = 0; i < depth; i++) {
		size_t n = m.size(), fr = rb.get_free_size();
		size_t args[] = { 1, n ? n - 1 : 0, n, n + 1, fr, fr + 1, a, b, 1024 };
		switch (choose(6)) {
		case 0: return;
		case 1: { size_t k = args[choose(9)]; mc::note(" put%zu", k); put(rb, m, k); break; }
		case 2: { size_t k = args[choose(9)]; mc::note(" take%zu", k); take(rb, m, k); break; }
		case 3: { size_t k = args[choose(9)]; mc::note(" discard%zu", k); drop(rb, m, k); break; }
		case 4: mc::note(" normalize"); norm(rb, m); break;
		case 5: { size_t k = args[choose(9)], dc = choose(2) ? 1023 : 100; mc::note(" moveto(%zu -> cap%zu)", k, dc); move_to(rb, m, dc, dc - 1, 1 + choose(2) * 50, k); break; }
		}
		observe(rb, m, false);
	}
}
void mc_body(void) {
	int part = mc::param("part", 0);
	if (part == 0) small_body(mc::param("cap", 3), mc::param("depth", 3));
	else big_body(mc::param("depth", 1));
}
