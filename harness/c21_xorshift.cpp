// C21: xorshift128+ stream cipher.
#include <cy_core.h>
#include <cy_crypt.h>
#include "seqmc.h"
#include <memory>
using namespace cyclone;
using mc::choose;
struct Ref { uint64_t a, b; uint64_t next() { uint64_t x = a, y = b; a = y; x ^= x << 23; b = x ^ (x >> 17) ^ y ^ (y >> 26); return b + y; } };
void mc_body(void) {
	static const uint64_t SD[] = { 0, 1, 0x8000000000000000ull, ~0ull, 0x0123456789abcdefull, 0xff00ff00ff00ff00ull };
	uint64_t s0 = SD[choose(6)], s1 = SD[choose(6)]; size_t maxn = mc::thorough() ? 66 : 42;
	size_t n, align, c1, c2;
	if (!choose(2)) {
		n = choose((int)maxn); align = choose(8);
		size_t w = n / 8; c1 = choose((int)w + 1) * 8; c2 = c1 + choose((int)(w - c1 / 8) + 1) * 8;
	} else {   // long ones: around the sizes a faster path would treat in larger blocks or count in narrower integers
		static const int N[] = { 47, 48, 63, 64, 65, 71, 72, 96, 127, 128, 129, 136, 255, 256, 257, 263, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 65535, 65536, 65537, 65544, 524287, 524288, 524296 };
		n = N[choose(mc::thorough() ? 34 : 31)]; align = choose(2); static const int C[] = { 0, 8, 56, 64, 128 };
		c1 = std::min<size_t>(C[choose(5)], n / 8 * 8); c2 = choose(2) ? n / 8 * 8 : std::max<size_t>(c1, n / 16 * 8);
	}
	mc::note("seed %016llx %016llx, %zu bytes at alignment %zu, pieces %zu,%zu,%zu", (unsigned long long)s0, (unsigned long long)s1, n, align, c1, c2 - c1, n - c2);
	std::unique_ptr<uint8_t[]> mem(new uint8_t[align + n + 8]); uint8_t* p = mem.get() + align;
	auto plain = [&](size_t i) { return (uint8_t)(i * 31 + 7); };
	for (size_t i = 0; i < align; i++) mem[i] = 0xC1; for (size_t i = 0; i < n; i++) p[i] = plain(i); for (size_t i = 0; i < 8; i++) p[n + i] = 0xC2;
	Ref r{ s0, s1 }; std::unique_ptr<uint8_t[]> exp(new uint8_t[n + 8]);
	for (size_t i = 0; i < n; i += 8) { uint64_t k = r.next(); for (size_t j = i; j < n && j < i + 8; j++) exp[j] = plain(j) ^ (uint8_t)(k >> (8 * (j - i))); }
	XorShift128 s{ s0, s1 };
	for (int pass = 0; pass < 2; pass++) {
		s.seed0 = s0; s.seed1 = s1;
		if (pass == 0) { xorshift128(p, c1, s); xorshift128(p + c1, c2 - c1, s); xorshift128(p + c2, n - c2, s); mc::step(); mc::step(); mc::step(); }
		else { xorshift128(p, n, s); mc::step(); }
		for (size_t i = 0; i < n; i++) { uint8_t e = pass == 0 ? exp[i] : plain(i); MC_CHECK(p[i] == e, "%s: byte %zu is %02x, expected %02x", pass ? "second application" : "stream", i, p[i], e); }
		MC_CHECK(s.seed0 == r.a && s.seed1 == r.b, "generator state differs from the recurrence");
		for (size_t i = 0; i < align; i++) MC_CHECK(mem[i] == 0xC1, "wrote before the data"); for (size_t i = 0; i < 8; i++) MC_CHECK(p[n + i] == 0xC2, "wrote behind the data");
	}
	XorShift128 g{ s0, s1 }; Ref q{ s0, s1 }; for (int i = 0; i < 6; i++) { uint64_t a = g.next(), b = q.next(); mc::step(); MC_CHECK(a == b && g.seed0 == q.a && g.seed1 == q.b, "next() number %d differs from the recurrence", i); mc::state(mc::mix(a, g.seed0)); }
	// make() yields a usable, in-range state and changes nothing else
	struct { uint64_t g0; XorShift128 x; uint64_t g1; } box = { 0xAAAA, { s0, s1 }, 0xBBBB }; box.x.make(); MC_CHECK(box.g0 == 0xAAAA && box.g1 == 0xBBBB, "make() wrote outside");
}
