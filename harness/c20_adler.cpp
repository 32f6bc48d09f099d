// C20: Adler-32 against its definition, all splits.
#include <cy_core.h>
#include <cy_crypt.h>
#include "seqmc.h"
#include <memory>
using namespace cyclone;
using mc::choose;
static uint32_t ref(uint32_t s, const uint8_t* p, size_t n) { uint64_t a = s & 0xffff, b = s >> 16; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return (uint32_t)(b << 16 | a); }
static uint32_t calc(uint32_t s, const uint8_t* p, size_t n) { std::unique_ptr<uint8_t[]> c(new uint8_t[n]); memcpy(c.get(), p, n); mc::step(); uint32_t r = adler32(s, c.get(), n); mc::state(r); return r; }
static void check(uint32_t s, const uint8_t* p, size_t n, size_t c1, size_t c2) {
	uint32_t e = ref(s, p, n), r = calc(s, p, n);
	MC_CHECK(r == e, "adler32(%08x, %zu bytes) is %08x, expected %08x", s, n, r, e);
	uint32_t q = calc(calc(calc(s, p, c1), p + c1, c2 - c1), p + c2, n - c2);
	MC_CHECK(q == e, "adler32(%08x) in pieces %zu+%zu+%zu is %08x, expected %08x", s, c1, c2 - c1, n - c2, q, e);
}
void mc_body(void) {
	static const uint32_t ST[] = { 1, 0xFFF0FFF0u, 0, 0x0001FFF0u, 0xFFF00001u };
	static const uint8_t A[] = { 0, 1, 0x80, 0xFF };
	static uint8_t big[70000];
	switch (choose(5)) {
	case 0: { uint32_t s = ST[choose(5)]; int n = choose(mc::thorough() ? 8 : 7); uint8_t b[8]; for (int i = 0; i < n; i++) b[i] = A[choose(4)]; mc::note("start %08x string", s); for (int i = 0; i < n; i++) mc::note(" %02x", b[i]); for (int c1 = 0; c1 <= n; c1++) for (int c2 = c1; c2 <= n; c2++) check(s, b, n, c1, c2); break; }
	case 1: { uint32_t s = ST[choose(5)]; int fill = choose(3), n = choose(81); for (int i = 0; i < n; i++) big[i] = fill == 0 ? 0xFF : fill == 1 ? (uint8_t)(i * 7 + 1) : 0xF0; int c1 = choose(n + 1); mc::note("start %08x %d bytes style %d cut %d", s, n, fill, c1); for (int c2 = c1; c2 <= n; c2++) check(s, big, n, c1, c2); break; }
	case 2: { uint32_t s = ST[choose(5)]; static const int N[] = { 4096, 5536, 5551, 5552, 5553, 5567, 5568, 5569, 11103, 11104, 11105, 11120, 16656, 65520, 65521, 65536, 69999 };
		int fill = choose(3), n = N[choose(17)]; for (int i = 0; i < n; i++) big[i] = fill == 0 ? 0xFF : fill == 1 ? (uint8_t)(i * 7 + 1) : 0xFE; 
		static const int C[] = { 0, 1, 15, 16, 17, 5551, 5552, 5553, 11104 }; int c1 = C[choose(9)], c2 = C[choose(9)]; c1 = std::min(c1, n); c2 = std::min(std::max(c2, c1), n); mc::note("start %08x %d bytes style %d cut %d,%d", s, n, fill, c1, c2); check(s, big, n, c1, c2); break; }
	case 3: { int cap = 1 + choose(6), off = choose(cap), fill = 1 + choose(cap); RingBuf rb(cap); uint8_t z[16] = { 9, 9, 9, 9, 9, 9, 9, 9 }, d[16]; for (int i = 0; i < 16; i++) d[i] = A[(i + 3) % 4] + (uint8_t)i;
		mc::note("ring buffer capacity %d offset %d fill %d", cap, off, fill); rb.memcpy_into(z, off + 1); rb.discard(off); rb.memcpy_into(d, fill - 1); uint8_t all[32]; all[0] = 9; memcpy(all + 1, d, fill - 1);
		for (int o = 0; o < fill; o++) for (int c = 1; c <= fill - o; c++) { uint32_t r = rb.checksum(o, c), e = ref(1, all + o, c); mc::step(); MC_CHECK(r == e, "ring buffer checksum(%d,%d) is %08x, expected %08x", o, c, r, e); mc::state(r); } break; }
	case 4: {   // a ring buffer whose content wraps around, longer than the block the sum reduces after
		static const int F[] = { 100, 5551, 5552, 5553, 11104, 20000 }; int fill = F[choose(6)], off = choose(2) ? 1 + choose(5) * (fill / 6 + 1) : 0, style = choose(2); for (int i = 0; i < fill; i++) big[i] = style ? 0xFF : (uint8_t)(i * 7 + 1);
		RingBuf rb(fill); std::unique_ptr<uint8_t[]> z(new uint8_t[off + 1]()); rb.memcpy_into(z.get(), off); rb.memcpy_into(big, 0); int put = std::min(fill - off, fill); rb.memcpy_into(big, put); rb.discard(off); rb.memcpy_into(big + put, fill - put);
		static const int O[] = { 0, 1, 15, 16, 5552 }; int o = std::min(O[choose(5)], fill - 1), c = choose(2) ? fill - o : (fill - o) / 2 + 1; mc::note("ring buffer of %d bytes wrapped at %d, checksum(%d,%d)", fill, fill - off, o, c);
		MC_CHECK((int)rb.size() == fill, "ring buffer holds %zu", rb.size()); uint32_t r = rb.checksum(o, c), e = ref(1, big + o, c); mc::step(); MC_CHECK(r == e, "ring buffer checksum(%d,%d) is %08x, expected %08x", o, c, r, e); mc::state(r); break; }
	}
}
