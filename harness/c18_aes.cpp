// C18: Rijndael against FIPS-197 / SP 800-38A written out from the standard.
#include <cy_core.h>
#include <cy_crypt.h>
#include "seqmc.h"
#include <memory>
using namespace cyclone;
using mc::choose;
namespace ref {
static uint8_t S[256], Si[256];
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
static void init() {
	for (int x = 0; x < 256; x++) {
		uint8_t inv = 0; if (x) for (int y = 1; y < 256; y++) if (mul((uint8_t)x, (uint8_t)y) == 1) inv = (uint8_t)y;
		uint8_t s = 0; for (int i = 0; i < 8; i++) { int b = ((inv >> i) ^ (inv >> ((i + 4) & 7)) ^ (inv >> ((i + 5) & 7)) ^ (inv >> ((i + 6) & 7)) ^ (inv >> ((i + 7) & 7)) ^ (0x63 >> i)) & 1; s |= b << i; }
		S[x] = s; Si[s] = (uint8_t)x;
	}
}
struct Key { uint8_t w[176]; };
static void expand(const uint8_t* k, Key& K) {
	memcpy(K.w, k, 16); uint8_t rc = 1;
	for (int i = 16; i < 176; i += 4) {
		uint8_t t[4]; memcpy(t, K.w + i - 4, 4);
		if (i % 16 == 0) { uint8_t x = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[x]; rc = mul(rc, 2); }
		for (int j = 0; j < 4; j++) K.w[i + j] = K.w[i - 16 + j] ^ t[j];
	}
}
static void enc(const Key& K, const uint8_t* in, uint8_t* out) {
	uint8_t s[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ K.w[i];
	for (int r = 1; r <= 10; r++) {
		uint8_t t[16]; for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[4 * c + i] = S[s[4 * ((c + i) & 3) + i]];
		if (r < 10) for (int c = 0; c < 4; c++) { uint8_t* a = t + 4 * c; uint8_t b[4]; for (int i = 0; i < 4; i++) b[i] = mul(a[i], 2) ^ mul(a[(i + 1) & 3], 3) ^ a[(i + 2) & 3] ^ a[(i + 3) & 3]; memcpy(a, b, 4); }
		for (int i = 0; i < 16; i++) s[i] = t[i] ^ K.w[16 * r + i];
	}
	memcpy(out, s, 16);
}
static void cbc(const uint8_t* key, uint8_t* iv, const uint8_t* in, uint8_t* out, size_t n) {
	Key K; expand(key, K);
	for (size_t i = 0; i < n; i += 16) { uint8_t b[16]; for (int j = 0; j < 16; j++) b[j] = in[i + j] ^ iv[j]; enc(K, b, out + i); memcpy(iv, out + i, 16); }
}
}
typedef std::unique_ptr<uint8_t[]> Buf;
static Buf dup(const uint8_t* p, size_t n) { Buf b(new uint8_t[n]); memcpy(b.get(), p, n); return b; }
static void check_eq(const uint8_t* a, const uint8_t* b, size_t n, const char* what) { for (size_t i = 0; i < n; i++) MC_CHECK(a[i] == b[i], "%s: byte %zu is %02x, expected %02x", what, i, a[i], b[i]); }
static const uint8_t FIPS_DEF_IV[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };

static void check_all(const uint8_t* key, const uint8_t* iv, const uint8_t* msg, size_t blocks, unsigned splitmask, bool inplace, bool useiv, size_t cut = 0) {
	size_t n = blocks * 16; Buf k = dup(key, 16), expc(new uint8_t[n]);
	uint8_t riv[16]; memcpy(riv, useiv ? iv : FIPS_DEF_IV, 16);
	ref::cbc(key, riv, msg, expc.get(), n);
	Rijndael r(k.get()); check_eq(k.get(), key, 16, "key changed by construction"); memset(k.get(), 0, 16);
	Buf civ = dup(iv, 16), src = dup(msg, n), dst(new uint8_t[n]);
	uint8_t* out = inplace ? src.get() : dst.get();
	for (size_t b = 0; b < blocks;) {
		size_t e = b + 1; while (useiv && e < blocks && e != cut && !(e <= 32 && splitmask >> (e - 1) & 1)) e++;
		if (!useiv) e = blocks;
		r.encrypt(src.get() + b * 16, out + b * 16, (e - b) * 16, useiv ? civ.get() : nullptr); mc::step(); b = e;
	}
	check_eq(out, expc.get(), n, "encrypt");
	if (useiv) check_eq(civ.get(), riv, 16, "vector after encrypt"); else check_eq(civ.get(), iv, 16, "unused vector");
	if (!inplace) check_eq(src.get(), msg, n, "encrypt changed its input");
	check_eq(Rijndael::DefaultIV, FIPS_DEF_IV, 16, "default vector");
	// inverse
	Buf div = dup(iv, 16), cs = dup(expc.get(), n), pd(new uint8_t[n]); out = inplace ? cs.get() : pd.get();
	for (size_t b = 0; b < blocks;) {
		size_t e = b + 1; while (useiv && e < blocks && e != cut && !(e <= 32 && splitmask >> (e - 1) & 1)) e++;
		if (!useiv) e = blocks;
		r.decrypt(cs.get() + b * 16, out + b * 16, (e - b) * 16, useiv ? div.get() : nullptr); mc::step(); b = e;
	}
	check_eq(out, msg, n, "decrypt");
	if (useiv) check_eq(div.get(), expc.get() + n - 16, 16, "vector after decrypt"); else check_eq(div.get(), iv, 16, "unused vector");
	if (!inplace) check_eq(cs.get(), expc.get(), n, "decrypt changed its input");
	check_eq(Rijndael::DefaultIV, FIPS_DEF_IV, 16, "default vector");
	mc::state(mc::hash_bytes(expc.get(), n));
}
void mc_body(void) {
	static bool inited = false; if (!inited) { ref::init(); inited = true; }
	static const uint8_t K0[16] = { 0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c };
	static const uint8_t FK[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
	uint8_t key[16], iv[16], msg[80];
	memcpy(key, K0, 16); for (int i = 0; i < 16; i++) iv[i] = (uint8_t)(0xF0 + i); for (int i = 0; i < 80; i++) msg[i] = (uint8_t)(i * 29 + 3);
	int mode = choose(6);
	if (mode == 0) {   // the reference itself: FIPS-197 appendix C.1
		uint8_t p[16], c[16]; for (int i = 0; i < 16; i++) p[i] = (uint8_t)(i * 0x11);
		static const uint8_t C[16] = { 0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a };
		ref::Key k; ref::expand(FK, k); ref::enc(k, p, c); check_eq(c, C, 16, "reference"); memset(iv, 0, 16); check_all(FK, iv, p, 1, 0, false, true); return;
	}
	int pos = 0, v = 0;
	if (mode == 1 || mode == 2 || mode == 3) { pos = choose(16); v = choose(256); }
	if (mode == 1) { if (choose(2)) memset(key, 0, 16); key[pos] = (uint8_t)v; mc::note("key byte %d = %d", pos, v); check_all(key, iv, msg, 2, 1, false, true); }
	if (mode == 2) { if (choose(2)) memset(msg, 0, 16); msg[pos] = (uint8_t)v; mc::note("data byte %d = %d", pos, v); check_all(key, iv, msg, 1 + choose(2), 0, choose(2), true); }
	if (mode == 3) { iv[pos] = (uint8_t)v; mc::note("vector byte %d = %d", pos, v); check_all(key, iv, msg, 2, 0, true, true); }
	if (mode == 4) { size_t b = 1 + choose(5); unsigned sm = b > 1 ? choose(1 << (b - 1)) : 0; bool ip = choose(2), ui = choose(2); int ks = choose(3); if (ks == 1) memset(key, 0, 16); if (ks == 2) memset(key, 0xFF, 16);
		mc::note("%zu blocks split mask %u%s%s", b, sm, ip ? " in place" : "", ui ? "" : " default vector"); check_all(key, iv, msg, b, sm, ip, ui); }
	if (mode == 5) {   // long messages, cut once
		static const int B[] = { 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097 }; size_t b = B[choose(mc::thorough() ? 22 : 19)]; Buf m(new uint8_t[b * 16]); for (size_t i = 0; i < b * 16; i++) m[i] = (uint8_t)(i * 29 + i / 256 * 5 + 3);
		int c = choose(6); bool ip = choose(2), ui = choose(2); size_t cuts[] = { 0, 1, 4, 8, b / 2, b - 1 }; size_t cut = c ? std::min(cuts[c], b - 1) : 0; if (!ui && cut) mc::discard_path();
		mc::note("%zu blocks cut after %zu%s%s", b, cut, ip ? " in place" : "", ui ? "" : " default vector"); check_all(key, iv, m.get(), b, 0, ip, ui, cut); }
}
