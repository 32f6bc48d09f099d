// C19: key exchange against plain 128-bit modular arithmetic.
#include <cy_core.h>
#include <cy_crypt.h>
#include "seqmc.h"
using namespace cyclone;
using mc::choose;
typedef unsigned __int128 u128;
static const u128 P = ~(u128)0 - 158;
static u128 addm(u128 a, u128 b) { a %= P; b %= P; return a >= P - b ? a - (P - b) : a + b; }
static u128 mulm(u128 a, u128 b) { u128 r = 0; a %= P; for (int i = 127; i >= 0; i--) { r = addm(r, r); if (b >> i & 1) r = addm(r, a); } return r; }
static u128 powm(u128 a, u128 e) { u128 r = 1; for (int i = 127; i >= 0; i--) { r = mulm(r, r); if (e >> i & 1) r = mulm(r, a); } return r; }
static dhkey_t key(u128 v) { dhkey_t k; k.dq.low = (uint64_t)v; k.dq.high = (uint64_t)(v >> 64); return k; }
static u128 val(const dhkey_t& k) { return (u128)k.dq.high << 64 | k.dq.low; }
static uint8_t g_rand[16]; static int g_ri;
extern "C" int __wrap_rand(void) { return g_rand[g_ri++ % 16] | 0x100; }
static u128 alphabet(int i, int& n) {
	static std::vector<u128> A;
	if (A.empty()) {
		u128 one = 1; u128 all = ~(u128)0;
		for (u128 v : { (u128)0, one, (u128)2, (u128)3, (u128)4, (u128)5, (u128)158, (u128)159, (u128)160, (one << 63) - 1, one << 63, (one << 64) - 2, (one << 64) - 1, one << 64, (one << 64) + 1, (one << 127) - 1, one << 127, (one << 127) + 1, P - 2, P - 1, P, P + 1, P + 2, all, all - 1, (u128)0xdeadbeefcafebabeull << 64 | 0x0123456789abcdefull, P / 2, P / 2 + 1, P / 3, (u128)0xffffffffffffffffull << 64, ((u128)0x5555555555555555ull << 64) | 0x5555555555555555ull, ((u128)0xaaaaaaaaaaaaaaaaull << 64) | 0xaaaaaaaaaaaaaaaaull }) A.push_back(v);
		if (mc::thorough()) for (int b = 1; b < 128; b++) { A.push_back((u128)1 << b); A.push_back(((u128)1 << b) - 1); A.push_back(all << b); }
		else for (int b = 8; b < 128; b += 24) { A.push_back((u128)1 << b); A.push_back(((u128)1 << b) - 1); A.push_back(all << b); }
	}
	n = (int)A.size(); return A[i];
}
#define HX "%016llx%016llx"
#define HV(v) (unsigned long long)((v) >> 64), (unsigned long long)(v)
static void pair_for(u128 priv, dhkey_t& pub, dhkey_t& pk) {
	dhkey_t k = key(priv); memcpy(g_rand, k.bytes, 16); g_ri = 0;
	DH_generate_key_pair(pub, pk); mc::step();
	u128 pv = val(pk);   // whatever private key was drawn, the public key must belong to it
	MC_CHECK(val(pub) == powm(5, pv), "public key of private " HX " is " HX ", expected " HX, HV(pv), HV(val(pub)), HV(powm(5, pv)));
}
void mc_body(void) {
	int n; alphabet(0, n);
	u128 a = alphabet(choose(n), n), b = alphabet(choose(n), n);
	switch (choose(2)) {
	case 0: {
		mc::note("private " HX " and " HX, HV(a), HV(b));
		dhkey_t pa, pb, ka, kb, sa, sb;
		pair_for(a, pa, ka); pair_for(b, pb, kb);
		DH_generate_key_secret(sa, ka, pb); DH_generate_key_secret(sb, kb, pa); mc::step(); mc::step();
		MC_CHECK(val(sa) == val(sb), "the two sides disagree: " HX " / " HX, HV(val(sa)), HV(val(sb)));
		MC_CHECK(val(sa) < P, "secret not reduced");
		u128 e = powm(powm(5, val(kb)), val(ka)); MC_CHECK(val(sa) == e, "secret is " HX ", expected " HX, HV(val(sa)), HV(e));
		mc::state(mc::hash_bytes(&sa, 16)); break; }
	case 1: {
		mc::note("private " HX " received public " HX, HV(a), HV(b));
		dhkey_t ka = key(a), pb = key(b), s; DH_generate_key_secret(s, ka, pb); mc::step();
		u128 e = powm(b, a); MC_CHECK(val(s) == e, "secret is " HX ", expected " HX, HV(val(s)), HV(e));
		MC_CHECK(val(ka) == a && val(pb) == b, "inputs changed");
		mc::state(mc::hash_bytes(&s, 16)); break; }
	}
}
