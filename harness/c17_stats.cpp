// C17: statistics against a list of samples (explicit times).
#include <cy_core.h>
#include <utility/cyu_statistics.h>
#include "seqmc.h"
#include <vector>
#include <limits>
using namespace cyclone;
using mc::choose;
template<class T> static void minmax(const T* vals, int nv, const char* name) {
	bool init = choose(2); int depth = mc::param("mmdepth", 4);
	mc::note("MinMaxValue<%s>:", name);
	T lo = std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::lowest();
	MinMaxValue<T>* v;
	if (init) { T x = vals[choose(nv)]; v = new MinMaxValue<T>(x); lo = hi = x; mc::note(" init %g", (double)x); } else v = new MinMaxValue<T>();
	for (int i = 0; i < depth; i++) {
		if (init || i) { MC_CHECK(v->min() == lo, "min() is %g, expected %g", (double)v->min(), (double)lo); MC_CHECK(v->max() == hi, "max() is %g, expected %g", (double)v->max(), (double)hi); }
		int c = choose(nv + 1); if (c == nv) break;
		T x = vals[c]; mc::note(" update %g", (double)x); v->update(x); mc::step();
		if (i == 0 && !init) { lo = hi = x; } else { lo = std::min(lo, x); hi = std::max(hi, x); }
		MC_CHECK(v->min() == lo, "min() is %g, expected %g", (double)v->min(), (double)lo); MC_CHECK(v->max() == hi, "max() is %g, expected %g", (double)v->max(), (double)hi);
		mc::state(mc::mix(mc::hash_bytes(&lo, sizeof lo), mc::hash_bytes(&hi, sizeof hi)));
	}
	delete v;
}
struct Sample { int64_t t; int64_t v; };
template<class PV> static void query(PV& pv, const std::vector<Sample>& all, int64_t now, int period) {
	int64_t sum = 0; int cnt = 0; for (auto& s : all) if (s.t >= now - period) { sum += s.v; cnt++; }
	auto r = pv.sum_and_counts(now); mc::step();
	MC_CHECK((int64_t)r.first == sum && r.second == cnt, "sum_and_counts is (%lld,%d), expected (%lld,%d)", (long long)r.first, r.second, (long long)sum, cnt);
	mc::state(mc::mix(mc::mix(sum, cnt), all.size()));
}
template<class PV> static void period() {
	int P = choose(2) ? 10 : 3; PV pv(P); MC_CHECK(pv.get_time_period() == P, "period");
	int64_t now = choose(2) ? 1000000 : 1; std::vector<Sample> all; int vnext = 1;
	static const int PRE[] = { 0, 1, 2, 29, 30, 31, 32, 33, 63, 64 }; int pre = PRE[choose(10)], style = choose(3);
	mc::note("PeriodValue(%d) from t=%lld, %d samples in style %d first:", P, (long long)now, pre, style);
	for (int i = 0; i < pre; i++) { pv.push(vnext, now); all.push_back({ now, vnext }); vnext = vnext * 3 % 1009; mc::step(); if (style == 1 || (style == 2 && i % 7 == 6)) now++; }
	query(pv, all, now, P);
	int depth = mc::param("depth", 4);
	for (int i = 0; i < depth; i++) {
		switch (choose(4)) {
		case 0: return;
		case 1: { int k = choose(2) ? 1 : 17; mc::note(" push x%d", k); for (int j = 0; j < k; j++) { int v = j % 2 ? -vnext : vnext; pv.push(v, now); all.push_back({ now, v }); vnext = vnext * 3 % 1009; mc::step(); } break; }
		case 2: { int A[] = { 1, P - 1, P, P + 1, 2 * P }; int a = A[choose(5)]; mc::note(" +%dms", a); now += a; break; }
		case 3: mc::note(" query"); query(pv, all, now, P); break;
		}
	}
	query(pv, all, now, P);
}
void mc_body(void) {
	switch (choose(8)) {
	case 0: { int32_t v[] = { 0, 1, -1, INT32_MAX, INT32_MIN, 1000, -1000 }; minmax(v, 7, "int32"); break; }
	case 1: { int64_t v[] = { 0, 1, -1, INT64_MAX, INT64_MIN, 5000000000ll }; minmax(v, 6, "int64"); break; }
	case 2: { uint32_t v[] = { 0, 1, UINT32_MAX, 0x80000000u, 0x7fffffffu }; minmax(v, 5, "uint32"); break; }
	case 3: { float v[] = { 0.f, 1.5f, -1.5f, 1e30f, -1e30f, 1e-30f }; minmax(v, 6, "float"); break; }
	case 4: { double v[] = { 0., 1.5, -1.5, 1e300, -1e300, -1e-300 }; minmax(v, 6, "double"); break; }
	case 5: { size_t v[] = { 0, 1, SIZE_MAX, 4096 }; minmax(v, 4, "size_t"); break; }
	case 6: period<PeriodValue<int32_t, true>>(); break;
	case 7: period<PeriodValue<int64_t, false>>(); break;
	}
}
