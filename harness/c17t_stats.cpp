// C17, concurrent part: updates from several threads are not lost.
#include <cy_core.h>
#include <utility/cyu_statistics.h>
#include "mcrt.h"
using namespace cyclone;
static MinMaxValue<int32_t>* mm; static MinMaxValue<double>* md; static PeriodValue<int32_t, true>* pv;
static int script[4][4], len, nthr;
static const int vals[] = {-7, 0, 5, 9};
static void thr(void* p) {
	long t = (long)p;
	for (int k = 0; k < len; k++) {
		int v = vals[script[t][k]];
		if (mc::param("part", 0) == 0) { mm->update(v); md->update(v * 0.5); }
		else { pv->push(v); auto r = pv->sum_and_counts(); MC_CHECK(r.second >= 1 && r.second <= 30 + nthr * len, "a sample just pushed is not counted (%d)", r.second); }
	}
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 2); c.total = mc::param("P", 2); c.env = 0; c.horizon = 3000; }
void mc_body() {
	nthr = mc::param("thr", 2); len = mc::param("ops", 2);
	mm = new MinMaxValue<int32_t>; md = new MinMaxValue<double>; pv = new PeriodValue<int32_t, true>(1000);
	int part = mc::param("part", 0), lo = 99, hi = -99, sum = 0, pre = 0;
	if (part == 1) { pre = mc::choose(3); pre = pre == 0 ? 0 : pre == 1 ? 29 : 30; for (int i = 0; i < pre; i++) { pv->push(1); sum++; } sys_api::performance_time_now(); }
	for (int t = 0; t < nthr; t++) for (int k = 0; k < len; k++) { script[t][k] = part == 0 ? mc::choose(4) : k + t; int v = vals[script[t][k]]; lo = v < lo ? v : lo; hi = v > hi ? v : hi; sum += v; }
	for (int t = 0; t < nthr; t++) mc::spawn(thr, (void*)(long)t);
	mc::join_all();
	if (part == 0) {
		MC_CHECK(mm->min() == lo && mm->max() == hi, "extremes are %d..%d, pushed were %d..%d", mm->min(), mm->max(), lo, hi);
		MC_CHECK(md->min() == lo * 0.5 && md->max() == hi * 0.5, "double extremes are %g..%g, pushed were %g..%g", md->min(), md->max(), lo * 0.5, hi * 0.5);
	} else {
		auto r = pv->sum_and_counts();
		MC_CHECK(r.second == pre + nthr * len && r.first == sum, "sum %d count %d, expected %d and %d", r.first, r.second, sum, pre + nthr * len);
		MC_CHECK((int)pv->total_counts() == pre + nthr * len, "total count %zu", pv->total_counts());
	}
	delete mm; delete md; delete pv;
}
