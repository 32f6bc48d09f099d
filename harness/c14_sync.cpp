// C14: mutexes and signals of sys_api under every explored interleaving.
#include <cy_core.h>
#include "mcrt.h"
#include <vector>
#include <algorithm>
#include <set>
using namespace cyclone;
enum { LOCK, TRY0, TRY5, AUTO };                       // mutex part
enum { NOTIFY, WAIT, TW0, TW5 };                       // signal part
struct Op { int kind; int arg; bool ok; int inv, res; int64_t t0, t1; int ein, eout; int64_t tin, tout; int thr; };
static Op tops[5][8]; static int tn[5]; static int script[5][4], hold[5][4], len, nthr;
static sys_api::mutex_t mx; static sys_api::signal_t sg;
static int WT = 5, HA = 3, HB = 10;   // ms: timeout, short and long hold
static void scale() { switch (mc::choose(mc::param("scales", 3))) { case 1: mc::sleep_us(997000); break; case 2: mc::sleep_us(400000); WT = 1700; HA = 1650; HB = 2300; break; } }   // a timeout across the full second; one of more than a second
static const char* names0[] = {"lock", "trylock(0)", "trylock(5)", "auto_mutex"};
static const char* names1[] = {"notify", "wait", "timewait(0)", "timewait(5)"};
static Op& begin(int kind) { int t = mc::self(); Op& o = tops[t][tn[t]++]; o.kind = kind; o.thr = t; o.ein = -1; o.t0 = mc::now_us(); o.inv = mc::event(kind * 2); return o; }
static void end(Op& o, bool ok) { o.ok = ok; o.res = mc::event(o.kind * 2 + 1, ok); o.t1 = mc::now_us(); }
static void inside(Op& o, int h) { o.ein = mc::event(100); o.tin = mc::now_us(); if (h == 1) mc::yield(); if (h == 2) sys_api::thread_sleep(HA); if (h == 3) sys_api::thread_sleep(HB); o.eout = mc::event(101); o.tout = mc::now_us(); }
static void thr_mutex(void* p) {
	long t = (long)p;
	for (int k = 0; k < len; k++) {
		int c = script[t][k];
		Op& o = begin(c);
		if (c == LOCK) { sys_api::mutex_lock(mx); end(o, true); inside(o, hold[t][k]); sys_api::mutex_unlock(mx); }
		else if (c == AUTO) { { sys_api::auto_mutex a(mx); end(o, true); inside(o, hold[t][k]); } }
		else { bool ok = sys_api::mutex_try_lock(mx, c == TRY0 ? 0 : WT); end(o, ok); if (ok) { inside(o, hold[t][k]); sys_api::mutex_unlock(mx); } }
		mc::event(102);   // released
		o.arg = mc::event_count();
	}
}
static void thr_signal(void* p) {
	long t = (long)p;
	for (int k = 0; k < len; k++) {
		int c = script[t][k]; if (hold[t][k]) sys_api::thread_sleep(hold[t][k] == 1 ? HA : HB - HA);
		Op& o = begin(c); bool ok = true;
		if (c == NOTIFY) sys_api::signal_notify(sg); else if (c == WAIT) sys_api::signal_wait(sg); else ok = sys_api::signal_timewait(sg, c == TW0 ? 0 : WT);
		end(o, ok);
	}
}
static std::vector<Op> all;
static void collect(const char** nm) {
	for (int t = 0; t <= nthr; t++) for (int i = 0; i < tn[t]; i++) all.push_back(tops[t][i]);
	std::sort(all.begin(), all.end(), [](const Op& a, const Op& b) { return a.inv < b.inv; });
	uint64_t h = 0;
	for (auto& o : all) { mc::note("[%d] %s -> %d events[%d,%d] time[%lld,%lld]us; ", o.thr, nm[o.kind], o.ok, o.inv, o.res, (long long)o.t0, (long long)o.t1); h = mc::mix(h, o.thr * 16 + o.kind * 2 + o.ok); }
	mc::outcome(h);
}
static void body_mutex() {
	bool times = mc::param("times", 0);
	mx = sys_api::mutex_create(); if (times) scale();
	int sym = 0;
	for (int t = 1; t <= nthr; t++) { int code = 0; for (int k = 0; k < len; k++) { script[t][k] = mc::choose(times ? 3 : 4); hold[t][k] = times ? 2 * mc::choose(2) + (mc::param("long", 0) ? 1 : 0) * 0 : mc::choose(2); if (times && hold[t][k] == 2) hold[t][k] = mc::choose(2) ? 3 : 2; code = code * 16 + script[t][k] * 4 + hold[t][k]; } if (code < sym) mc::discard_path(); sym = code; }
	for (int t = 1; t <= nthr; t++) mc::spawn(thr_mutex, (void*)(long)t);
	mc::join_all();
	collect(names0);
	for (auto& a : all) for (auto& b : all) if (&a != &b && a.ein >= 0 && b.ein >= 0 && a.ein < b.ein && b.ein < a.eout) mc::fail("two threads were inside the mutex at the same time (threads %d and %d)", a.thr, b.thr);
	for (auto& o : all) if (!o.ok) {
		int wait = o.kind == TRY5 ? WT * 1000 : 0;
		if (!mc::param("T", 0)) MC_CHECK(o.t1 - o.t0 <= wait + 1000, "timed lock gave up only after %lld us of %d", (long long)(o.t1 - o.t0), wait);
		MC_CHECK(o.t1 - o.t0 >= wait, "timed lock gave up after %lld us of %d", (long long)(o.t1 - o.t0), wait);
		// somebody must have had it: some lock interval [lock call .. after unlock] overlaps the failing call
		bool held = false; for (auto& b : all) if (b.thr != o.thr && b.ok && b.inv < o.res && b.arg > o.inv) held = true;
		MC_CHECK(held, "try lock failed on a mutex nobody held");
		if (wait && !mc::param("T", 0)) {   // in time: no moment of virtual time inside the call at which it was free
			int64_t busy = 0; std::vector<std::pair<int64_t, int64_t>> iv;
			for (auto& b : all) if (b.ok) iv.push_back({std::max(b.tin, o.t0), std::min(b.tout, o.t0 + wait)});
			std::sort(iv.begin(), iv.end()); int64_t at = o.t0;
			for (auto& i : iv) if (i.second > at && i.first <= at) at = i.second;
			(void)busy;
			MC_CHECK(at >= o.t0 + wait, "timed lock failed although the mutex became free at %lld us, %lld us into the call", (long long)at, (long long)(at - o.t0));
		}
	}
	MC_CHECK(sys_api::mutex_try_lock(mx, 0), "mutex not free at the end"); sys_api::mutex_unlock(mx);
	sys_api::mutex_destroy(mx);
}
static std::set<std::pair<uint64_t, int>> memo;
static bool lin(uint64_t done, int state) {
	if (done == (1ull << all.size()) - 1) return true;
	if (!memo.insert({done, state}).second) return false;
	int minres = 1 << 30;
	for (size_t i = 0; i < all.size(); i++) if (!(done >> i & 1)) minres = std::min(minres, all[i].res);
	for (size_t i = 0; i < all.size(); i++) {
		if (done >> i & 1 || all[i].inv > minres) continue;
		Op& o = all[i]; int ns = state;
		if (o.kind == NOTIFY) ns = 1; else if (o.ok) { if (!state) continue; ns = 0; } else if (state) continue;
		if (lin(done | 1ull << i, ns)) return true;
	}
	return false;
}
static int finished() { int n = 0; for (int t = 1; t <= nthr; t++) n += tn[t] == len && tops[t][len - 1].res > 0; return n; }
static void body_signal() {
	bool times = mc::param("times", 0);
	sg = sys_api::signal_create(); if (times) scale();
	int sym = 0;
	for (int t = 1; t <= nthr; t++) { int code = 0; for (int k = 0; k < len; k++) { script[t][k] = mc::choose(4); hold[t][k] = times ? mc::choose(3) : 0; code = code * 16 + script[t][k] * 4 + hold[t][k]; } if (code < sym) mc::discard_path(); sym = code; }
	for (int t = 1; t <= nthr; t++) { for (int k = 0; k < len; k++) tops[t][k].res = 0; }
	int id[5]; for (int t = 1; t <= nthr; t++) id[t] = mc::spawn(thr_signal, (void*)(long)t);
	mc::idle_for(100000 + WT * 3000);
	// whoever still waits is released by one more notification each
	for (int r = 0; r < nthr * len + 1 && mc::live_threads() > 1; r++) {
		int done = 0; for (int t = 1; t <= nthr; t++) done += tn[t] * 2 - (tops[t][tn[t] - 1].res == 0);
		Op& o = begin(NOTIFY); sys_api::signal_notify(sg); end(o, true);
		mc::idle_for(100000 + WT * 3000);
		int done2 = 0; for (int t = 1; t <= nthr; t++) done2 += tn[t] * 2 - (tops[t][tn[t] - 1].res == 0);
		MC_CHECK(done2 > done, "a notification released nobody although a thread waits");
	}
	MC_CHECK(mc::live_threads() == 1, "threads still waiting after a notification for each");
	mc::join_all();
	collect(names1);
	for (auto& o : all) if (!o.ok) MC_CHECK(o.t1 - o.t0 >= (o.kind == TW5 ? WT * 1000 : 0), "timed wait gave up after %lld us of %d", (long long)(o.t1 - o.t0), WT * 1000);
	if (!lin(0, 0)) mc::fail("waits and notifications are not explainable by one latch: a notification was lost, counted twice, invented or missed by a timed wait");
	sys_api::signal_destroy(sg);
}
void mc_setup() { auto& c = mc::config(); c.preemptions = 2; c.env = mc::param("E", 1); c.total = mc::param("D", 2); c.unlock_points = true; c.horizon = 3000; }
void mc_body() {
	uint64_t m = mc::heap_mark();
	nthr = mc::param("thr", 2); len = mc::param("ops", 2);
	if (mc::param("part", 0) == 0) body_mutex(); else body_signal();
	(void)m;
}
