// C04: linearizability of the lock-free queue against a bounded FIFO, on every explored interleaving.
#include <cy_core.h>
#include <core/cyc_lf_queue.h>
#include "mcrt.h"
#include <vector>
#include <set>
#include <algorithm>
using namespace cyclone;
struct El { uint32_t v; uint32_t chk; uint64_t pad; };
static El mk(uint32_t v) { El e; e.v = v; e.chk = ~v; e.pad = v * 0x100000001ull; return e; }
struct QI { virtual bool push(const El&) = 0; virtual bool pop(El&) = 0; virtual ~QI() {} };
template <uint32_t N> struct QT : QI { LockFreeQueue<El, N> q; bool push(const El& e) override { return q.push(e); } bool pop(El& e) override { return q.pop(e); } };

struct Op { bool push; bool ok; uint32_t v; int inv, res; };
static Op ops[64]; static int nops;           // compacted after the threads have ended
static Op tops[5][16]; static int tn[5];          // per thread
static QI* q; static int cap;
static int script[4][4], slen[4], nthr;

static void do_op(bool push, uint32_t v) {
	int me = mc::self(), i = tn[me]++; Op* ops = tops[me];
	ops[i].push = push; ops[i].v = v;
	if (push) {
		El e = mk(v);
		ops[i].inv = mc::event(1, v);
		bool ok = q->push(e);
		ops[i].res = mc::event(2, v, ok); ops[i].ok = ok;
	} else {
		El e = mk(0xEEEE);
		ops[i].inv = mc::event(3);
		bool ok = q->pop(e);
		ops[i].res = mc::event(4, ok ? e.v : 0, ok); ops[i].ok = ok;
		if (ok) { MC_CHECK(e.chk == ~e.v && e.pad == e.v * 0x100000001ull, "popped element is torn or was never pushed: v=%x chk=%x", e.v, e.chk); ops[i].v = e.v; }
	}
}
static void thr(void* p) {
	long t = (long)p;
	for (int k = 0; k < slen[t]; k++) do_op(script[t][k], (uint32_t)(t * 16 + k + 1));
}
// Wing-Gong search: is there an order of the operations, consistent with real time, that a bounded FIFO allows?
static std::set<std::pair<uint64_t, std::vector<uint32_t>>>* memo;
static int find_push(uint32_t v) { for (int i = 0; i < nops; i++) if (ops[i].push && ops[i].v == v) return i; return -1; }
static bool lin(uint64_t done, std::vector<uint32_t>& fifo) {
	if (done == (1ull << nops) - 1) return true;
	if (!memo->insert({done, fifo}).second) return false;
	int minres = 1 << 30;
	for (int i = 0; i < nops; i++) if (!(done >> i & 1)) minres = std::min(minres, ops[i].res);
	for (int i = 0; i < nops; i++) {
		if (done >> i & 1 || ops[i].inv > minres) continue;
		Op& o = ops[i];
		if (o.push) {
			if (o.ok) { if ((int)fifo.size() >= cap) continue; fifo.push_back(o.v); if (lin(done | 1ull << i, fifo)) return true; fifo.pop_back(); }
			else { if ((int)fifo.size() < cap) continue; if (lin(done | 1ull << i, fifo)) return true; }
		} else if (o.ok) {
			if (fifo.empty() || fifo[0] != o.v) continue;
			fifo.erase(fifo.begin()); if (lin(done | 1ull << i, fifo)) return true; fifo.insert(fifo.begin(), o.v);
		} else {
			bool allowed = fifo.empty();
			if (!allowed) { int p = find_push(fifo[0]); allowed = p >= 0 && ops[p].inv < o.res && ops[p].res > o.inv; }   // the oldest element's push overlaps
			if (allowed && lin(done | 1ull << i, fifo)) return true;
		}
	}
	return false;
}
void mc_setup() { mc::config().preemptions = mc::param("P", 2); mc::config().total = mc::config().preemptions; mc::config().env = 0; mc::config().horizon = 3000; }
void mc_body() {
	int Q = mc::param("Q", 4); nthr = mc::param("thr", 2); int len = mc::param("ops", 2);
	switch (Q) { case 2: q = new QT<2>; break; case 4: q = new QT<4>; break; default: q = new QT<8>; break; }
	cap = Q - 1;
	int turn = mc::param("turn", 1) ? mc::choose(Q) : 0;      // cursor position
	for (int i = 0; i < turn; i++) { El e; MC_CHECK(q->push(mk(7)) && q->pop(e), "queue refuses push/pop when empty"); }
	int fill = mc::choose(cap + 1);
	for (int i = 0; i < fill; i++) do_op(true, 1000 + i);
	int sym = 0;
	for (int t = 0; t < nthr; t++) {
		slen[t] = len; int code = 0;
		for (int k = 0; k < len; k++) { script[t][k] = mc::choose(2); code = code * 2 + script[t][k]; }
		if (code < sym) mc::discard_path();    // threads are interchangeable
		sym = code;
	}
	for (int t = 0; t < nthr; t++) mc::spawn(thr, (void*)(long)(t + 1 - 1));
	mc::join_all();
	// drain; then a push and a pop must succeed
	for (int i = 0; i <= cap + 1; i++) { do_op(false, 0); if (!tops[0][tn[0] - 1].ok) break; }
	do_op(true, 5000); do_op(false, 0); do_op(false, 0);
	for (int t = 0; t <= nthr; t++) for (int i = 0; i < tn[t]; i++) ops[nops++] = tops[t][i];
	std::sort(ops, ops + nops, [](const Op& a, const Op& b) { return a.inv < b.inv; });
	std::set<std::pair<uint64_t, std::vector<uint32_t>>> m; memo = &m; std::vector<uint32_t> f;
	bool ok = lin(0, f);
	uint64_t h = 0;
	for (int i = 0; i < nops; i++) { h = mc::mix(h, ops[i].ok * 65536 + ops[i].v);
		mc::note("%s(%u)=%s [%d,%d]; ", ops[i].push ? "push" : "pop", ops[i].v, ops[i].ok ? "ok" : (ops[i].push ? "full" : "empty"), ops[i].inv, ops[i].res); }
	mc::outcome(h);
	if (!ok) mc::fail("history is not explainable by one bounded FIFO of %d elements (capacity, lost, repeated or reordered element, or a failure without cause)", cap);
}
