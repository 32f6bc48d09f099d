// C16: RingQueue against std::deque.
#include <cy_core.h>
#include <utility/cyu_ring_queue.h>
#include "seqmc.h"
#include <deque>
#include <memory>
using namespace cyclone;
using mc::choose;
// element that owns memory and notices use of dead / moved-from / unassigned slots
struct Own {
	std::unique_ptr<int> v;
	Own() {}
	explicit Own(int x) : v(new int(x)) {}
	Own(const Own& o) : v(o.v ? new int(*o.v) : nullptr) {}
	Own(Own&&) = default; Own& operator=(Own&&) = default;
	Own& operator=(const Own& o) { v.reset(o.v ? new int(*o.v) : nullptr); return *this; }
	int get() const { return v ? *v : -1; }
};
static int val(int x) { return x; } static int val(const Own& o) { return o.get(); } static int val(const std::string& s) { return atoi(s.c_str()); }
template<class T> T mk(int); template<> int mk<int>(int x) { return x; } template<> Own mk<Own>(int x) { return Own(x); }
template<> std::string mk<std::string>(int x) { char b[64]; snprintf(b, 64, "%d is a string that does not fit inline", x); return b; }

template<class T> struct H {
	typedef RingQueue<T> Q; typedef std::deque<int> M;
	size_t fixed; int next = 100;
	void push(Q& q, M& m) { int x = ++next; q.push(mk<T>(x)); mc::step(); if (fixed && m.size() == fixed) m.pop_front(); m.push_back(x); }
	void pop(Q& q, M& m, size_t k) { q.pop(k); mc::step(); size_t e = std::min(k, m.size()); m.erase(m.begin(), m.begin() + e); }
	void observe(Q& q, const M& m) {
		size_t n = m.size();
		MC_CHECK(q.size() == n, "size() is %zu, expected %zu", q.size(), n);
		MC_CHECK(q.empty() == (n == 0), "empty() wrong at %zu", n);
		MC_CHECK(q.capacity() >= n && q.get_free_size() == q.capacity() - n, "capacity %zu, free %zu, size %zu", q.capacity(), q.get_free_size(), n);
		if (fixed) MC_CHECK(q.capacity() == fixed, "fixed capacity %zu became %zu", fixed, q.capacity());
		if (n) { MC_CHECK(val(q.front()) == m.front(), "front() is %d, expected %d", val(q.front()), m.front()); MC_CHECK(val(q.back()) == m.back(), "back() is %d, expected %d", val(q.back()), m.back()); }
		for (size_t i = 0; i < n; i++) MC_CHECK(val(q.get(i)) == m[i], "get(%zu) of %zu is %d, expected %d", i, n, val(q.get(i)), m[i]);
		for (size_t stop = 0; stop <= n; stop += (n > 12 && stop > 1 && stop + 4 < n) ? n - 4 - stop : 1) {
			size_t seen = 0;
			q.walk([&](size_t i, const T& v) -> bool { MC_CHECK(i == seen && i < n && val(v) == m[i], "walk visit %zu: index %zu value %d", seen, i, val(v)); return ++seen < stop; });
			MC_CHECK(seen == (n ? std::max<size_t>(1, std::min(stop, n)) : 0), "walk told to stop after %zu visited %zu of %zu", stop, seen, n);
			seen = 0;
			q.walk_reserve([&](size_t i, const T& v) -> bool { MC_CHECK(seen < n && i == n - 1 - seen && val(v) == m[i], "walk_reserve visit %zu: index %zu value %d", seen, i, val(v)); return ++seen < stop; });
			MC_CHECK(seen == (n ? std::max<size_t>(1, std::min(stop, n)) : 0), "walk_reserve told to stop after %zu visited %zu of %zu", stop, seen, n);
		}
		uint64_t h = mc::mix(q.capacity(), fixed); for (int x : m) h = mc::mix(h, x); mc::state(h);
	}
	void body(int depth) {
		size_t off, fill;
		if (fixed) { off = choose((int)fixed + 1); fill = choose((int)fixed + 1); }
		else { size_t os[] = { 0, 1, 15, 16, 29, 30, 31 }; off = os[choose(7)]; size_t fs[] = { 0, 1, 2, 15, 16, 29, 30, 31, 32, 62, 63, 64 }; fill = fs[choose(12)]; }
		Q q(fixed); M m;
		mc::note("%s capacity, offset %zu fill %zu:", fixed ? "fixed" : "growing", off, fill);
		if (fill == 0) { for (size_t i = 0; i < off; i++) { push(q, m); } pop(q, m, off); }
		else { for (size_t i = 0; i < off; i++) { push(q, m); if (m.size() == 2) pop(q, m, 1); } push(q, m); while (m.size() > 1) pop(q, m, 1); for (size_t i = 1; i < fill; i++) push(q, m); }
		observe(q, m);
		for (int d = 0; d < depth; d++) {
			switch (choose(5)) {
			case 0: return;
			case 1: { int k = fixed ? 1 : (choose(2) ? 1 : 33); mc::note(" push x%d", k); for (int i = 0; i < k; i++) push(q, m); break; }
			case 2: { size_t n = m.size(); size_t ks[] = { 1, 0, 2, n ? n - 1 : 0, n, n + 1, SIZE_MAX }; size_t k = fixed ? (size_t)choose((int)n + 3) : ks[choose(7)]; if (fixed && k == n + 2) k = SIZE_MAX; mc::note(" pop(%zd)", (ssize_t)k); pop(q, m, k); break; }
			case 3: { mc::note(" reset"); q.reset(); m.clear(); mc::step(); break; }
			case 4: { mc::note(" copy"); Q c(q); M cm(m); push(c, cm); observe(q, m); observe(c, cm); q = c; m = cm; mc::step(); break; }
			}
			observe(q, m);
		}
	}
};
template<class T> static void go() {
	int mode = choose(2); H<T> h; h.fixed = 0;
	if (mode) h.fixed = 1 + choose(mc::param("fixed", 4));
	if (h.fixed == 5) h.fixed = 7; if (h.fixed == 6) h.fixed = 8;
	h.body(mc::param("depth", 3));
}
void mc_body(void) { switch (choose(3)) { case 0: mc::note("int "); go<int>(); break; case 1: mc::note("owner "); go<Own>(); break; case 2: mc::note("string "); go<std::string>(); break; } }
