// C02: RingBuf::read_socket / write_socket against a kernel that may answer anything it is allowed to answer.
#include <cy_core.h>
#include "seqmc.h"
#include "iowrap.h"
#include <deque>
#include <memory>
using namespace cyclone;
using mc::choose;
typedef std::deque<uint8_t> Model;
enum { FD = 5001 };
static uint8_t g_next; static uint8_t gen() { g_next++; return (uint8_t)(g_next * 37 + 11); }

// --- kernel ---
static std::vector<uint8_t> k_given, k_taken;      // bytes handed over / accepted in this operation
static size_t k_avail; static bool k_big; static int k_calls; static bool k_eof, k_err; static int k_errno; static size_t k_asked;
static bool k_eof_pending;
static size_t pick_count(size_t max) {              // short counts
	if (!k_big) return max <= 1 ? max : 1 + choose((int)max);
	size_t o[5]; int n = 0; size_t c[] = { max, 1, max - 1, max / 2, max > 65535 ? max - 65535 : max };
	for (size_t v : c) if (v >= 1 && v <= max) { bool dup = false; for (int i = 0; i < n; i++) dup |= o[i] == v; if (!dup) o[n++] = v; }
	return o[choose(n)];
}
static const int ERRS[] = { EAGAIN, EINTR, ECONNRESET };
static ssize_t io_error() { static const char* names[] = { "EAGAIN", "EINTR", "ECONNRESET" }; int e = choose(3); k_err = true; k_errno = ERRS[e]; mc::note("(%s)", names[e]); errno = k_errno; return -1; }
ssize_t io_read(int fd, const iovec* v, int n) {
	MC_CHECK(fd == FD, "read from a foreign descriptor %d", fd);
	MC_CHECK(++k_calls < 8, "read repeated without end");
	size_t L = 0; for (int i = 0; i < n; i++) L += v[i].iov_len;
	k_asked += L;
	for (int i = 0; i < n; i++) if (v[i].iov_len) { memset(v[i].iov_base, 0xEE, 1); ((char*)v[i].iov_base)[v[i].iov_len - 1] = (char)0xEE; }   // the whole range must be writable
	if (L == 0) return 0;
	size_t max = std::min(L, k_avail);
	if (max == 0) {                                  // nothing there: would block, EOF or an error
		if (k_eof_pending || choose(2)) { k_eof = k_eof_pending = true; mc::note("(EOF)"); return 0; }
		return io_error();
	}
	if (k_calls == 1 ? choose(4) == 3 : choose(3) == 2) return io_error();   // interrupted / reset although data is there
	size_t cnt = pick_count(max), left = cnt; k_avail -= cnt;
	mc::note("(r%zu/%zu)", cnt, L);
	for (int i = 0; i < n && left; i++) { size_t m = std::min(left, v[i].iov_len); for (size_t j = 0; j < m; j++) { uint8_t b = gen(); ((uint8_t*)v[i].iov_base)[j] = b; k_given.push_back(b); } left -= m; }
	return (ssize_t)cnt;
}
ssize_t io_write(int fd, const iovec* v, int n) {
	MC_CHECK(fd == FD, "write to a foreign descriptor %d", fd);
	MC_CHECK(++k_calls < 8, "write repeated without end");
	size_t L = 0; for (int i = 0; i < n; i++) L += v[i].iov_len;
	k_asked += L;
	if (L == 0) return 0;
	if (choose(3) == 2) return io_error();
	size_t cnt = pick_count(L), left = cnt;
	mc::note("(w%zu/%zu)", cnt, L);
	for (int i = 0; i < n && left; i++) { size_t m = std::min(left, v[i].iov_len); for (size_t j = 0; j < m; j++) k_taken.push_back(((const uint8_t*)v[i].iov_base)[j]); left -= m; }
	return (ssize_t)cnt;
}
static void k_reset(size_t avail) { k_given.clear(); k_taken.clear(); k_avail = avail; k_calls = 0; k_eof = k_err = false; k_asked = 0; }

static void same(const RingBuf& rb, const Model& m) {
	MC_CHECK(rb.size() == m.size(), "size() is %zu, expected %zu", rb.size(), m.size());
	MC_CHECK(rb.get_free_size() == rb.capacity() - m.size(), "free size wrong");
	std::unique_ptr<uint8_t[]> d(new uint8_t[m.size()]);
	size_t r = m.size() ? rb.peek(0, d.get(), m.size()) : 0;
	MC_CHECK(r == m.size(), "peek returned %zu", r);
	size_t i = 0; for (uint8_t b : m) { MC_CHECK(d[i] == b, "content byte %zu is %u, expected %u", i, d[i], b); i++; }
	uint64_t h = rb.capacity(); for (uint8_t b : m) h = mc::mix(h, b);
	mc::state(h);
}
static void put(RingBuf& rb, Model& m, size_t k) { std::unique_ptr<uint8_t[]> s(new uint8_t[k]); for (size_t i = 0; i < k; i++) { s[i] = gen(); m.push_back(s[i]); } rb.memcpy_into(s.get(), k); }
static void drop(RingBuf& rb, Model& m, size_t k) { size_t e = std::min(k, m.size()); rb.discard(k); m.erase(m.begin(), m.begin() + e); }
static void shape(RingBuf& rb, Model& m, size_t cap, size_t off, size_t f) {
	if (f == 0) { if (off) { put(rb, m, std::min(off, cap)); drop(rb, m, off); } return; }
	if (off < cap) { put(rb, m, off + 1); if (off) drop(rb, m, off); }
	else { put(rb, m, cap); if (cap > 1) drop(rb, m, cap - 1); put(rb, m, 1); drop(rb, m, 1); }
	if (f > 1) put(rb, m, f - 1);
}
static void do_read(RingBuf& rb, Model& m, size_t avail, bool extra) {
	size_t fr = rb.get_free_size(), cap = rb.capacity();
	mc::note(" read[%zu available%s]", avail, extra ? "" : ", no growth");
	k_reset(k_eof_pending ? 0 : avail); errno = 0;
	ssize_t r = extra ? rb.read_socket(FD) : rb.read_socket(FD, false); mc::step();
	int e = errno;
	for (uint8_t b : k_given) m.push_back(b);
	if (!extra) { MC_CHECK(k_given.size() <= fr, "read beyond the free space although growth was not allowed"); MC_CHECK(rb.capacity() == cap, "buffer grew although growth was not allowed"); }
	if (!k_given.empty()) MC_CHECK(r == (ssize_t)k_given.size(), "kernel handed over %zu bytes, read_socket returned %zd", k_given.size(), r);
	else if (k_eof) MC_CHECK(r == 0, "end of file, read_socket returned %zd", r);
	else if (k_err) MC_CHECK(r < 0 && e == k_errno, "kernel answered errno %d with nothing transferred, read_socket returned %zd errno %d", k_errno, r, e);
	else MC_CHECK(r == 0 && !extra && fr == 0, "nothing asked of the kernel, read_socket returned %zd", r);
	same(rb, m);
}
static void do_write(RingBuf& rb, Model& m) {
	mc::note(" write");
	k_reset(0); errno = 0;
	size_t had = m.size();
	ssize_t r = rb.write_socket(FD); mc::step();
	int e = errno;
	MC_CHECK(k_taken.size() <= had, "kernel was handed %zu bytes of %zu", k_taken.size(), had);
	for (size_t i = 0; i < k_taken.size(); i++) { MC_CHECK(k_taken[i] == m.front(), "byte %zu written is %u, expected %u", i, k_taken[i], m.front()); m.pop_front(); }
	MC_CHECK(k_calls > 0, "write_socket made no system call");
	if (!k_taken.empty()) MC_CHECK(r == (ssize_t)k_taken.size(), "kernel accepted %zu bytes, write_socket returned %zd", k_taken.size(), r);
	else MC_CHECK(r < 0 && e == k_errno, "kernel refused with errno %d, write_socket returned %zd errno %d", k_errno, r, e);
	same(rb, m);
}
void mc_body(void) {
	g_next = 0; k_eof_pending = false;
	int depth = mc::param("depth", 2); k_big = mc::param("big", 0) != 0;
	size_t cap, off, f;
	if (!k_big) {
		cap = 1 + choose(mc::param("cap", 4)); off = choose((int)cap + 1); f = choose((int)cap + 1);
	} else {
		static const size_t C[] = { 1023, 1024, 65534, 65535, 70000 }; cap = C[choose(5)];
		size_t os[] = { 0, 1, cap / 2, cap }; off = os[choose(4)];
		size_t fs[] = { 1, cap / 2, cap - 1, cap, 0 }; f = fs[choose(5)];
	}
	RingBuf rb(cap); Model m;
	shape(rb, m, cap, off, f);
	mc::note("RingBuf(%zu) read offset %zu fill %zu:", cap, off, f);
	same(rb, m);
	for (int i = 0; i < depth; i++) {
		size_t fr = rb.get_free_size();
		switch (choose(m.empty() ? 3 : 5)) {
		case 0: return;
		case 1: {
			size_t a;
			if (k_big) { size_t as[] = { fr, fr + 1, fr + 65534, fr + 65535, fr + 65536, fr / 2 + 1, 0 }; a = as[choose(7)]; }
			else a = choose((int)std::min<size_t>(fr, 6) + 3);
			do_read(rb, m, a, true); break; }
		case 2: { size_t a = k_big ? (choose(2) ? fr : fr + 1) : choose((int)std::min<size_t>(fr, 6) + 2); do_read(rb, m, a, false); break; }
		case 3: do_write(rb, m); break;
		case 4: { size_t k = k_big ? m.size() / 2 + 1 : 1 + choose((int)m.size()); mc::note(" discard%zu", k); drop(rb, m, k); same(rb, m); break; }
		}
	}
}
