// C03: Packet framing.
#include <cy_core.h>
#include <cy_event.h>
#include "seqmc.h"
#include <memory>
using namespace cyclone;
using mc::choose;
typedef std::vector<uint8_t> Bytes;
static const size_t HEADS[] = { 4, 5, 6, 8, 12 };
static const uint16_t IDS[] = { 0x1234, 0, 0xFFFF, 0x00FF };

static uint8_t g_b; static Bytes content(size_t n) { Bytes b(n); for (auto& x : b) x = (uint8_t)(++g_b * 73 + 5); return b; }
struct Exp { size_t head; uint16_t id; Bytes body; };
static void check_packet(Packet& p, const Exp& e, const char* what, const Bytes* userhead = nullptr) {
	size_t n = e.body.size();
	MC_CHECK(p.get_packet_size() == n, "%s: packet size %u, expected %zu", what, p.get_packet_size(), n);
	MC_CHECK(p.get_packet_id() == e.id, "%s: packet id %u, expected %u", what, p.get_packet_id(), e.id);
	MC_CHECK(p.get_memory_size() == e.head + n, "%s: memory size %zu, expected %zu", what, p.get_memory_size(), e.head + n);
	const uint8_t* m = (const uint8_t*)p.get_memory_buf();
	MC_CHECK(m != nullptr, "%s: no memory", what);
	MC_CHECK(m[0] == (n >> 8) && m[1] == (n & 255), "%s: header size field is %02x%02x for %zu", what, m[0], m[1], n);
	MC_CHECK(m[2] == (e.id >> 8) && m[3] == (e.id & 255), "%s: header id field is %02x%02x for %04x", what, m[2], m[3], e.id);
	if (n) { MC_CHECK(p.get_packet_content() == p.get_memory_buf() + e.head, "%s: content is not behind the header", what); for (size_t i = 0; i < n; i++) MC_CHECK((uint8_t)p.get_packet_content()[i] == e.body[i], "%s: content byte %zu of %zu differs", what, i, n); }
	else MC_CHECK(p.get_packet_content() == nullptr, "%s: content pointer without content", what);
	if (userhead) for (size_t i = 0; i < userhead->size(); i++) MC_CHECK(m[4 + i] == (*userhead)[i], "%s: user header byte %zu differs", what, i);
	volatile uint8_t tail = 0; for (int i = 0; i < 8; i++) tail = tail + m[e.head + n + i];   // the documented safe tail is addressable
	mc::state(mc::hash_bytes(m, e.head + n, 7));
}
static void check_empty(Packet& p, const char* what) {
	MC_CHECK(p.get_memory_size() == 0 && p.get_packet_size() == 0 && p.get_packet_id() == 0 && p.get_packet_content() == nullptr && p.get_memory_buf() == nullptr, "%s: refused, but the packet is not empty (size %u id %u)", what, p.get_packet_size(), p.get_packet_id());
}
static Bytes wire(const Exp& e, Bytes* uh = nullptr) {
	size_t n = e.body.size(); Bytes w{ (uint8_t)(n >> 8), (uint8_t)n, (uint8_t)(e.id >> 8), (uint8_t)e.id };
	for (size_t i = 4; i < e.head; i++) { w.push_back((uint8_t)(0x40 + i)); if (uh) uh->push_back(w.back()); }
	w.insert(w.end(), e.body.begin(), e.body.end());
	return w;
}
// earlier uses of the same object
static void history(Packet& p) {
	switch (choose(4)) {
	case 0: break;
	case 1: { mc::note("(reused after small) "); Bytes c = content(3); p.build_from_memory(6, 77, 3, (char*)c.data()); break; }
	case 2: { mc::note("(reused after large) "); Bytes c = content(3000); p.build_from_memory(8, 78, 2000, (char*)c.data(), 1000, (char*)c.data() + 2000); break; }
	case 3: { mc::note("(reused after copy) "); Bytes c = content(1500); p.build_from_memory(4, 79, 1500, (char*)c.data()); Packet* q = Packet::alloc_packet(&p); Packet::free_packet(q); p.clean(); break; }
	}
}
static size_t pick_size() { static const size_t S[] = { 0, 1, 2, 3, 255, 256, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1020, 1024, 4096, 32767, 32768, 65531, 65535 }; return S[choose(28)]; }

static void part_memory() {
	Exp e; e.head = HEADS[choose(5)]; e.id = IDS[choose(4)];
	size_t total = pick_size(), s1 = 0;
	switch (choose(4)) { case 0: s1 = total; break; case 1: s1 = 0; break; case 2: s1 = total / 2; break; case 3: s1 = total ? total - 1 : 0; break; }
	e.body = content(total);
	mc::note("head %zu id %u size %zu+%zu ", e.head, e.id, s1, total - s1);
	Packet p; history(p);
	std::unique_ptr<char[]> a(new char[s1]), b(new char[total - s1]);
	memcpy(a.get(), e.body.data(), s1); memcpy(b.get(), e.body.data() + s1, total - s1);
	if (s1 == total) p.build_from_memory(e.head, e.id, (uint16_t)s1, s1 ? a.get() : nullptr);
	else p.build_from_memory(e.head, e.id, (uint16_t)s1, s1 ? a.get() : nullptr, (uint16_t)(total - s1), b.get());
	mc::step(); check_packet(p, e, "build_from_memory");
	Packet* c = Packet::alloc_packet(&p); mc::step();
	check_packet(*c, e, "copy");
	memset(p.get_memory_buf(), 0x11, p.get_memory_size());
	check_packet(*c, e, "copy after the original changed");
	p.clean(); check_empty(p, "clean");
	check_packet(*c, e, "copy after the original was cleaned");
	Packet* d = Packet::alloc_packet(&p); check_empty(*d, "copy of an empty packet"); Packet::free_packet(d);
	// the same bytes from a ring buffer wrapped anywhere, and from a pipe
	Bytes uh, w = wire(e, &uh);
	RingBuf rb(w.size() + 3); size_t off = choose(4); off = off == 0 ? 0 : off == 1 ? 1 : off == 2 ? w.size() / 2 : w.size() + 2;
	{ Bytes z(off); rb.memcpy_into(z.data(), off); if (off) { rb.memcpy_into(w.data(), 1); rb.discard(off); rb.memcpy_into(w.data() + 1, w.size() - 1); } else rb.memcpy_into(w.data(), w.size()); }
	bool r = c->build_from_ringbuf(e.head, rb); mc::step();
	MC_CHECK(r && rb.empty(), "complete packet refused from a ring buffer (%zu bytes left)", rb.size());
	check_packet(*c, e, "build_from_ringbuf", &uh);
	if (w.size() < 60000) {
		Pipe pipe; MC_CHECK(pipe.write((char*)w.data(), w.size()) == (ssize_t)w.size(), "pipe write");
		r = c->build_from_pipe(e.head, pipe); mc::step();
		MC_CHECK(r, "complete packet refused from a pipe");
		check_packet(*c, e, "build_from_pipe", &uh);
		Bytes rest(16); MC_CHECK(pipe.read((char*)rest.data(), 16) < 0, "bytes left in the pipe");
	}
	Packet::free_packet(c);
}
// a stream of packets cut at any two positions
static void part_stream() {
	int n = 1 + choose(3); size_t head = HEADS[choose(3)]; std::vector<Exp> es; Bytes all; g_b = 0;
	mc::note("head %zu sizes", head);
	for (int i = 0; i < n; i++) { Exp e; e.head = head; e.id = IDS[(i + 1) % 4]; size_t S[] = { 0, 1, 3, 5 }; e.body = content(S[choose(mc::thorough() ? 4 : 3)]); mc::note(" %zu", e.body.size()); es.push_back(e); Bytes w = wire(e); all.insert(all.end(), w.begin(), w.end()); }
	size_t c1 = choose((int)all.size() + 1), c2 = c1 + choose((int)(all.size() - c1) + 1);
	mc::note(" cut at %zu,%zu ", c1, c2);
	Packet p; size_t next = 0, off = choose(3) * 7;
	RingBuf rb(off ? 16 : 1023);
	if (off) { Bytes z(off); rb.memcpy_into(z.data(), off); rb.memcpy_into(all.data(), std::min<size_t>(1, c1)); rb.discard(off); if (c1 == 0) rb.reset(); }
	size_t fed = off ? std::min<size_t>(1, c1) : 0, consumed = 0;
	size_t cuts[] = { c1, c2, all.size() };
	for (size_t k : cuts) {
		if (k > fed) { rb.memcpy_into(all.data() + fed, k - fed); fed = k; }
		for (;;) {
			bool r = p.build_from_ringbuf(head, rb); mc::step();
			bool expect = next < es.size() && fed - consumed >= head + es[next].body.size();
			MC_CHECK(r == expect, "with %zu bytes of the stream received packet %zu is %s", fed, next, r ? "parsed too early" : "not parsed");
			if (!r) { check_empty(p, "incomplete packet"); break; }
			consumed += head + es[next].body.size();
			check_packet(p, es[next], "stream"); next++;
		}
		MC_CHECK(rb.size() == fed - consumed, "ring buffer holds %zu bytes, expected %zu", rb.size(), fed - consumed);
		Bytes d(rb.size()); rb.peek(0, d.data(), d.size());
		for (size_t i = 0; i < d.size(); i++) MC_CHECK(d[i] == all[consumed + i], "an incomplete packet changed the ring buffer");
	}
	MC_CHECK(next == es.size(), "only %zu of %zu packets recovered", next, es.size());
	// same stream through a pipe, written packet by packet; then a truncated one
	Pipe pipe; MC_CHECK(pipe.write((char*)all.data(), all.size()) == (ssize_t)all.size(), "pipe write");
	for (auto& e : es) { MC_CHECK(p.build_from_pipe(head, pipe), "packet refused from a pipe"); mc::step(); check_packet(p, e, "pipe stream"); }
	MC_CHECK(!p.build_from_pipe(head, pipe), "packet from an empty pipe"); check_empty(p, "empty pipe");
	size_t first = head + es[0].body.size();
	if (c1 < first) {
		if (c1) pipe.write((char*)all.data(), c1);
		MC_CHECK(!p.build_from_pipe(head, pipe), "truncated packet accepted from a pipe"); mc::step(); check_empty(p, "truncated in pipe");
	}
}
// arbitrary bytes
static void part_hostile() {
	static const uint8_t A[] = { 0, 1, 2, 4, 0xFF };
	size_t head = HEADS[choose(3)], len = choose(mc::thorough() ? 9 : 8);
	Bytes b(len); for (auto& x : b) x = A[choose(5)];
	Packet p; 
	{ Bytes c = content(3); p.build_from_memory(6, 77, 3, (char*)c.data()); }
	RingBuf rb(8); rb.memcpy_into(b.data(), len);
	mc::note("head %zu bytes", head); for (auto x : b) mc::note(" %02x", x);
	size_t sz = len >= 2 ? b[0] * 256u + b[1] : 0; bool expect = len >= 2 && len >= head + sz;
	bool r = p.build_from_ringbuf(head, rb); mc::step();
	MC_CHECK(r == expect, "%s", r ? "accepted" : "refused");
	if (r) { Exp e; e.head = head; e.id = (uint16_t)(b[2] * 256 + b[3]); e.body.assign(b.begin() + head, b.begin() + head + sz); check_packet(p, e, "ringbuf"); }
	else check_empty(p, "ringbuf");
	size_t left = r ? len - head - sz : len; MC_CHECK(rb.size() == left, "ring buffer holds %zu, expected %zu", rb.size(), left);
	Bytes d(left); rb.peek(0, d.data(), left); for (size_t i = 0; i < left; i++) MC_CHECK(d[i] == b[len - left + i], "ring buffer content changed");
	if (len <= 7) {
		Pipe pipe; if (len) pipe.write((char*)b.data(), len);
		bool q = p.build_from_pipe(head, pipe); mc::step();
		MC_CHECK(q == expect, "pipe: %s", q ? "accepted" : "refused");
		if (q) { Exp e; e.head = head; e.id = (uint16_t)(b[2] * 256 + b[3]); e.body.assign(b.begin() + head, b.begin() + head + sz); check_packet(p, e, "pipe"); } else check_empty(p, "pipe");
	}
}
void mc_body(void) { g_b = 0; switch (mc::param("part", 0)) { case 0: part_memory(); break; case 1: part_stream(); break; case 2: part_hostile(); break; } }
