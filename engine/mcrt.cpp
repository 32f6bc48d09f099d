// scheduler, happens-before state hashing, heap, explorer
#include "mcrt_int.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <linux/futex.h>

namespace mcrt {
bool active; int64_t now_ns; __thread Th* me; __thread int in_rt;
char clock_obj, history_obj, threads_obj, free_obj;
int64_t (*next_timer)(); void (*exec_begin)();
static Th th[MAXT]; static int nth;
static mc::Config cfg; static bool g_thorough; static int g_argc; static char** g_argv;

// ---------------------------------------------------------------- shared memory
enum { MAXREC = 40000, MAXD = 120, NOTE = 60000, MAXW = 32, NB = 12, VBITS0 = 16, VBITS = 25, PCN = 4096, MSG = 3000 };
enum { C_FREE, C_P, C_E, C_T };
struct Rec { uint16_t n; uint8_t cls, timealt; uint8_t fresh, pad[3]; uint16_t chosen, pad2; };
struct Dev { uint32_t pos; uint32_t val; };
struct Item { int32_t next; uint8_t used[4]; int16_t n; int16_t bucket; Dev d[MAXD]; };
enum { RS_RUN, RS_OK, RS_PRUNED, RS_FAIL, RS_DISCARD, RS_ERROR };
struct Slot {
	Item it; int result; int nrec; Rec rec[MAXREC];
	uint64_t steps, depth, nthreads, preempt; uint64_t outcome;
	char msg[MSG]; char note[NOTE]; int notelen;
	bool trace;
	uint64_t paths, pruned, discarded, tsteps, maxrec, maxsteps, errors, toolong; char errmsg[400];
	char sample[2][3000]; int nsample;
};
struct VE { std::atomic<uint64_t> key; std::atomic<uint32_t> used; uint32_t pad; };
enum { POOL = 1600000 };
struct Shm {
	std::atomic<int> lock; std::atomic<int> stop, inflight; int32_t freelist; int32_t poolused; int32_t head[NB], tail[NB]; uint64_t queued;
	std::atomic<uint64_t> states, vfull, poolfull, outcomes, execs, failed_worker; std::atomic<int> failed;
	std::atomic<uint64_t> promoted[PCN], racy[PCN]; std::atomic<int> npromoted, nracy, free_promoted, free_racy;
	std::atomic<uint64_t> oset[1 << 16];
	uint64_t maxexec; bool fifo;
	Slot slot[MAXW];
	Item pool[POOL];
	std::atomic<int> vbits, growing, running; std::atomic<uint64_t> ventries;
	VE v[2u << VBITS];   // the table of 2^b entries begins at index 2^b; only the current one is in use
};
static Shm* shm; static Slot* S;
static bool discover;
static double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- memory
static const uintptr_t ARENA0 = 0x600000000000ull, ARENASZ = 1ull << 28, SHADOW0 = 0x500000000000ull;
enum { NARENA = MAXT + 1 };                       // last one: the runtime's own
struct Blk { uint32_t magic; uint32_t serial; uint64_t size; Blk* prev; uint64_t pc; };
enum { M_LIVE = 0x4c495645, M_FREE = 0x46524545 };
struct Arena { uintptr_t cur; Blk* last; };
static Arena arena[NARENA]; static bool mem_ready; static uint32_t serial;
static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(SHADOW0 + ((a - ARENA0) >> 3)); }
static inline bool in_arena(uintptr_t a) { return a - ARENA0 < NARENA * ARENASZ; }
static inline bool in_model_arena(uintptr_t a) { return a - ARENA0 < MAXT * ARENASZ; }
static void mem_init() {
	void* a = mmap((void*)ARENA0, NARENA * ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* s = mmap((void*)SHADOW0, NARENA * ARENASZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void*)ARENA0 || s != (void*)SHADOW0) { static const char m[] = "mcrt: cannot map arenas\n"; (void)!::write(2, m, sizeof m); _exit(2); }
	for (int i = 0; i < NARENA; i++) arena[i].cur = ARENA0 + i * ARENASZ + 64;
	mem_ready = true;
}
static void* heap_alloc(size_t n, size_t align, int fill, void* pc) {
	if (!mem_ready) mem_init();
	bool rt = in_rt > 0 || (active && !me);
	int ai = rt ? MAXT : me ? me->id : 0;
	Arena& A = arena[ai];
	if (n > (1ull << 40)) { errno = ENOMEM; return nullptr; }
	if (align < 16) align = 16;
	uintptr_t p = (A.cur + sizeof(Blk) + 16 + align - 1) & ~(align - 1);
	uintptr_t end = (p + n + 7) & ~7ull;
	if (n > ARENASZ || end + 64 > ARENA0 + (ai + 1) * ARENASZ) { errno = ENOMEM; return nullptr; }
	A.cur = end + 16;
	Blk* b = (Blk*)(p - sizeof(Blk));
	b->magic = M_LIVE; b->size = n; b->prev = A.last; b->pc = (uint64_t)pc; b->serial = rt ? 0 : ++serial;
	A.last = b;
	if (!rt) {
		memset(shadow(p), 8, n >> 3);
		if (n & 7) *shadow(p + (n & ~7ull)) = n & 7;
		if (n <= 4096 && fill >= 0) memset((void*)p, fill, n);
	}
	return (void*)p;
}
void* rt_alloc(size_t n) { Guard g; return heap_alloc(n, 16, 0, nullptr); }
static void heap_free(void* q, void* pc) {
	if (!q) return;
	uintptr_t p = (uintptr_t)q;
	if (!in_arena(p)) { if (active) fail_now("free of %p, which is not a heap block", q); return; }
	if (!in_model_arena(p)) return;
	Blk* b = (Blk*)(p - sizeof(Blk));
	if (b->magic == M_FREE) { if (active) fail_now("double free of a %lu byte heap block", (unsigned long)b->size); return; }
	if (b->magic != M_LIVE) { if (active) fail_now("free of %p, which is not the start of a heap block", q); return; }
	b->magic = M_FREE;
	if (active || in_rt) {}
	memset(shadow(p), 0xFD, (b->size + 7) >> 3);
	if (b->size <= 4096) memset(q, 0xDD, b->size);
}
static const char* bad_addr(uintptr_t a, size_t n, Blk** bout) {
	for (uintptr_t x = a; x < a + n;) {
		uint8_t s = *shadow(x); uintptr_t off = x & 7, end = a + n < (x & ~7ull) + 8 ? a + n - (x & ~7ull) : 8;
		(void)off;
		if (s != 8 && (s == 0 || s == 0xFD || end > s)) {
			*bout = nullptr;
			int ai = (x - ARENA0) / ARENASZ;
			for (Blk* b = arena[ai].last; b; b = b->prev) if ((uintptr_t)(b + 1) <= x + 32) { *bout = b; break; }
			return s == 0xFD ? "freed heap memory" : "memory outside a heap block";
		}
		x = (x & ~7ull) + 8;
	}
	return nullptr;
}
static void check_slow(const void* p, size_t n, bool write, const char* what) {
	Blk* b; const char* w = bad_addr((uintptr_t)p, n, &b);
	if (w) fail_now("%s%s of %zu byte(s) of %s (block of %lu bytes, offset %ld)", what, write ? "write" : "read", n, w, b ? (unsigned long)b->size : 0ul, b ? (long)((uintptr_t)p - (uintptr_t)(b + 1)) : 0l);
}
static inline void check_fast(uintptr_t a, size_t n, bool write) {
	if (!in_model_arena(a)) { if (a < 4096) fail_now("null pointer %s at address %p", write ? "write" : "read", (void*)a); return; }
	uint8_t s = *shadow(a);
	if (__builtin_expect(s == 8 && ((a & 7) + n) <= 8, 1)) return;
	check_slow((const void*)a, n, write, "");
}
void check_range(const void* p, size_t n, bool write, const char* what) {
	if (!n || !on()) { if (!n || !active || !me) return; }
	if (in_model_arena((uintptr_t)p)) { char w[80]; { Guard g; snprintf(w, sizeof w, "%s: ", what); } check_slow(p, n, write, w); }
	else if ((uintptr_t)p < 4096) fail_now("%s: null pointer %s", what, write ? "write" : "read");
}

// ---------------------------------------------------------------- objects (conflict order, vector clocks)
struct Obj { uintptr_t key; uint64_t wh, rh; uint32_t vc[MAXT]; };
enum { OBITS = 16, OMAX = 40000 };
static uint32_t oidx[1 << OBITS]; static Obj objs[OMAX]; static int nobj;
static Obj* find(const void* p, bool create) {
	uintptr_t k = (uintptr_t)p;
	for (uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> (64 - OBITS);; i = (i + 1) & ((1 << OBITS) - 1)) {
		if (!oidx[i]) {
			if (!create) return nullptr;
			if (++nobj >= OMAX) fail_now("mcrt: too many shared objects");
			oidx[i] = nobj; objs[nobj].key = k; return &objs[nobj];
		}
		if (objs[oidx[i]].key == k) return &objs[oidx[i]];
	}
}
static inline uint64_t hmix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xBF58476D1CE4E5B9ull; a ^= a >> 31; return a; }
static void unyield_others() { for (int i = 0; i < nth; i++) if (&th[i] != me) th[i].yielded = false; }
void access(const void* o, bool write, uint64_t opc) {
	if (!me || nth < 2) return;
	Obj* b = find(o, true);
	if (write) {
		me->hash = hmix(hmix(hmix(me->hash, (uint64_t)o ^ (opc << 48)), b->wh), b->rh);
		b->wh = me->hash; b->rh = 0; me->spin = 0; unyield_others();
	} else {
		me->hash = hmix(hmix(me->hash, ((uint64_t)o ^ (opc << 48)) + 1), b->wh);
		b->rh += me->hash | 1; 
		if (o != &clock_obj && ++me->spin > 300) { me->spin = 0; yield_point(); }
	}
}
void sync(const void* o, bool acq, bool rel) {
	if (!me || !discover) return;
	Obj* b = find(o, true);
	if (acq) for (int i = 0; i < nth; i++) if (b->vc[i] > me->vc[i]) me->vc[i] = b->vc[i];
	if (rel) { for (int i = 0; i < nth; i++) if (me->vc[i] > b->vc[i]) b->vc[i] = me->vc[i]; me->vc[me->id]++; }
}
void mixin(uint64_t v) { if (me) me->hash = hmix(me->hash, v * 2 + 77); }

// race detection (discovery only)
struct RG { uintptr_t a; uint64_t wpc; uint32_t wclk; uint8_t wt; bool watom; uint32_t rclk[MAXT]; uint64_t rpc[MAXT]; };
enum { RBITS = 17, RMAX = 60000, ATOMIC_PC = 1 };
static uint32_t ridx[1 << RBITS]; static RG rg[RMAX]; static int nrg;
static RG* rfind(uintptr_t k) {
	for (uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> (64 - RBITS);; i = (i + 1) & ((1 << RBITS) - 1)) {
		if (!ridx[i]) { if (nrg + 1 >= RMAX) return nullptr; ridx[i] = ++nrg; rg[nrg].a = k; return &rg[nrg]; }
		if (rg[ridx[i]].a == k) return &rg[ridx[i]];
	}
}
enum { FREE_PC = 2 };
static bool pc_in(std::atomic<uint64_t>* set, uint64_t pc) {
	for (uint64_t i = (pc * 0x9E3779B97F4A7C15ull) >> 52, k = 0; k < PCN; k++, i = (i + 1) & (PCN - 1)) { uint64_t v = set[i].load(std::memory_order_relaxed); if (v == pc) return true; if (!v) return false; }
	return false;
}
static bool pc_add(std::atomic<uint64_t>* set, std::atomic<int>& n, uint64_t pc) {
	for (uint64_t i = (pc * 0x9E3779B97F4A7C15ull) >> 52, k = 0; k < PCN / 2; k++, i = (i + 1) & (PCN - 1)) {
		uint64_t v = set[i].load(); if (v == pc) return false;
		if (!v) { if (set[i].compare_exchange_strong(v, pc)) { n++; return true; } if (v == pc) return false; }
	}
	return false;
}
static void racy(uint64_t pc) {
	if (pc == ATOMIC_PC) return;
	if (pc == FREE_PC) { shm->free_racy = 1; return; }
	if (!pc_in(shm->racy, pc)) pc_add(shm->racy, shm->nracy, pc);
}
static void race_access(uintptr_t a, bool write, uint64_t pc) {
	RG* g = rfind(a >> 3); if (!g) return;
	int t = me->id;
	if (g->wclk && g->wt != t && g->wclk > me->vc[g->wt] && !(pc == ATOMIC_PC && g->wpc == ATOMIC_PC)) { racy(pc); racy(g->wpc); }
	if (write) {
		for (int i = 0; i < nth; i++) if (i != t && g->rclk[i] && g->rclk[i] > me->vc[i] && !(pc == ATOMIC_PC && g->rpc[i] == ATOMIC_PC)) { racy(pc); racy(g->rpc[i]); }
		g->wclk = me->vc[t]; g->wt = t; g->wpc = pc;
	} else { g->rclk[t] = me->vc[t]; g->rpc[t] = pc; }
}
// plain accesses of instrumented code
void plain(uintptr_t a, size_t n, bool write, uint64_t pc) {
	check_fast(a, n, write);
	if (nth < 2) return;
	if (shm->npromoted.load(std::memory_order_relaxed) && pc_in(shm->promoted, pc)) {
		point(write ? "plain write" : "plain read", (void*)a);
		check_fast(a, n, write);
		for (uintptr_t x = a & ~7ull; x < a + n && x < a + 256; x += 8) access((void*)x, write, 7);
	}
	if (discover) { Guard g; for (uintptr_t x = a & ~7ull; x < a + n && x < a + 4096; x += 8) race_access(x, write, pc); }
}
void atomic_access(uintptr_t a, bool write) { if (discover && nth > 1) race_access(a, write, ATOMIC_PC); }
static void on_free(void* q) {
	if (!q || nth < 2 || !in_model_arena((uintptr_t)q)) return;
	Blk* b = (Blk*)((uintptr_t)q - sizeof(Blk));
	if (b->magic != M_LIVE) return;
	if (shm->free_promoted) point("free", q);
	if (b->size <= 8192) for (uintptr_t x = (uintptr_t)q; x < (uintptr_t)q + b->size; x += 8) {
		if (find((void*)x, false)) access((void*)x, true, 9);
		if (discover) race_access(x, true, FREE_PC);
	}
}

// ---------------------------------------------------------------- execution control
static void finish(int result) { S->result = result; S->nthreads = nth; _exit(result == RS_FAIL ? 1 : 0); }
void fail_now(const char* f, ...) {
	in_rt++; active = false;
	va_list a; va_start(a, f); int k = 0;
	k = vsnprintf(S->msg, MSG, f, a); va_end(a);
	if (k < MSG - 40) snprintf(S->msg + k, MSG - k, " [in thread %d]", me ? me->id : -1);
	if (getenv("MCRT_BT")) { void* bt[2] = {__builtin_return_address(0), nullptr}; fprintf(stderr, "fail from %p\n", bt[0]); abort(); }
	finish(RS_FAIL); __builtin_unreachable();
}
static void engine_error(const char* f, ...) {
	in_rt++; active = false;
	va_list a; va_start(a, f); vsnprintf(S->msg, MSG, f, a); va_end(a); finish(RS_ERROR); __builtin_unreachable();
}
bool tracing() { return S && S->trace; }
void tracef(const char* f, ...) {
	if (!tracing()) return;
	Guard g; va_list a; va_start(a, f); int left = NOTE - S->notelen - 1;
	if (left > 1) { int k = vsnprintf(S->note + S->notelen, left, f, a); if (k > 0) S->notelen += k < left ? k : left - 1; }
	va_end(a);
}
static uint64_t salt;
static int nforced; static Dev* forced; static int nextf;
static uint64_t state_key(bool cur_ok) {
	uint64_t h = hmix(0x1234567 + salt, (uint64_t)now_ns);
	for (int i = 0; i < nth; i++) h = hmix(h, th[i].hash ^ ((uint64_t)th[i].state << 60) ^ ((uint64_t)th[i].yielded << 59));
	h = hmix(h, (me ? me->id : 99) * 2 + cur_ok);
	return h ? h : 1;
}
// true: seen before with no more deviations used than now
static bool seen(uint64_t key) {
	uint32_t u = S->it.used[1] | S->it.used[2] << 8 | S->it.used[3] << 16 | 1u << 24;
	const int bits = shm->vbits; const uint64_t m = (1ull << bits) - 1;
	for (uint64_t i = (key * 0x9E3779B97F4A7C15ull) >> (64 - bits), k = 0; k < 48; k++, i = (i + 1) & m) {
		VE& e = shm->v[m + 1 + i]; uint64_t v = e.key.load(std::memory_order_relaxed);
		if (!v) { if (e.key.compare_exchange_strong(v, key)) { e.used = u; shm->states.fetch_add(1, std::memory_order_relaxed); shm->ventries.fetch_add(1, std::memory_order_relaxed); return false; } }
		if (v == key) {
			uint32_t o = e.used.load();
			if (!o) return false;   // just being inserted: explore twice rather than not at all
			bool le = (o & 255) <= (u & 255) && (o >> 8 & 255) <= (u >> 8 & 255) && (o >> 16 & 255) <= (u >> 16 & 255);
			if (le) return true;
			bool ge = (o & 255) >= (u & 255) && (o >> 8 & 255) >= (u >> 8 & 255) && (o >> 16 & 255) >= (u >> 16 & 255);
			if (ge) e.used = u;
			return false;
		}
	}
	shm->vfull.fetch_add(1, std::memory_order_relaxed);
	return false;
}
static int choice(int n, int cls, bool timealt, bool cur_ok) {
	int pos = S->nrec;
	if (pos >= MAXREC) fail_now("no termination: more than %d decisions in one execution", MAXREC);
	int v = 0; bool fresh = nextf >= nforced;
	if (!fresh && forced[nextf].pos == (uint32_t)pos) {
		v = forced[nextf].val; nextf++;
		if (v >= n) engine_error("mcrt: nondeterministic execution (decision %d: %d of %d)", pos, v, n);
	} else if (fresh && !tracing()) {
		if (seen(state_key(cur_ok))) finish(RS_PRUNED);
	}
	Rec& r = S->rec[pos]; r.n = n; r.cls = cls; r.timealt = timealt; r.fresh = fresh; r.chosen = v;
	S->nrec++;
	return v;
}
static void futex_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void wait_turn(Th* self) {
	while (!__atomic_load_n(&self->go, __ATOMIC_ACQUIRE)) futex_wait(&self->go, 0);
	__atomic_store_n(&self->go, 0, __ATOMIC_RELAXED);
}
static void hand_over(Th* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex_wake(&t->go); }
static int stall, dry;
static void advance_to(int64_t t) {
	if (t > now_ns) now_ns = t;
	Obj* b = find(&clock_obj, true); b->wh = hmix(b->wh, now_ns); b->rh = 0;
	for (int i = 0; i < nth; i++) th[i].yielded = false;
	tracef("  -- time %.3f ms\n", now_ns / 1e6);
}
static bool enabled(Th* t) {
	if (t->state == ST_RUN) return !t->yielded;
	if (t->state != ST_BLOCKED || t->idler) return false;
	if (t->deadline >= 0 && t->deadline <= now_ns) return true;
	return t->ready(t);
}
static int64_t next_event() {
	int64_t N = -1;
	for (int i = 0; i < nth; i++) if (th[i].state == ST_BLOCKED && !th[i].idler && th[i].deadline > now_ns && (N < 0 || th[i].deadline < N)) N = th[i].deadline;
	if (next_timer) { int64_t k = next_timer(); if (k > now_ns && (N < 0 || k < N)) N = k; }
	return N;
}
static Th* pick(bool cur_ok, bool yielding) {
	for (;;) {
		Th* list[MAXT]; int n = 0;
		if (cur_ok && me) list[n++] = me;
		int base = me ? me->id : 0;
		for (int k = 1; k <= nth; k++) { Th* t = &th[(base + k) % nth]; if (cur_ok && t == me) continue; if (enabled(t)) list[n++] = t; }
		if (n == 0) {
			bool y = false; for (int i = 0; i < nth; i++) if (th[i].state == ST_RUN && th[i].yielded) y = true;
			if (y && stall < 12) { stall++; for (int i = 0; i < nth; i++) th[i].yielded = false; continue; }
			stall = 0;
			Th* idl = nullptr; for (int i = 0; i < nth; i++) if (th[i].state == ST_BLOCKED && th[i].idler && (!idl || th[i].deadline < idl->deadline)) idl = &th[i];
			int64_t N = next_event();
			if (idl && (N < 0 || N > idl->deadline)) {
				if (idl->deadline > now_ns) advance_to(idl->deadline);
				return idl;
			}
			if (N >= 0) { advance_to(N); dry = 0; continue; }
			if (y && ++dry < 500) { advance_to(now_ns + 1000000); continue; }
			char b[900]; int o = 0;
			for (int i = 0; i < nth; i++) if (th[i].state != ST_DONE) o += snprintf(b + o, sizeof b - o, " thread %d: %s;", i, th[i].state == ST_RUN ? "spinning" : th[i].why);
			fail_now("%s: nothing can happen any more:%s", y ? "livelock" : "deadlock", b);
		}
		bool ta = cfg.early_time > 0 && nth > 1 && next_event() >= 0;
		if (n + ta == 1) return list[0];
		int cls = (cur_ok || yielding) ? C_P : cfg.block_choice_free ? C_FREE : C_P;
		int v = choice(n + ta, cls, ta, cur_ok);
		if (v == n) { advance_to(next_event()); continue; }
		if (v && cur_ok) S->preempt++;
		return list[v];
	}
}
static void run(Th* t) {
	if (t->idler) t->idler = false;
	if (t == me) return;
	Th* self = me;
	if (tracing()) tracef("  -- switch to thread %d\n", t->id);
	hand_over(t);
	if (self && self->state != ST_DONE) wait_turn(self);
}
void point(const char* what, const void* obj) {
	if (!on()) return;
	Guard g;
	if (tracing() && nth > 1) tracef("  [%d] %s %p\n", me->id, what, obj);
	if (++S->steps > (uint64_t)cfg.horizon) fail_now("no termination: more than %d steps (last: %s)", cfg.horizon, what);
	if (nth < 2) return;
	Th* t = pick(true, false);
	run(t);
	me->hash = hmix(me->hash, 3);
}
bool block(const char* why, ReadyFn ready, const void* obj, int64_t deadline, long arg) {
	Guard g;
	me->ready = ready; me->wobj = obj; me->deadline = deadline; me->why = why; me->warg = arg; me->state = ST_BLOCKED;
	if (tracing()) tracef("  [%d] waits: %s\n", me->id, why);
	if (++S->steps > (uint64_t)cfg.horizon) fail_now("no termination: more than %d steps (last: %s)", cfg.horizon, why);
	Th* t = pick(false, false);
	run(t);
	bool r = ready(me);
	me->state = ST_RUN; me->ready = nullptr; me->deadline = -1;
	me->hash = hmix(me->hash, r ? 5 : 6);
	return r;
}
void yield_point() {
	if (!on()) return;
	Guard g;
	if (++S->steps > (uint64_t)cfg.horizon) fail_now("no termination: more than %d steps (last: yield)", cfg.horizon);
	if (nth < 2) return;
	me->yielded = true;
	if (tracing()) tracef("  [%d] yields\n", me->id);
	Th* t = pick(false, true);
	me->hash = hmix(me->hash, 4);
	run(t);
	me->yielded = false;
}
static bool ready_never(Th*) { return false; }
static void idle_until(int64_t d) {
	Guard g;
	if (nth < 2 && d <= now_ns && !next_timer) return;
	me->ready = ready_never; me->deadline = d; me->why = "idle"; me->state = ST_BLOCKED; me->idler = true;
	Th* t = pick(false, false);
	run(t);
	me->idler = false; me->state = ST_RUN; me->ready = nullptr; me->deadline = -1;
	// everything that has happened so far is known to this thread
	for (int i = 0; i < nth; i++) { me->hash = hmix(me->hash, th[i].hash); for (int k = 0; k < nth; k++) if (th[i].vc[k] > me->vc[k]) me->vc[k] = th[i].vc[k]; }
	for (int i = 0; i < nth; i++) if (&th[i] != me) th[i].vc[i]++;
}
int env_choose(int n, const char* what) {
	if (!on() || cfg.env <= 0 || n < 2) return 0;
	Guard g; int v = choice(n, C_E, false, true); mixin(v + 100);
	if (v) tracef("  [%d] environment: %s, alternative %d\n", me->id, what, v);
	return v;
}
int free_choose(int n, const char* what) {
	if (!on() || n < 2) return 0;
	Guard g; int v = choice(n, C_FREE, false, true); mixin(v + 200);
	tracef("  [%d] %s: %d of %d\n", me->id, what, v, n);
	return v;
}

// ---------------------------------------------------------------- threads
static const uintptr_t STACK0 = 0x480000000000ull; enum { STACKSZ = 512 * 1024 };
struct TlsD { void (*f)(void*); void* o; TlsD* next; }; static __thread TlsD* tlsd;
static void* trampoline(void* p) {
	Th* t = (Th*)p;
	in_rt++; me = t; wait_turn(t); in_rt--;
	t->ret = t->fn(t->arg);
	while (tlsd) { TlsD* d = tlsd; tlsd = d->next; d->f(d->o); }
	in_rt++;
	access(&t->id, true, 20); sync(&t->id, false, true);
	t->state = ST_DONE; unyield_others();
	tracef("  [%d] thread ends\n", t->id);
	Th* n = pick(false, false);
	me = nullptr;
	hand_over(n);
	return nullptr;
}
static Th* find_th(pthread_t p) { for (int i = 0; i < nth; i++) if (th[i].ptid == p) return &th[i]; return nullptr; }
int create_thread(pthread_t* out, bool detached, void* (*fn)(void*), void* arg) {
	typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
	static F real = (F)real_sym("pthread_create");
	point("thread create", nullptr);
	Guard g;
	if (nth >= MAXT) fail_now("mcrt: too many threads");
	Th* t = &th[nth]; memset(t, 0, sizeof *t); t->id = nth; t->deadline = -1; t->fn = fn; t->arg = arg; t->detached = detached;
	nth++;
	access(&threads_obj, true, 21);
	t->hash = hmix(me->hash, 0x7123 + t->id);
	memcpy(t->vc, me->vc, sizeof t->vc); t->vc[t->id] = 1; me->vc[me->id]++;
	t->state = ST_RUN;
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
	pthread_attr_setstack(&a, (void*)(STACK0 + t->id * (STACKSZ + 65536)), STACKSZ);
	int r = real(&t->ptid, &a, trampoline, t);
	if (r) engine_error("pthread_create: %d", r);
	*out = t->ptid; mixin(9);
	tracef("  [%d] creates thread %d\n", me->id, t->id);
	return 0;
}
static bool ready_done(Th* w) { return ((Th*)w->wobj)->state == ST_DONE; }
int join_thread(Th* t, void** ret) {
	if (!t) return ESRCH;
	if (t->joined || t->detached) { fail_now("join of a thread that is detached or already joined"); }
	if (t == me) return EDEADLK;
	point("thread join", t);
	{ Guard g; if (t->state != ST_DONE) block("thread join", ready_done, t, -1);
	access(&t->id, true, 22); sync(&t->id, true, false); t->joined = true; if (ret) *ret = t->ret; }
	return 0;
}
int detach_thread(Th* t) { if (!t) return ESRCH; if (t->joined || t->detached) return EINVAL; t->detached = true; return 0; }
Th* thread_by(pthread_t p) { return find_th(p); }
int add_tls_dtor(void (*f)(void*), void* o) { Guard g; TlsD* d = (TlsD*)rt_alloc(sizeof *d); d->f = f; d->o = o; d->next = tlsd; tlsd = d; return 0; }

static void on_signal(int s, siginfo_t* si, void*) {
	if (S && S->result == RS_RUN) {
		in_rt++; active = false;
		if (s == SIGALRM) snprintf(S->msg, MSG, "does not terminate (no scheduling point reached) [in thread %d]", me ? me->id : -1);
		else snprintf(S->msg, MSG, "crash: signal %d%s at address %p [in thread %d]", s, s == SIGABRT ? " (abort)" : s == SIGPIPE ? " (broken pipe)" : "", s == SIGSEGV || s == SIGBUS ? si->si_addr : nullptr, me ? me->id : -1);
		finish(RS_FAIL);
	}
	_exit(1);
}
// ---------------------------------------------------------------- history
enum { MAXE = 20000 };
static mc::Event evs[MAXE]; static int nev;

static void exec_child() {
	// one execution in this process
	S->result = RS_RUN; S->nrec = 0; S->steps = 0; S->notelen = 0; S->note[0] = 0; S->msg[0] = 0; S->outcome = 0; S->preempt = 0;
	nforced = S->it.n; forced = S->it.d; nextf = 0;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP};
	for (int s : sg) if (!getenv("MCRT_BT")) sigaction(s, &sa, nullptr); signal(SIGPIPE, SIG_DFL);
	alarm(tracing() ? 60 : 40);
	Th* t = &th[0]; memset(t, 0, sizeof *t); nth = 1; t->state = ST_RUN; t->deadline = -1; t->vc[0] = 1; t->ptid = pthread_self(); t->hash = 1;
	now_ns = 0; nev = 0; stall = dry = 0;
	if (exec_begin) exec_begin();
	me = t; in_rt = 0; active = true;
	mc_body();
	in_rt++; active = false;
	finish(RS_OK);
}

// ---------------------------------------------------------------- explorer
static void lock() { while (shm->lock.exchange(1, std::memory_order_acquire)) sched_yield(); }
static void unlock() { shm->lock.store(0, std::memory_order_release); }
static int total_of(const uint8_t* u) { return u[1] + u[2] + u[3]; }
static int lim[4], limtotal;
static void push_child(const Item& par, uint32_t pos, uint32_t val, int cls) {
	uint8_t u[4]; memcpy(u, par.used, 4);
	if (cls) { u[cls]++; if (u[cls] > lim[cls] || total_of(u) > limtotal) return; }
	if (par.n >= MAXD) { shm->poolfull++; return; }
	lock();
	int32_t i = shm->freelist;
	if (i >= 0) shm->freelist = shm->pool[i].next;
	else if (shm->poolused < POOL) i = shm->poolused++;
	else { shm->poolfull++; unlock(); return; }
	Item& it = shm->pool[i]; memcpy(it.used, u, 4); it.n = par.n + 1; memcpy(it.d, par.d, sizeof(Dev) * par.n); it.d[par.n] = Dev{pos, val};
	int b = total_of(u); if (b >= NB) b = NB - 1;
	if (shm->fifo) { it.next = -1; if (shm->tail[b] >= 0) shm->pool[shm->tail[b]].next = i; else shm->head[b] = i; shm->tail[b] = i; }
	else { it.next = shm->head[b]; shm->head[b] = i; if (it.next < 0) shm->tail[b] = i; }
	shm->queued++;
	unlock();
}
static bool pop_item(Item& out) {
	lock();
	for (int b = 0; b < NB; b++) if (shm->head[b] >= 0) {
		int32_t i = shm->head[b]; Item& it = shm->pool[i];
		shm->head[b] = it.next; if (it.next < 0) shm->tail[b] = -1;
		out.n = it.n; memcpy(out.used, it.used, 4); memcpy(out.d, it.d, sizeof(Dev) * it.n);
		it.next = shm->freelist; shm->freelist = i; shm->queued--;
		shm->inflight++;
		unlock(); return true;
	}
	unlock(); return false;
}
static double g_deadline;
static int run_exec() {   // runs S->it in a child
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) { exec_child(); _exit(0); }
	if (p < 0) { S->result = RS_ERROR; snprintf(S->msg, MSG, "fork: %d", errno); return RS_ERROR; }
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (S->result == RS_RUN) {
		S->result = RS_FAIL;
		if (WIFSIGNALED(st)) snprintf(S->msg, MSG, "crash: killed by signal %d", WTERMSIG(st)); else snprintf(S->msg, MSG, "process exited by itself with status %d", WEXITSTATUS(st));
	}
	return S->result;
}
// Every execution is a new process whose page tables grow with the part of the table it touches, so
// the table starts small and doubles, between executions, as it fills.
static void drop_table(int b) { madvise((void*)(((uintptr_t)&shm->v[1ull << b] + 4095) & ~4095ull), (sizeof(VE) << b) - 4096, MADV_REMOVE); }
static void reset_table() {
	memset((void*)&shm->v[1ull << VBITS0], 0, sizeof(VE) << VBITS0);
	for (int b = VBITS0 + 1; b <= VBITS; b++) if (b <= shm->vbits) { drop_table(b); memset((void*)&shm->v[1ull << b], 0, 4096); memset((char*)&shm->v[2ull << b] - 4096, 0, 4096); }
	shm->vbits = VBITS0; shm->ventries = 0; shm->states = 0; shm->vfull = 0;
}
static void begin_exec() {
	for (;;) { shm->running++; if (!shm->growing) return; shm->running--; while (shm->growing) usleep(50); }
}
static void end_exec() {
	shm->running--;
	int b = shm->vbits, z = 0;
	if (b >= VBITS || shm->ventries < (1ull << b) / 3 || !shm->growing.compare_exchange_strong(z, 1)) return;
	while (shm->running) usleep(50);
	b = shm->vbits;
	if (shm->ventries >= (1ull << b) / 3) {
		uint64_t n = 1ull << b, m = 2 * n - 1;
		for (uint64_t j = n; j < 2 * n; j++) {
			uint64_t key = shm->v[j].key; if (!key) continue;
			for (uint64_t i = (key * 0x9E3779B97F4A7C15ull) >> (64 - b - 1); ; i = (i + 1) & m) { VE& e = shm->v[m + 1 + i]; if (!e.key) { e.key = key; e.used = shm->v[j].used.load(); break; } }
		}
		shm->vbits = b + 1; drop_table(b);
	}
	shm->growing = 0;
}
static void worker(int w) {
	S = &shm->slot[w];
	cpu_set_t cs; CPU_ZERO(&cs); 
	cpu_set_t cur; if (!sched_getaffinity(0, sizeof cur, &cur)) { int k = 0, n = CPU_COUNT(&cur); for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cur)) { if (k == w % n) CPU_SET(i, &cs); k++; } sched_setaffinity(0, sizeof cs, &cs); }
	if (!getenv("MCRT_VERBOSE")) { int e = open("/dev/null", O_WRONLY); dup2(e, 1); dup2(e, 2); }
	int idle = 0;
	while (!shm->stop) {
		if (!pop_item(S->it)) {
			if (shm->inflight == 0 && shm->queued == 0) { if (++idle > 3) break; }
			usleep(100); continue;
		}
		idle = 0;
		begin_exec(); int r = run_exec(); end_exec();
		S->tsteps += S->steps; if (S->steps > S->maxsteps) S->maxsteps = S->steps;
		if ((uint64_t)S->nrec > S->maxrec) S->maxrec = S->nrec;
		shm->execs++;
		if (r == RS_FAIL) {
			int z = 0; if (shm->failed.compare_exchange_strong(z, w + 1)) shm->stop = 1;
			shm->inflight--; _exit(1);
		}
		if (r == RS_ERROR) { S->errors++; snprintf(S->errmsg, sizeof S->errmsg, "%.390s", S->msg); }
		else if (r == RS_DISCARD) S->discarded++;
		else if (r == RS_PRUNED) S->pruned++;
		else {
			S->paths++;
			if (S->nsample < 2 && S->notelen && (S->paths % 997 == 1)) snprintf(S->sample[S->nsample++], 3000, "%s", S->note);
			uint64_t o = S->outcome; if (o) for (uint64_t i = o & 65535, k = 0; k < 64; k++, i = (i + 1) & 65535) { uint64_t v = shm->oset[i]; if (v == o) break; if (!v && shm->oset[i].compare_exchange_strong(v, o)) { shm->outcomes++; break; } if (v == o) break; }
		}
		if (r != RS_ERROR) {
			int nr = S->nrec;
			for (int i = 0; i < nr; i++) { Rec& q = S->rec[i]; if (!q.fresh) continue;
				for (int v = q.n - 1; v >= 1; v--) push_child(S->it, i, v, (q.timealt && v == q.n - 1) ? C_T : q.cls); }
		}
		shm->inflight--;
		if (shm->maxexec && shm->execs >= shm->maxexec) shm->stop = 2;
		if (wall() > g_deadline) shm->stop = 3;
	}
	_exit(0);
}
static int explore(int nw) {   // 0 done, 1 failed (shm->failed), 2 capped
	shm->stop = 0; shm->failed = 0; shm->inflight = 0; shm->freelist = -1; shm->poolused = 0; shm->queued = 0; shm->execs = 0;
	for (int b = 0; b < NB; b++) shm->head[b] = shm->tail[b] = -1;
	Item root; memset(&root, 0, sizeof root);
	{ Item& it = shm->pool[shm->poolused]; int i = shm->poolused++; memset(&it, 0, 64); it.n = 0; it.next = -1; shm->head[0] = shm->tail[0] = i; shm->queued = 1; }
	pid_t pid[MAXW];
	fflush(stdout); fflush(stderr);
	for (int w = 0; w < nw; w++) { pid[w] = fork(); if (!pid[w]) worker(w); }
	int bad = 0;
	for (int w = 0; w < nw; w++) { int st; while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) bad = 1; }
	if (shm->failed) return 1;
	if (bad) return 3;
	return shm->stop >= 2 ? 2 : 0;
}
void* real_sym(const char* n) { Guard g; void* p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "mcrt: no %s\n", n); _exit(2); } return p; }
} // namespace mcrt
using namespace mcrt;

// ---------------------------------------------------------------- harness API
namespace mc {
Config& config() { return cfg; }
int choose(int n) { return free_choose(n, "choose"); }
int deviate(int n) { return env_choose(n, "deviate"); }
void note(const char* f, ...) {
	Guard g; va_list a; va_start(a, f); int left = NOTE - S->notelen - 1;
	if (S && left > 1) { int k = vsnprintf(S->note + S->notelen, left, f, a); if (k > 0) S->notelen += k < left ? k : left - 1; }
	va_end(a);
}
void fail(const char* f, ...) { in_rt++; char b[MSG]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fail_now("%s", b); }
void discard_path() { finish(RS_DISCARD); __builtin_unreachable(); }
bool thorough() { return g_thorough; }
int param(const char* name, int def) {
	size_t L = strlen(name);
	for (int i = 1; i < g_argc; i++) if (!strncmp(g_argv[i], name, L) && g_argv[i][L] == '=') return atoi(g_argv[i] + L + 1);
	return def;
}
int event(int kind, int64_t a, int64_t b, int64_t c) {
	Guard g;
	access(&history_obj, true, 30 + kind); sync(&history_obj, false, false);
	if (nev >= MAXE) fail_now("no termination: more than %d observations", MAXE);
	evs[nev] = Event{me ? me->id : -1, kind, a, b, c, now_ns / 1000};
	if (tracing()) tracef("  [%d] EVENT %d: %lld %lld %lld\n", me ? me->id : -1, kind, (long long)a, (long long)b, (long long)c);
	return nev++;
}
int event_count() { return nev; }
const Event& event_at(int i) { return evs[i]; }
void idle() { idle_until(now_ns); }
void idle_for(int64_t us) { idle_until(now_ns + us * 1000); }
int64_t now_us() { return now_ns / 1000; }
void sleep_us(int64_t us) { point("sleep"); { int64_t d = now_ns + us * 1000; while (now_ns < d) block("sleep", ready_never, nullptr, d); }; }
void yield() { yield_point(); }
int self() { return me ? me->id : -1; }
int live_threads() { int n = 0; for (int i = 0; i < nth; i++) n += th[i].state != ST_DONE; return n; }
struct SA { void (*f)(void*); void* a; };
static void* spawn_main(void* p) { SA* s = (SA*)p; s->f(s->a); return nullptr; }
int spawn(void (*f)(void*), void* a) { SA* s = (SA*)rt_alloc(sizeof(SA)); s->f = f; s->a = a; pthread_t p; create_thread(&p, false, spawn_main, s); return nth - 1; }
static bool spawned(int i) { return th[i].fn == spawn_main; }
void join(int id) { if (id > 0 && id < nth && !th[id].joined) join_thread(&th[id], nullptr); }
void join_all() { for (int i = 1; i < nth; i++) if (spawned(i) && !th[i].joined) join_thread(&th[i], nullptr); }
void outcome(uint64_t h) { S->outcome = h ? h : 1; }
uint64_t heap_mark() { return serial; }
int heap_live_since(uint64_t m) { int n = 0; for (int i = 0; i < MAXT; i++) for (Blk* b = arena[i].last; b; b = b->prev) if (b->magic == M_LIVE && b->serial > m) n++; return n; }
void heap_dump(uint64_t m) { for (int i = 0; i < MAXT; i++) for (Blk* b = arena[i].last; b; b = b->prev) if (b->magic == M_LIVE && b->serial > m) note(" leaked block: %lu bytes allocated at %p by thread %d\n", (unsigned long)b->size, (void*)b->pc, i); }
}

// ---------------------------------------------------------------- allocation functions
#define CALLER __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return heap_alloc(n, 16, active ? 0xCD : 0, CALLER); }
void* calloc(size_t a, size_t b) {
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return heap_alloc(n, 16, 0, CALLER);   // never reused, so zero beyond the fill as well
}
void free(void* p) { if (on()) on_free(p); heap_free(p, CALLER); }
void* realloc(void* p, size_t n) {
	if (!p) return heap_alloc(n, 16, active ? 0xCD : 0, CALLER);
	if (!n) { free(p); return nullptr; }
	if (active && !in_arena((uintptr_t)p)) fail_now("realloc of a pointer that is not a heap block");
	Blk* b = (Blk*)((uintptr_t)p - sizeof(Blk)); if (active && in_model_arena((uintptr_t)p) && b->magic != M_LIVE) fail_now("realloc of a freed or invalid heap block");
	void* q = heap_alloc(n, 16, active ? 0xCD : 0, CALLER); if (!q) return q;
	memcpy(q, p, b->size < n ? b->size : n); free(p); return q;
}
int posix_memalign(void** o, size_t al, size_t n) { void* p = heap_alloc(n, al, 0, CALLER); if (!p) return ENOMEM; *o = p; return 0; }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, 0, CALLER); }
void* memalign(size_t al, size_t n) { return heap_alloc(n, al, 0, CALLER); }
void* valloc(size_t n) { return heap_alloc(n, 4096, 0, CALLER); }
size_t malloc_usable_size(void* p) { return p ? ((Blk*)((uintptr_t)p - sizeof(Blk)))->size : 0; }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
	const char* s = strrchr(f, '/');
	if (S && active) fail_now("assertion failed: %s (%s:%u)", e, s ? s + 1 : f, l);
	fprintf(stderr, "assertion failed: %s (%s:%u)\n", e, f, l); _exit(3);
}
}

// ---------------------------------------------------------------- main
static void jstr(FILE* f, const char* s, int max = 1 << 30) {
	fputc('"', f);
	for (; *s && max--; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
	fputc('"', f);
}
static bool rerun(Slot* src, int& n) {   // run src's item again in slot MAXW-1 with a trace; true if it fails again
	Slot* d = &shm->slot[MAXW - 1]; d->it = src->it; d->trace = true;
	Slot* save = S; S = d; int r = run_exec(); S = save; n = r;
	return r == RS_FAIL;
}
int main(int argc, char** argv) {
	g_argc = argc; g_argv = argv; in_rt = 1;
	const char *replay = nullptr, *out = nullptr, *rdir = ".", *tag = "path"; int nw = 8; double limit = 1e6;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--replay-dir")) rdir = argv[++i];
		else if (!strcmp(argv[i], "--tag")) tag = argv[++i];
		else if (!strcmp(argv[i], "--shards")) nw = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
	}
	if (nw > MAXW - 2) nw = MAXW - 2;
	shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED) { perror("mmap"); return 2; }
	for (int i = 0; i < MAXT; i++) if (mmap((void*)(STACK0 + i * (STACKSZ + 65536)), STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("stack"); return 2; }
	shm->vbits = VBITS0;
	S = &shm->slot[MAXW - 2];
	if (!getenv("MCRT_BT")) { rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
	real_sym("pthread_create");
	in_rt = 0; mc_setup(); in_rt = 1;
	cfg.preemptions = mc::param("P", cfg.preemptions); cfg.env = mc::param("E", cfg.env); cfg.early_time = mc::param("T", cfg.early_time); cfg.total = mc::param("D", cfg.total);
	cfg.block_choice_free = mc::param("free", cfg.block_choice_free); cfg.horizon = mc::param("horizon", cfg.horizon);
	lim[C_P] = cfg.preemptions; lim[C_E] = cfg.env; lim[C_T] = cfg.early_time; limtotal = cfg.total;
	double t0 = wall(); int rounds = 0; 
	if (replay) {
		FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
		Slot* s = &shm->slot[0]; char w[32]; unsigned long long a, b;
		while (fscanf(f, "%31s", w) == 1) {
			if (!strcmp(w, "pc") && fscanf(f, "%llx", &a) == 1) pc_add(shm->promoted, shm->npromoted, a);
			else if (!strcmp(w, "free")) shm->free_promoted = 1;
			else if (!strcmp(w, "d") && fscanf(f, "%llu %llu", &a, &b) == 2) { s->it.d[s->it.n++] = Dev{(uint32_t)a, (uint32_t)b}; }
			else if (!strcmp(w, "end")) break;
		}
		fclose(f);
		int r; bool bad = rerun(s, r); Slot* d = &shm->slot[MAXW - 1];
		printf("%s\n%s\n", bad ? d->msg : r == RS_ERROR ? d->msg : "path passes", d->note);
		return bad ? 1 : 0;
	}
	// discovery of unsynchronised accesses
	int r = 0; uint64_t dexecs = 0;
	g_deadline = t0 + limit;
	if (!mc::param("nodiscover", 0)) {
		discover = true; int st = limtotal; if (limtotal > 1) limtotal = 1;
		for (rounds = 0; rounds < 8; rounds++) {
			shm->maxexec = mc::param("dexec", g_thorough ? 6000 : 1500); shm->fifo = true;
			salt++; reset_table();
			g_deadline = t0 + limit * 0.25 * (rounds + 1) / 3; if (g_deadline > t0 + limit * 0.4) break;
			r = explore(nw); dexecs += shm->execs;
			if (r == 1 || r == 3) break;
			int added = 0;
			for (int i = 0; i < PCN; i++) { uint64_t pc = shm->racy[i]; if (pc && pc_add(shm->promoted, shm->npromoted, pc)) added++; }
			if (shm->free_racy && !shm->free_promoted) { shm->free_promoted = 1; added++; }
			if (!added) break;
		}
		discover = false; limtotal = st; shm->maxexec = 0; shm->fifo = false;
		if (r != 1 && r != 3) { salt++; reset_table();
			for (int w = 0; w < nw; w++) { Slot& s = shm->slot[w]; s.paths = s.pruned = s.discarded = s.tsteps = s.maxrec = s.maxsteps = s.nsample = 0; } }
	}
	g_deadline = t0 + limit;
	if (r != 1 && r != 3) r = explore(nw); else if (r == 1) discover = true;
	int rc = 0; char path[600] = "", msg[MSG] = ""; const char* note = ""; static char ebuf[500];
	uint64_t paths = 0, pruned = 0, disc = 0, steps = 0, mrec = 0, msteps = 0, errors = 0;
	for (int w = 0; w < nw; w++) { Slot& s = shm->slot[w]; paths += s.paths; pruned += s.pruned; disc += s.discarded; steps += s.tsteps; if (s.maxrec > mrec) mrec = s.maxrec; if (s.maxsteps > msteps) msteps = s.maxsteps; errors += s.errors; if (s.errors) snprintf(ebuf, sizeof ebuf, "%s", s.errmsg); }
	if (r == 1) {
		Slot* s = &shm->slot[shm->failed - 1]; int rr; char first[MSG]; snprintf(first, MSG, "%s", s->msg);
		bool again = rerun(s, rr) && rerun(s, rr);
		Slot* d = &shm->slot[MAXW - 1]; note = d->note;
		if (again) {
			rc = 1; snprintf(msg, MSG, "%s", d->msg); snprintf(path, sizeof path, "%s/%s.replay", rdir, tag);
			FILE* f = fopen(path, "w");
			if (f) {
				for (int i = 0; i < PCN; i++) if (shm->promoted[i]) fprintf(f, "pc %llx\n", (unsigned long long)shm->promoted[i].load());
				if (shm->free_promoted) fprintf(f, "free\n");
				for (int i = 0; i < s->it.n; i++) fprintf(f, "d %u %u\n", s->it.d[i].pos, s->it.d[i].val);
				fprintf(f, "end\nargs:"); for (int i = 1; i < argc; i++) if (strchr(argv[i], '=')) fprintf(f, " %s", argv[i]);
				fprintf(f, "\n%s\n%s\n", msg, d->note); fclose(f);
			}
		} else { rc = 2; fprintf(stderr, "mcrt: failing execution did not fail again: %s / %s\n", first, d->msg); }
	}
	if (r == 3) { rc = 2; fprintf(stderr, "mcrt: worker died\n"); }
	if (errors && rc == 0) { rc = 2; fprintf(stderr, "mcrt: %llu executions were not reproducible: %s\n", (unsigned long long)errors, ebuf); }
	bool capped = r == 2 || shm->poolfull > 0;
	FILE* o = out ? fopen(out, "w") : stdout;
	fprintf(o, "{\"tag\":\"%s\",\"rc\":%d,\"paths\":%llu,\"discarded\":%llu,\"transitions\":%llu,\"states\":%llu,\"max_depth\":%llu,\"capped\":%s,\"wall_s\":%.2f,", tag, rc,
		(unsigned long long)(paths + pruned), (unsigned long long)disc, (unsigned long long)steps, (unsigned long long)shm->states.load(), (unsigned long long)mrec, capped ? "true" : "false", wall() - t0);
	fprintf(o, "\"detail\":\"%llu complete executions, %llu joined an explored state; at most %llu steps, %llu decisions; %llu distinct outcomes; bounds: %d preemptions, %d environment deviations, %d early timeouts, %d together%s; %d unsynchronised access sites made scheduling points in %d discovery rounds (%llu executions)%s\",\"message\":",
		(unsigned long long)paths, (unsigned long long)pruned, (unsigned long long)msteps, (unsigned long long)mrec, (unsigned long long)shm->outcomes.load(), cfg.preemptions, cfg.env, cfg.early_time, cfg.total, cfg.block_choice_free ? ", free choice at blocking points" : ", blocking-point choices count as preemptions", shm->npromoted.load(), rounds + 1, (unsigned long long)dexecs, shm->vfull ? "; visited table overflowed (no pruning there)" : "");
	jstr(o, msg); fprintf(o, ",\"replay\":"); jstr(o, path);
	size_t nl = strlen(note); fprintf(o, ",\"note\":"); jstr(o, nl > 6000 ? note + nl - 6000 : note);
	fprintf(o, ",\"samples\":["); int k = 0;
	for (int w = 0; w < nw && k < 4; w++) for (int j = 0; j < shm->slot[w].nsample && k < 4; j++) { if (k++) fputc(',', o); jstr(o, shm->slot[w].sample[j]); }
	fprintf(o, "]}\n"); if (out) fclose(o); fflush(o);
	_exit(rc);
}
