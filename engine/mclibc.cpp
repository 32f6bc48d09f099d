// instrumentation hooks and models of the thread, lock and time functions
#include "mcrt_int.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sched.h>
#include <semaphore.h>
#include <sys/time.h>
#include <unistd.h>
#include <dlfcn.h>
namespace mcrt {
void plain(uintptr_t a, size_t n, bool write, uint64_t pc);
void atomic_access(uintptr_t a, bool write);
int create_thread(pthread_t* out, bool detached, void* (*fn)(void*), void* arg);
int join_thread(Th* t, void** ret); int detach_thread(Th* t); Th* thread_by(pthread_t p);
int add_tls_dtor(void (*f)(void*), void* o);
static const int64_t MONO0 = 1000ll * 1000000000ll, REAL0 = 1700000000ll * 1000000000ll;
}
using namespace mcrt;
#define PC ((uint64_t)__builtin_return_address(0))
#define REAL(name) ((decltype(&name))({ static void* p = nullptr; if (!p) p = real_sym(#name); p; }))

// ---------------------------------------------------------------- plain accesses
#define ON (active && me && !in_rt)
extern "C" {
void __tsan_init() {}
#define RW(n) \
	void __tsan_read##n(void* a) { if (ON) plain((uintptr_t)a, n, false, PC); } \
	void __tsan_write##n(void* a) { if (ON) plain((uintptr_t)a, n, true, PC); } \
	void __tsan_unaligned_read##n(void* a) { if (ON) plain((uintptr_t)a, n, false, PC); } \
	void __tsan_unaligned_write##n(void* a) { if (ON) plain((uintptr_t)a, n, true, PC); } \
	void __tsan_volatile_read##n(void* a) { if (ON) plain((uintptr_t)a, n, false, PC); } \
	void __tsan_volatile_write##n(void* a) { if (ON) plain((uintptr_t)a, n, true, PC); } \
	void __tsan_read_write##n(void* a) { if (ON) plain((uintptr_t)a, n, true, PC); } \
	void __tsan_unaligned_read_write##n(void* a) { if (ON) plain((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (ON && n) plain((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (ON && n) plain((uintptr_t)a, n, true, PC); }
void __tsan_vptr_read(void** a) { if (ON) plain((uintptr_t)a, 8, false, PC); }
void __tsan_vptr_update(void** a, void*) { if (ON) plain((uintptr_t)a, 8, true, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (ON && n) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (ON && n) { plain((uintptr_t)s, n, false, PC); plain((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (ON && n) plain((uintptr_t)d, n, true, PC); return memset(d, c, n); }
}
// ---------------------------------------------------------------- atomics (sequentially consistent interleaving)
static inline void apoint(const char* what, volatile void* a, size_t n, bool write, int mo, bool refcount = false) {
	check_range((void*)a, n, write, "atomic ");
	if (!(refcount && !mc::config().refcount_points)) point(what, (void*)a);
	check_range((void*)a, n, write, "atomic ");
	(void)mo;
}
static inline void aeffect(volatile void* a, bool write, int mo) {
	Guard g;
	access((void*)a, write, 1); atomic_access((uintptr_t)a, write);
	bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
	sync((void*)a, acq, rel && write);
}
// mo: relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
#define AT(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (!ON) return __atomic_load_n(a, 5); apoint("atomic load", (void*)a, sizeof(T), false, mo); aeffect((void*)a, false, mo); return __atomic_load_n(a, 5); } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (!ON) { __atomic_store_n(a, v, 5); return; } apoint("atomic store", a, sizeof(T), true, mo); aeffect(a, true, mo); __atomic_store_n(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (!ON) return __atomic_exchange_n(a, v, 5); apoint("atomic exchange", a, sizeof(T), true, mo); aeffect(a, true, mo); return __atomic_exchange_n(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_add(a, v, 5); apoint("atomic add", a, sizeof(T), true, mo, mo == 4 || (mo == 0 && sizeof(T) == 4)); aeffect(a, true, mo); return __atomic_fetch_add(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_sub(a, v, 5); apoint("atomic sub", a, sizeof(T), true, mo, mo == 4); aeffect(a, true, mo); return __atomic_fetch_sub(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_and(a, v, 5); apoint("atomic and", a, sizeof(T), true, mo); aeffect(a, true, mo); return __atomic_fetch_and(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_or(a, v, 5); apoint("atomic or", a, sizeof(T), true, mo); aeffect(a, true, mo); return __atomic_fetch_or(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_xor(a, v, 5); apoint("atomic xor", a, sizeof(T), true, mo); aeffect(a, true, mo); return __atomic_fetch_xor(a, v, 5); } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { if (!ON) return __atomic_fetch_nand(a, v, 5); apoint("atomic nand", a, sizeof(T), true, mo); aeffect(a, true, mo); return __atomic_fetch_nand(a, v, 5); } \
static int cas##bits(volatile T* a, T* c, T v, int mo, int fmo) { if (!ON) return __atomic_compare_exchange_n(a, c, v, false, 5, 5); \
	apoint("compare-and-swap", a, sizeof(T), true, mo); bool ok = *a == *c; aeffect(a, ok, ok ? mo : fmo); if (ok) *a = v; else *c = *a; return ok; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo); } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return cas##bits(a, c, v, mo, fmo); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { cas##bits(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- mutexes
static inline int tidv() { return me->id + 1; }
static bool mx_free(const void* m) { return ((pthread_mutex_t*)m)->__data.__lock == 0; }
static bool ready_mutex(Th* t) { return mx_free(t->wobj); }
static void mx_valid(pthread_mutex_t* m, const char* what) {
	check_range(m, sizeof *m, true, what);
	if (m->__data.__kind == -1) fail_now("%s of a destroyed mutex", what);
}
static void mx_take(pthread_mutex_t* m) { Guard g; op(m, 40); m->__data.__lock = 1; m->__data.__owner = tidv(); m->__data.__count = 1; }
static bool mx_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int mx_lock(pthread_mutex_t* m, int64_t deadline, const char* what, bool pt = true) {
	mx_valid(m, what);
	if (pt) point(what, m);
	mx_valid(m, what);
	if (m->__data.__lock && m->__data.__owner == tidv()) {
		if (mx_rec(m)) { m->__data.__count++; return 0; }
		if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	while (!mx_free(m)) {
		if (deadline >= 0 && now_ns >= deadline) { access(m, false, 41); return ETIMEDOUT; }
		bool r = block(what, ready_mutex, m, deadline);
		mx_valid(m, what);
		if (!r && deadline >= 0) { access(m, false, 41); return ETIMEDOUT; }
	}
	mx_take(m);
	return 0;
}
static void mx_release(pthread_mutex_t* m) { Guard g; op(m, 42); m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (ON) check_range(m, sizeof *m, true, "pthread_mutex_init"); return REAL(pthread_mutex_init)(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) {
	if (!ON) return REAL(pthread_mutex_destroy)(m);
	mx_valid(m, "mutex destroy"); point("mutex destroy", m); mx_valid(m, "mutex destroy");
	if (!mx_free(m)) fail_now("destroy of a locked mutex");
	{ Guard g; op(m, 43); } m->__data.__kind = -1; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ON) return REAL(pthread_mutex_lock)(m); return mx_lock(m, -1, "mutex lock"); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (!ON) return REAL(pthread_mutex_trylock)(m);
	mx_valid(m, "mutex trylock"); point("mutex trylock", m); mx_valid(m, "mutex trylock");
	if (!mx_free(m)) { if (m->__data.__owner == tidv() && mx_rec(m)) { m->__data.__count++; return 0; } access(m, false, 44); return EBUSY; }
	mx_take(m); return 0;
}
static int64_t abs_ns(const timespec* t, int64_t base) { int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec - base; return v < 0 ? 0 : v; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (!ON) return REAL(pthread_mutex_timedlock)(m, t);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { if (mx_free(m)) return mx_lock(m, -1, "mutex timedlock"); return EINVAL; }
	return mx_lock(m, abs_ns(t, REAL0), "mutex timedlock"); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { if (!ON) return REAL(pthread_mutex_clocklock)(m, c, t); return mx_lock(m, abs_ns(t, c == CLOCK_REALTIME ? REAL0 : MONO0), "mutex timedlock"); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!ON) return REAL(pthread_mutex_unlock)(m);
	mx_valid(m, "mutex unlock");
	if (mx_free(m) || m->__data.__owner != tidv()) fail_now("unlock of a mutex this thread does not hold");
	if (m->__data.__count > 1) { m->__data.__count--; return 0; }
	if (mc::config().unlock_points) point("mutex unlock", m);
	mx_release(m); return 0;
}
// ---------------------------------------------------------------- condition variables
static bool ready_cond(Th* t) { return t->signalled; }
}
static Th* waiters[64]; static int nwait;
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
	check_range(c, sizeof *c, true, "condition wait"); mx_valid(m, "condition wait");
	if (mx_free(m) || m->__data.__owner != tidv()) fail_now("condition wait without holding the mutex");
	point("condition wait", c);
	bool ok = true;
	if (env_choose(2, "spurious wakeup")) { uint32_t cnt = m->__data.__count; mx_release(m); point("spurious wakeup"); mx_lock(m, -1, "mutex lock", false); m->__data.__count = cnt; return 0; }
	{
		Guard g;
		op(c, 50);
		uint32_t cnt = m->__data.__count;
		me->signalled = false; waiters[nwait++] = me; me->wobj = c;
		mx_release(m);
		if (deadline >= 0 && deadline <= now_ns) ok = false; else ok = block("condition variable", ready_cond, c, deadline);
		bool sig = me->signalled; 
		for (int i = 0; i < nwait; i++) if (waiters[i] == me) { memmove(waiters + i, waiters + i + 1, sizeof(Th*) * (nwait - i - 1)); nwait--; break; }
		check_range(c, sizeof *c, true, "condition wait");
		op(c, 51); me->signalled = false;
		mx_lock(m, -1, "mutex lock", false); m->__data.__count = cnt;
		ok = sig;
	}
	return ok ? 0 : ETIMEDOUT;
}
static void cond_wake(pthread_cond_t* c, bool all, const char* what) {
	check_range(c, sizeof *c, true, what); point(what, c); check_range(c, sizeof *c, true, what);
	Guard g; op(c, 52);
	Th* w[64]; int n = 0; for (int i = 0; i < nwait; i++) if (waiters[i]->wobj == c && !waiters[i]->signalled) w[n++] = waiters[i];
	if (!n) return;
	if (all) { for (int i = 0; i < n; i++) w[i]->signalled = true; return; }
	in_rt--; int k = n > 1 ? env_choose(n, "which waiter is woken") : 0; in_rt++;
	w[k]->signalled = true;
}
extern "C" {
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { if (ON) check_range(c, sizeof *c, true, "pthread_cond_init"); return REAL(pthread_cond_init)(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) {
	if (!ON) return REAL(pthread_cond_destroy)(c);
	check_range(c, sizeof *c, true, "condition destroy"); point("condition destroy", c); check_range(c, sizeof *c, true, "condition destroy");
	for (int i = 0; i < nwait; i++) if (waiters[i]->wobj == c && !waiters[i]->signalled) fail_now("destroy of a condition variable somebody waits on");
	Guard g; op(c, 53); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!ON) return REAL(pthread_cond_wait)(c, m); return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
	if (!ON) return REAL(pthread_cond_timedwait)(c, m, t);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait(c, m, abs_ns(t, (c->__data.__wrefs & 2) ? MONO0 : REAL0));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
	if (!ON) return REAL(pthread_cond_clockwait)(c, m, k, t);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
	return cond_wait(c, m, abs_ns(t, k == CLOCK_REALTIME ? REAL0 : MONO0));
}
int pthread_cond_signal(pthread_cond_t* c) { if (!ON) return REAL(pthread_cond_signal)(c); cond_wake(c, false, "condition signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!ON) return REAL(pthread_cond_broadcast)(c); cond_wake(c, true, "condition broadcast"); return 0; }

// ---------------------------------------------------------------- spin locks, semaphores, once, static guards
static bool ready_spin(Th* t) { return *(volatile int*)t->wobj != 0xBAD; }
int pthread_spin_init(pthread_spinlock_t* s, int) { *s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) { if (!ON) { *s = 0xBAD; return 0; } point("spin lock", (void*)s); while (*s == 0xBAD) block("spin lock", ready_spin, (void*)s, -1); Guard g; op((void*)s, 60); *s = 0xBAD; return 0; }
int pthread_spin_trylock(pthread_spinlock_t* s) { if (!ON) { *s = 0xBAD; return 0; } point("spin trylock", (void*)s); if (*s == 0xBAD) return EBUSY; Guard g; op((void*)s, 60); *s = 0xBAD; return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s) { if (!ON) { *s = 0; return 0; } Guard g; op((void*)s, 61); *s = 0; return 0; }
// read-write locks: __data.__readers counts readers, __cur_writer the writer
static bool rw_ready(Th* t) { pthread_rwlock_t* l = (pthread_rwlock_t*)t->wobj; return !l->__data.__cur_writer && (!t->warg || !l->__data.__readers); }
static int rw_take(pthread_rwlock_t* l, bool w, bool tr, const char* what) {
	check_range(l, sizeof *l, true, what); point(what, l); check_range(l, sizeof *l, true, what);
	while (l->__data.__cur_writer || (w && l->__data.__readers)) { if (tr) { access(l, false, 62); return EBUSY; } block(what, rw_ready, l, -1, w); }
	Guard g; op(l, 63); if (w) l->__data.__cur_writer = tidv(); else l->__data.__readers++; return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!ON) return REAL(pthread_rwlock_rdlock)(l); return rw_take(l, false, false, "read lock"); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!ON) return REAL(pthread_rwlock_wrlock)(l); return rw_take(l, true, false, "write lock"); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!ON) return REAL(pthread_rwlock_tryrdlock)(l); return rw_take(l, false, true, "try read lock"); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!ON) return REAL(pthread_rwlock_trywrlock)(l); return rw_take(l, true, true, "try write lock"); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (!ON) return REAL(pthread_rwlock_unlock)(l); Guard g; op(l, 64); if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else l->__data.__readers--; return 0; }
static bool ready_sem(Th* t) { return *(int*)t->wobj > 0; }
int sem_init(sem_t* s, int, unsigned v) { *(int*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { point("sem post", s); Guard g; op(s, 65); ++*(int*)s; return 0; }
int sem_wait(sem_t* s) { point("sem wait", s); while (*(int*)s <= 0) block("semaphore", ready_sem, s, -1); Guard g; op(s, 66); --*(int*)s; return 0; }
int sem_trywait(sem_t* s) { point("sem trywait", s); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } Guard g; op(s, 66); --*(int*)s; return 0; }
int sem_timedwait(sem_t* s, const timespec* t) { point("sem wait", s); int64_t d = abs_ns(t, REAL0); while (*(int*)s <= 0) { if (now_ns >= d || !block("semaphore", ready_sem, s, d)) { if (*(int*)s > 0) break; errno = ETIMEDOUT; return -1; } } Guard g; op(s, 66); --*(int*)s; return 0; }

static bool ready_once(Th* t) { return *(volatile int*)t->wobj != 1; }
int pthread_once(pthread_once_t* o, void (*f)()) {
	if (!active || !me) { if (*o == 0) { *o = 1; f(); *o = 2; } return 0; }
	point("call once", o);
	for (;;) {
		if (*o == 2) { Guard g; access(o, false, 70); sync(o, true, false); return 0; }
		if (*o == 0) { { Guard g; op(o, 71); } *o = 1; f(); { Guard g; op(o, 72); } *o = 2; return 0; }
		block("call once", ready_once, o, -1);
	}
}
static bool ready_guard(Th* t) { return ((volatile char*)t->wobj)[1] == 0; }
int __cxa_guard_acquire(uint64_t* g64) {
	char* g = (char*)g64;
	if (ON) point("static initialisation", g);
	for (;;) {
		if (g[0]) { if (ON) { Guard q; access(g, false, 73); sync(g, true, false); } return 0; }
		if (!g[1]) { if (ON) { Guard q; op(g, 74); } g[1] = 1; return 1; }
		if (!ON) fail_now("recursive static initialisation");
		block("static initialisation", ready_guard, g, -1);
	}
}
void __cxa_guard_release(uint64_t* g64) { char* g = (char*)g64; if (ON) { Guard q; op(g, 75); } g[1] = 0; g[0] = 1; }
void __cxa_guard_abort(uint64_t* g64) { char* g = (char*)g64; if (ON) { Guard q; op(g, 76); } g[1] = 0; }

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
	if (!ON) return REAL(pthread_create)(out, a, fn, arg);
	int d = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &d);
	return create_thread(out, d == PTHREAD_CREATE_DETACHED, fn, arg);
}
int pthread_join(pthread_t p, void** r) { if (!ON) return REAL(pthread_join)(p, r); return join_thread(thread_by(p), r); }
int pthread_detach(pthread_t p) { if (!ON) return REAL(pthread_detach)(p); return detach_thread(thread_by(p)); }
int __cxa_thread_atexit_impl(void (*f)(void*), void* o, void* dso) {
	if (active && me && me->id > 0) return add_tls_dtor(f, o);
	return REAL(__cxa_thread_atexit_impl)(f, o, dso);
}
int sched_yield() { if (!ON) return REAL(sched_yield)(); yield_point(); return 0; }

// ---------------------------------------------------------------- time
static void read_clock() { Guard g; access(&clock_obj, false, 80); }
}
static bool never_ready(Th*) { return false; }
static int do_sleep(int64_t deadline) {
	point("sleep");
	if (deadline <= now_ns) { yield_point(); return 0; }
	while (now_ns < deadline) block("sleep", never_ready, nullptr, deadline);
	read_clock();
	return 0;
}
extern "C" {
int nanosleep(const timespec* t, timespec* rem) { if (!ON) return REAL(nanosleep)(t, rem); if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; } return do_sleep(now_ns + t->tv_sec * 1000000000ll + t->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem) {
	if (!ON) return REAL(clock_nanosleep)(c, fl, t, rem);
	return do_sleep((fl & TIMER_ABSTIME) ? abs_ns(t, c == CLOCK_REALTIME ? REAL0 : MONO0) : now_ns + t->tv_sec * 1000000000ll + t->tv_nsec);
}
int usleep(useconds_t u) { if (!ON) return REAL(usleep)(u); return do_sleep(now_ns + u * 1000ll); }
unsigned sleep(unsigned s) { if (!ON) return REAL(sleep)(s); do_sleep(now_ns + s * 1000000000ll); return 0; }
int clock_gettime(clockid_t c, timespec* t) noexcept {
	if (!active) return REAL(clock_gettime)(c, t);
	if (ON) read_clock();
	int64_t v = now_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL0 : MONO0);
	t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(timeval* t, void*) noexcept {
	timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
}
