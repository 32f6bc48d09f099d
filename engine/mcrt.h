// mcrt: a stateless model checker for real multi-threaded code.
//
// The code under test and the harness are compiled with clang's -fsanitize=thread
// instrumentation but linked against this runtime instead of libtsan, so that every
// atomic operation (and every plain access found to be unsynchronised) is a point at
// which the explorer decides who runs next.  libc's thread, time, socket, pipe, epoll,
// select and timerfd calls are replaced by models (virtual time, simulated kernel).
// Every execution runs in a forked process; executions are enumerated systematically,
// fewest deviations (preemptions, unusual kernel answers, early timeouts) first.
#pragma once
#include <cstdint>
#include <cstddef>

namespace mc {
struct Config {
	int preemptions = 2;      // switches away from a thread that could continue
	int env = 1;              // unusual answers of the environment
	int early_time = 0;       // clock advances although somebody can run
	int total = 2;            // all deviations together
	int horizon = 30000;      // scheduling points per execution
	bool block_choice_free = true;   // who runs next when a thread blocks: all alternatives, or counted as a preemption
	bool unlock_points = false;      // scheduling point before mutex unlock (needed when somebody tries locks)
	bool refcount_points = false;    // scheduling points at shared_ptr reference counts
};
Config& config();             // set in mc_setup()
int choose(int n);            // harness decision, all alternatives explored
int deviate(int n);           // environment decision, alternatives cost one unit
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard_path();
bool thorough();
int param(const char* name, int def);
// record an observation in the global history (ordered against all other observations)
struct Event { int tid; int kind; int64_t a, b, c; int64_t time_us; };
int event(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
int event_count(); const Event& event_at(int i);
// continue only when no other thread can run (idle_for: letting up to us microseconds pass)
void idle();
void idle_for(int64_t us);
int64_t now_us();             // virtual clock
void sleep_us(int64_t us);
void yield();
int self();                   // model thread number
int live_threads();           // model threads not yet ended
int spawn(void (*fn)(void*), void* arg);   // harness thread; join with join_all() / join(id)
void join(int id);
void join_all();
void outcome(uint64_t h);     // fingerprint of what was observed (statistics only)
// heap blocks allocated by the code under test since mark and still alive
uint64_t heap_mark();
int heap_live_since(uint64_t mark);
void heap_dump(uint64_t mark);
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	h ^= h >> 29; return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }
}
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

void mc_setup(void);          // before exploration: set mc::config()
void mc_body(void);           // one execution (model thread 0)
