// internal interface between the scheduler (mcrt.cpp) and the models of libc/kernel calls
#pragma once
#include "mcrt.h"
#include <cstdarg>
#include <pthread.h>
namespace mcrt {
enum { MAXT = 16 };
enum { ST_NONE, ST_RUN, ST_BLOCKED, ST_DONE };
struct Th;
typedef bool (*ReadyFn)(Th*);
struct Th {
	int id, state;
	ReadyFn ready; const void* wobj; int64_t deadline; const char* why; long warg;   // while blocked
	bool yielded, signalled, idler, detached, joined;
	int go;                            // futex
	uint64_t hash; uint32_t vc[MAXT];
	void* (*fn)(void*); void* arg; void* ret; pthread_t ptid;
	int spin;
};
extern bool active;                    // inside an execution
extern int64_t now_ns;
extern __thread Th* me;
extern __thread int in_rt;             // >0: runtime code, do not instrument
struct Guard { Guard() { in_rt++; } ~Guard() { in_rt--; } };
inline bool on() { return active && me && !in_rt; }
void point(const char* what, const void* obj = nullptr);   // a visible operation is about to happen
// its effect on obj (conflict order, happens-before)
void access(const void* obj, bool write, uint64_t opcode = 0);
void sync(const void* obj, bool acq, bool rel);
inline void op(const void* obj, uint64_t opcode = 0) { access(obj, true, opcode); sync(obj, true, true); }
// block until ready(t); deadline<0: none. true = ready, false = deadline reached
bool block(const char* why, ReadyFn ready, const void* obj, int64_t deadline_ns, long arg = 0);
void yield_point();
int env_choose(int n, const char* what);   // deviation: alternatives 1..n-1 cost one unit
int free_choose(int n, const char* what);
void mixin(uint64_t v);                // private nondeterminism of this thread
[[noreturn]] void fail_now(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void check_range(const void* p, size_t n, bool write, const char* what);   // heap validity
extern int64_t (*next_timer)();        // kernel: earliest armed timer after now, or -1
extern void (*exec_begin)();           // kernel: reset at start of an execution
void* real_sym(const char* name);
void* rt_alloc(size_t n);
enum { CLOCK_OBJ_ = 0 };
extern char clock_obj, history_obj, threads_obj, free_obj;
}
