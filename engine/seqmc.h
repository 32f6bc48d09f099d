// seqmc: stateless exhaustive exploration of sequential code.
//
// A harness defines   void mc_body(void)   -- a nondeterministic program that draws
// every decision (operation, argument, kernel answer, segmentation) from choose(n).
// The explorer runs mc_body once for every possible sequence of answers (depth-first,
// no sampling).  Work is sharded over processes by the first decisions.  A failing
// path is its list of answers; it is re-run in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>

namespace mc {
// n alternatives, returns 0..n-1
int choose(int n);
// choice with a cost: alternative 0 is free, every other one uses one unit of the
// path's deviation budget (set by set_budget); when it is used up the answer is 0.
int deviate(int n);
void set_budget(int units);
// append to the readable description of the current path
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// report: the property is violated on this path (does not return)
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// this path is not of interest (precondition not met); counted separately, does not return
[[noreturn]] void discard_path();
// a state of the explored system (64 bit fingerprint of what is observable)
void state(uint64_t h);
// one transition (operation of the real code compared against the model)
void step();
// harness parameters
bool thorough();
int param(const char* name, int def);
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const uint8_t* b = (const uint8_t*)p;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
	h ^= h >> 29; return h;
}
inline uint64_t mix(uint64_t h, uint64_t v) { return hash_bytes(&v, sizeof v, h); }
}
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

void mc_body(void);
