// C15: thread creation, identity, join and clean-up under every explored interleaving.
#include <cy_core.h>
#include "mcrt.h"
#include <cstring>
using namespace cyclone;
struct T { int idx; int mode, dur, when; int runs; int started, ended; bool nameok, paramok; thread_id_t seen; thread_t h; int joined; };
static T th[4]; static int n;
static const char* nm[] = {"a", "second thread with a name longer than any small string", "", "third"};
static void fn(void* p, T* self) {
	self->started = mc::event(1, self->idx); self->runs++;
	self->paramok = p == (self->idx == 1 && self->mode != 3 ? nullptr : self); self->nameok = !strcmp(sys_api::thread_get_current_name(), nm[self->idx]);
	self->seen = sys_api::thread_get_current_id();
	if (self->dur == 1) sys_api::thread_yield();
	if (self->dur == 2) sys_api::thread_sleep(3);
	if (self->dur == 3) sys_api::thread_sleep(20);
	if (self->idx == 0 && n > 1 && th[1].mode == 3) { th[1].h = sys_api::thread_create([](void* q) { fn(q, (T*)q); }, &th[1], nm[1]); sys_api::thread_join(th[1].h); th[1].joined = mc::event(3, 1); }
	self->ended = mc::event(2, self->idx);
}
static void join_one(T& t) {
	if (t.mode == 1) {   // bounded waits until it succeeds
		int ms = t.when == 2 ? 0 : 5;
		for (int k = 0;; k++) {
			int64_t t0 = mc::now_us(); int before = mc::event(4, t.idx, ms);
			bool ok = sys_api::thread_join(t.h, ms);
			int after = mc::event(5, t.idx, ok);
			if (!mc::config().early_time) MC_CHECK(mc::now_us() - t0 <= ms * 1000, "timed join took %lld us instead of %d ms", (long long)(mc::now_us() - t0), ms);
			if (ok) { t.joined = after; break; }
			MC_CHECK(mc::now_us() - t0 >= ms * 1000, "timed join gave up after %lld us of %d ms", (long long)(mc::now_us() - t0), ms);
			(void)before;
			MC_CHECK(k < 50, "timed join never succeeds");
			if (ms == 0) sys_api::thread_sleep(2);
		}
	} else { sys_api::thread_join(t.h); t.joined = mc::event(5, t.idx, 1); }
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 2); c.env = mc::param("E", 1); c.total = mc::param("D", 2); c.unlock_points = mc::param("up", 0); c.horizon = 3000; }
void mc_body() {
	uint64_t mark = mc::heap_mark();
	n = mc::param("thr", 2);
	for (int i = 0; i < n; i++) {
		T& t = th[i]; t.idx = i; t.started = t.ended = t.joined = -1;
		t.mode = mc::choose(i == 1 ? 4 : 3);      // 0 join, 1 timed joins, 2 detached, 3 created and joined by the first thread
		t.dur = mc::choose(mc::param("durs", 4)); t.when = mc::choose(t.mode == 2 || t.mode == 3 ? 1 : 3);   // join at once, after it ended, in reverse order / poll
	}
	for (int i = 0; i < n; i++) {
		T& t = th[i];
		if (t.mode == 3) continue;
		if (t.mode == 2) { if (i == 0) sys_api::thread_create_detached([](void* q) { fn(q, &th[0]); }, &t, nm[i]); else sys_api::thread_create_detached([&t](void* q) { fn(q, &t); }, i == 1 ? nullptr : &t, nm[i]); }
		else { if (i == 1) t.h = sys_api::thread_create([&t](void* q) { fn(q, &t); }, nullptr, nm[i]); else t.h = sys_api::thread_create([](void* q) { fn(q, (T*)q); }, &t, nm[i]); MC_CHECK(t.h != nullptr, "no handle"); }
		if (t.mode < 2 && t.when == 0) { thread_id_t id = sys_api::thread_get_id(t.h); join_one(t); MC_CHECK(id == t.seen, "thread_get_id differs from the id the thread sees"); }
	}
	for (int i = n - 1; i >= 0; i--) {
		T& t = th[i]; if (t.mode >= 2 || t.when == 0) continue;
		if (t.when == 1) mc::idle_for(100000);
		thread_id_t id = sys_api::thread_get_id(t.h); join_one(t); MC_CHECK(id == t.seen, "thread_get_id differs from the id the thread sees");
	}
	mc::idle_for(200000);
	uint64_t h = 0;
	for (int i = 0; i < n; i++) {
		T& t = th[i];
		mc::note("thread %d mode %d dur %d when %d: started %d ended %d joined %d; ", i, t.mode, t.dur, t.when, t.started, t.ended, t.joined);
		MC_CHECK(t.runs == 1, "thread function ran %d times", t.runs);
		MC_CHECK(t.paramok, "wrong parameter"); MC_CHECK(t.nameok, "wrong name");
		MC_CHECK(t.ended >= 0, "thread function has not ended");
		if (t.mode != 2) MC_CHECK(t.joined > t.ended, "join returned before the thread function ended");
		for (int k = 0; k < i; k++) MC_CHECK(!(th[k].seen == t.seen) || !(th[k].started < t.ended && t.started < th[k].ended), "two live threads share an id");
		h = mc::mix(h, t.started * 64 + t.ended);
	}
	mc::outcome(h);
	MC_CHECK(mc::live_threads() == 1, "a thread is still alive");
	int left = mc::heap_live_since(mark);
	if (left) { mc::heap_dump(mark); mc::fail("%d heap blocks of ended threads were not released", left); }
}
