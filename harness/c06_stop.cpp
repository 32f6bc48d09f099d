// C06: stop requests against a starting, dispatching, sleeping or ending loop.
#include <cy_core.h>
#include <cy_event.h>
#include "mcrt.h"
#include "simk.h"
#include <unistd.h>
using namespace cyclone;
static Looper* looper; static volatile int made; static int what, fd[2], nreq, twice, handled, requested_by_handler, busy;
static atomic_int32_t created, looping_done;
static void loop_thread(void*) {
	looper = Looper::create_looper();
	if (what == 1 || what == 2) looper->register_event(fd[0], Looper::kRead, nullptr, [](Looper::event_id_t, socket_t s, Looper::event_t, void*) {
		char c; ssize_t k = read(s, &c, 1); (void)k; handled++;
		if (what == 2) looper->push_stop_request();
	}, nullptr);
	Looper::event_id_t timer = Looper::INVALID_EVENT_ID;
	if (what == 3) timer = looper->register_timer_event(50, nullptr, [](Looper::event_id_t, void*) { handled++; });
	if (what == 4) looper->register_event(fd[1], Looper::kWrite, nullptr, nullptr, [](Looper::event_id_t, socket_t, Looper::event_t, void*) { if (++handled > 1) mc::yield(); });   // always ready: the loop never sleeps
	created = 1;
	int open0 = simk::open_count();
	looper->loop();
	MC_CHECK(looper->is_quit_pending(), "the loop returned without a stop request");
	MC_CHECK(mc::now_us() == 0, "the loop returned %lld us after the request", (long long)mc::now_us());
	MC_CHECK(simk::open_count() == open0, "%d descriptors open after the loop, %d before", simk::open_count(), open0);
	looping_done = 1;
	if (what == 3) looper->delete_event(timer);
}
static void requester(void*) {
	while (!created) mc::yield();
	looper->push_stop_request();
	if (twice) looper->push_stop_request();
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 2); c.env = mc::param("E", 1); c.total = mc::param("D", 2); c.horizon = 4000; simk::opt().eintr = true; simk::opt().order = true; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	what = mc::choose(5); twice = mc::choose(2); nreq = mc::param("req", 1) - (what == 2 ? mc::choose(2) : 0); busy = mc::choose(2);
	if (what) { if (pipe(fd)) {} }
	if (busy && (what == 1 || what == 2)) { if (write(fd[1], "xx", 2)) {} }
	if (what == 2 && !busy) { if (nreq == 0) mc::discard_path(); }
	uint64_t mark = mc::heap_mark(); int fds = simk::open_count();
	int t = mc::spawn(loop_thread, nullptr);
	for (int i = 0; i < nreq; i++) mc::spawn(requester, nullptr);
	mc::join_all(); (void)t;
	Looper::destroy_looper(looper);
	MC_CHECK(simk::open_count() == fds, "%d descriptors left open", simk::open_count() - fds);
	int n = mc::heap_live_since(mark); if (n) { mc::heap_dump(mark); mc::fail("%d heap blocks leaked", n); }
	mc::outcome(handled * 10 + what + 1);
}
