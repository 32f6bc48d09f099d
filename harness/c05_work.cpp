// C05: a work thread delivers every message exactly once, in order, awake.
#include <cy_core.h>
#include <cy_event.h>
#include "mcrt.h"
#include "simk.h"
#include <cstring>
#include <unistd.h>
using namespace cyclone;
enum { STOP = 999, NS = 4, MAXM = 16 };
static WorkThread* wt; static int nsend, nmsg, early, self_send, full, handler_pause, start_fails, worker_tid, stopped_loop;
static int form[NS][MAXM], nform[NS];          // script of every sender: 0 raw, 1 raw in two parts, 2 packet, 3 batch of two
static int sent[NS];                           // per sender, written by it alone
struct Got { int s, q; }; static Got got[2000000]; static int ngot; static int handling;
static int size_of(int s, int q) { return (s * 5 + q * 3) % 7 == 0 ? 0 : (q == 1 ? 1100 : 4 + (s * 5 + q * 3) % 7); }
static void fill(char* b, int s, int q, int n) { for (int i = 0; i < n; i++) b[i] = (char)(s * 50 + q * 7 + i); }
static void send_one(int s, int f) {
	char b[1200], c[1200]; int q = sent[s], n = size_of(s, q); fill(b, s, q, n);
	uint16_t id = (uint16_t)(s * 100 + q);
	if (f == 0) wt->send_message(id, (uint16_t)n, n ? b : nullptr);
	else if (f == 1) wt->send_message(id, (uint16_t)(n / 2), b, (uint16_t)(n - n / 2), b + n / 2);
	else if (f == 2) { Packet* p = Packet::alloc_packet(); p->build_from_memory(4 + 4 * (q & 1), id, (uint16_t)n, b); wt->send_message(p); Packet::free_packet(p); }
	else {
		Packet* p[2]; p[0] = Packet::alloc_packet(); p[0]->build_from_memory(4, id, (uint16_t)n, b);
		int m = size_of(s, q + 1); fill(c, s, q + 1, m); p[1] = Packet::alloc_packet(); p[1]->build_from_memory(4, (uint16_t)(id + 1), (uint16_t)m, c);
		wt->send_message((const Packet**)p, 2); Packet::free_packet(p[0]); Packet::free_packet(p[1]); sent[s]++;
	}
	sent[s]++;
}
static int hook, started;                      // start callback: 0 none, 1 accepts, 2 refuses, 3 sends to its own thread
static void send_one(int s, int f);
static bool on_start() {
	MC_CHECK(!started++, "the start callback runs twice"); MC_CHECK(!ngot, "a message is handled before the start callback");
	worker_tid = mc::self(); MC_CHECK(sys_api::thread_get_current_id() == wt->get_looper()->get_thread_id(), "the start callback runs on a thread that is not the work thread");
	if (hook == 3) send_one(2, 0);
	return hook != 2;
}
static sys_api::signal_t sig_held, sig_go; static int hold;
static void on_message(Packet* p) {
	MC_CHECK(!handling++, "the handler runs twice at once");
	if (worker_tid < 0) worker_tid = mc::self();
	MC_CHECK(mc::self() == worker_tid && sys_api::thread_get_current_id() == wt->get_looper()->get_thread_id(), "the handler runs on a thread that is not the work thread");
	int id = p->get_packet_id();
	if (id == STOP) { stopped_loop = 1; wt->get_looper()->push_stop_request(); handling--; return; }
	int s = full ? 0 : id / 100, q = full ? -1 : id % 100;
	if (full) { uint32_t v; MC_CHECK(p->get_packet_size() == 4, "wrong size"); memcpy(&v, p->get_packet_content(), 4); s = v >> 24; q = v & 0xffffff; }
	else {
		MC_CHECK(s < NS && q < MAXM, "a message nobody sent (id %d)", id);
		int n = size_of(s, q); char b[1200]; fill(b, s, q, n);
		MC_CHECK(p->get_packet_size() == n, "message %d of sender %d arrives with size %d instead of %d", q, s, p->get_packet_size(), n);
		MC_CHECK(n == 0 || !memcmp(p->get_packet_content(), b, n), "message %d of sender %d arrives with other content", q, s);
	}
	got[ngot].s = s; got[ngot].q = q; ngot++;
	if (hold) { hold = 0; sys_api::signal_notify(sig_held); sys_api::signal_wait(sig_go); }
	if (self_send && s == 0 && q == 0) { send_one(3, self_send - 1); }
	if (handler_pause == 1) mc::yield();
	handling--;
}
static void sender(void* p) { int s = (int)(intptr_t)p; for (int i = 0; i < nform[s]; i++) send_one(s, form[s][i]); }
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 2); c.env = mc::param("E", 1); c.total = mc::param("D", 2); c.horizon = mc::param("full", 0) ? 50000000 : 5000; simk::opt().eintr = true; }
static void check_all() {
	int next[NS] = {0, 0, 0, 0};
	for (int i = 0; i < ngot; i++) { int s = got[i].s, q = got[i].q; MC_CHECK(q >= next[s], "message %d of sender %d is delivered after its message %d%s", q, s, next[s] - 1, q == next[s] - 1 ? " (twice)" : ""); MC_CHECK(q == next[s], "message %d of sender %d was not delivered before message %d", next[s], s, q); next[s]++; }
	for (int s = 0; s < NS; s++) MC_CHECK(next[s] == sent[s], "sender %d sent %d messages, %d were delivered, and nothing more happens", s, sent[s], next[s]);
}
static void burst(int from, int to) { for (int i = from; i < to; i++) { uint32_t v = i; wt->send_message(7, 4, (const char*)&v); sent[0]++; } }
static void run_full() {
	// bursts around the queue's capacity, and beyond it, while the worker is not running yet or held up in its handler
	int extra = mc::choose(4), where = mc::choose(2), n = extra < 3 ? 65534 + extra * 2 : 131072 + 5;
	sig_held = sys_api::signal_create(); sig_go = sys_api::signal_create();
	wt = new WorkThread(); wt->set_on_message(on_message); worker_tid = -1;
	int k = 0;
	if (where == 1) { wt->start("worker"); hold = 1; burst(0, 1); sys_api::signal_wait(sig_held); k = 1; n++; }
	burst(k, n);
	uint32_t v = 1u << 24; wt->send_message(7, 4, (const char*)&v); sent[1]++;
	if (where == 0) { hold = 1; wt->start("worker"); sys_api::signal_wait(sig_held); }
	sys_api::signal_notify(sig_go);
	mc::idle(); check_all();
	hold = 1; burst(n, n + 1); sys_api::signal_wait(sig_held); burst(n + 1, n + 5); sys_api::signal_notify(sig_go);
	mc::idle(); check_all();
	sys_api::signal_destroy(sig_held); sys_api::signal_destroy(sig_go);
}
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	uint64_t mark = mc::heap_mark(); int fds = simk::open_count();
	full = mc::param("full", 0); worker_tid = -1;
	if (full) run_full();
	else {
		nsend = mc::param("senders", 2); nmsg = mc::param("msgs", 2);
		int forms = mc::param("forms", 2);   // how many forms a message can take
		for (int s = 0; s < nsend; s++) { nform[s] = nmsg; for (int i = 0; i < nmsg; i++) form[s][i] = forms == 1 ? (s + i) % 4 : forms == 2 ? mc::choose(2) * 3 : mc::choose(forms); }
		early = mc::choose(mc::param("early", 3)); self_send = mc::choose(mc::param("self", 2)); handler_pause = mc::choose(2);
		hook = mc::choose(mc::param("hook", 1));
		if (self_send) self_send = 1 + (nsend & 1) * 3;
		wt = new WorkThread(); wt->set_on_message(on_message); if (hook) wt->set_on_start(on_start);
		// early: messages sent before the thread runs; senders racing with start(); or only afterwards
		int k = 0;
		if (early == 1) send_one(0, form[0][k++]);
		if (early == 2) for (int s = 1; s < nsend; s++) mc::spawn(sender, (void*)(intptr_t)s);
		wt->start("worker");
		if (early != 2) for (int s = 1; s < nsend; s++) mc::spawn(sender, (void*)(intptr_t)s);
		for (; k < nform[0]; k++) send_one(0, form[0][k]);
		mc::join_all();
		mc::idle();
		if (hook == 2) { MC_CHECK(!ngot, "a message is handled although the start callback refused"); wt->join(); stopped_loop = 1; }
		else check_all();
		MC_CHECK(started == !!hook, "the start callback ran %d times", started);
		mc::note("delivered:"); uint64_t h = 1; for (int i = 0; i < ngot; i++) { mc::note(" %d.%d", got[i].s, got[i].q); h = mc::mix(h, got[i].s * 100 + got[i].q); } mc::note("\n");
		mc::outcome(h);
	}
	if (hook != 2 || mc::choose(2)) wt->send_message(STOP, 0, nullptr);
	wt->join();
	MC_CHECK(stopped_loop, "the work thread ended without its stop message");
	MC_CHECK(!wt->is_running(), "still running after join");
	delete wt;
	MC_CHECK(simk::open_count() == fds, "%d descriptors left open", simk::open_count() - fds);
	int n = mc::heap_live_since(mark); if (n) { mc::heap_dump(mark); mc::fail("%d heap blocks leaked", n); }
}
