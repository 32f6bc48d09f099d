// C08: timers fire after their period, keep firing, and stop when told (virtual time).
#include <cy_core.h>
#include <cy_event.h>
#include "mcrt.h"
#include "simk.h"
#include <fcntl.h>
#include <string>
#include <unistd.h>
using namespace cyclone;
typedef Looper::event_id_t eid;
enum { MAXT = 40 };
struct Tm { bool alive, on, due, touched, called; eid id; int64_t period, next; int calls; };
static Tm tm_[MAXT]; static int ntm, budget, stopped, running, in_batch, mode, base, grown; static int64_t busy_until, stop_at; static Looper* L; static int pfd[2], p2[2], nfe, fecalls; static eid fe;   // p2: a descriptor event takes the place of a timer
static int64_t ms() { return mc::now_us() / 1000; }
static void finish_batch() {
	if (!in_batch) return; in_batch = 0;
	int ndue = 0; for (int i = 0; i < ntm; i++) ndue += tm_[i].due;
	if (ndue > 14) return;   // epoll_wait hands over 16 events at a time
	for (int i = 0; i < ntm; i++) if (tm_[i].due && !tm_[i].touched && !tm_[i].called && !stopped) mc::fail("timer %u (period %lld ms) is due since %lld ms and is not called when the loop is serviced at %lld ms", tm_[i].id, (long long)tm_[i].period, (long long)tm_[i].next, (long long)ms());
}
static void on_poll() {
	finish_batch(); in_batch = 1;
	for (int i = 0; i < ntm; i++) { Tm& t = tm_[i]; t.touched = t.called = false; t.due = t.alive && t.on && ms() >= t.next;
		if (t.due && mode && !grown) MC_CHECK(ms() <= (t.next > busy_until ? t.next : busy_until), "timer %u is due at %lld ms, but the loop sleeps until %lld ms", t.id, (long long)t.next, (long long)ms()); }
}
static void action(int self);
static int add(int64_t period);
static void on_timer(int i, eid id, void* param, const std::string& payload) {
	Tm& t = tm_[i];
	MC_CHECK(param == (void*)&t, "timer %u gets another one's argument", t.id);
	MC_CHECK(t.alive, "timer %u fires after it was deleted", t.id);
	MC_CHECK(id == t.id, "timer %u is told it is %u", t.id, id);
	MC_CHECK(t.on, "timer %u fires although it is disabled", t.id);
	MC_CHECK(ms() >= t.next, "timer %u (period %lld ms) fires at %lld ms, before %lld ms", t.id, (long long)t.period, (long long)ms(), (long long)t.next);
	MC_CHECK(t.due, "timer %u fires although it was not due when the loop looked", t.id);
	MC_CHECK(!t.called, "timer %u fires twice for one period", t.id);
	MC_CHECK(!running++, "a handler runs inside another");
	t.called = true; t.calls++; t.next += (1 + (ms() - t.next) / t.period) * t.period;
	mc::note("%lld: timer %u ", (long long)ms(), t.id);
	action(i);
	MC_CHECK(payload == "a payload long enough for the heap", "the handler's own captures were destroyed while it ran");
	running--; busy_until = ms();
}
static int add(int64_t period) {
	int i = ntm++; if (i >= MAXT) mc::fail("harness: too many timers"); Tm& t = tm_[i]; std::string s("a payload long enough for the heap");
	t.period = period; t.next = ms() + period; t.on = true; t.touched = true;
	t.id = L->register_timer_event((uint32_t)period, &t, [i, s](eid id, void* param) { on_timer(i, id, param, s); });
	MC_CHECK(t.id != Looper::INVALID_EVENT_ID, "register_timer_event fails");
	for (int k = 0; k < i; k++) if (tm_[k].alive) MC_CHECK(tm_[k].id != t.id, "timer id %u is given twice", t.id);
	t.alive = true; return i;
}
static void del(int i) { Tm& t = tm_[i]; t.alive = false; t.touched = true; L->delete_event(t.id); }
enum { PER = 7, GLOBAL = 4 };
static void action(int self) {
	if (!budget) return;
	int live[4], n = 0; if (self >= 0 && tm_[self].alive) live[n++] = self;
	for (int i = 0; i < ntm && n < 3; i++) if (i != self && tm_[i].alive) live[n++] = i;
	int c = mc::choose(1 + PER * n + GLOBAL); if (!c) return;
	c--; budget--;
	if (c < PER * n) {
		int i = live[c / PER]; Tm& t = tm_[i];
		static const char* nm[] = {"delete", "disable", "disable all", "enable", "replace", "disable and enable", "descriptor event in place of"}; mc::note("[%s %u] ", nm[c % PER], t.id);
		switch (c % PER) {
		case 0: del(i); break;
		case 1: L->disable_read(t.id); t.on = false; t.touched = true; break;
		case 2: L->disable_all(t.id); t.on = false; t.touched = true; break;
		case 3: L->enable_read(t.id); t.on = true; break;
		case 4: { int64_t p = t.period; del(i); add(p); break; }
		case 5: L->disable_read(t.id); t.touched = true; L->enable_read(t.id); t.on = true; break;
		case 6: del(i); if (nfe++) mc::discard_path();
			fe = L->register_event(p2[0], Looper::kRead, p2, [](eid id, socket_t fd, Looper::event_t, void* param) { MC_CHECK(id == fe && fd == p2[0] && param == p2, "event %u is told it is %u", fe, id); fecalls++; char c; ssize_t k = read(fd, &c, 1); (void)k; mc::note("%lld: descriptor ", (long long)ms()); action(-1); busy_until = ms(); }, nullptr);
			for (int k = 0; k < ntm; k++) if (tm_[k].alive) MC_CHECK(tm_[k].id != fe, "id %u is given twice", fe);
			{ ssize_t k = write(p2[1], "x", 1); (void)k; } break;
		}
	} else switch (c - PER * n) {
	case 0: mc::note("[register] "); add(base); break;
	case 1: mc::note("[register 18] "); if (grown++) mc::discard_path(); for (int k = 0; k < 18; k++) add(base * 2); break;
	case 2: mc::note("[busy] "); mc::sleep_us((base * 2 + base / 2) * 1000); break;
	case 3: if (self >= 0) { mc::note("[stop] "); stopped = 1; L->push_stop_request(); } else { mc::note("[feed] "); ssize_t k = write(pfd[1], "x", 1); (void)k; } break;
	}
	for (int i = 0; i < ntm; i++) if (tm_[i].alive) MC_CHECK(L->is_read(tm_[i].id) == tm_[i].on, "timer %u: is_read answers %d", tm_[i].id, L->is_read(tm_[i].id));
	busy_until = ms();
}
static void stopper(void*) { mc::sleep_us(stop_at * 1000); if (!stopped) stopped = 2; L->push_stop_request(); }
void mc_setup() { auto& c = mc::config(); c.preemptions = 0; c.env = mc::param("E", 1); c.total = mc::param("D", 1); c.horizon = 20000; simk::opt().order = true; simk::opt().eintr = mc::param("eintr", 0); simk::poll_hook = on_poll; }
void mc_body() {
	set_log_threshold(L_MAXIMUM_LEVEL);
	uint64_t mark = mc::heap_mark(); int open0 = simk::open_count();
	if (pipe2(pfd, O_NONBLOCK) || pipe2(p2, O_NONBLOCK)) mc::fail("harness: pipe");
	L = Looper::create_looper(); budget = mc::param("acts", 2);
	static const int per[][3] = {{10, 10, 20}, {10, 20, 1500}, {1000, 999, 2500}, {1, 7, 4294967}};
	int cfg = mc::choose(mc::param("cfgs", 3)); mode = mc::choose(2); base = per[cfg][0];
	eid pe = L->register_event(pfd[0], Looper::kRead, nullptr, [](eid, socket_t fd, Looper::event_t, void*) { char c; ssize_t k = read(fd, &c, 1); (void)k; mc::note("%lld: pipe ", (long long)ms()); action(-1); busy_until = ms(); }, nullptr);
	for (int i = 0; i < 3; i++) add(per[cfg][i]);
	stop_at = base * 4 + base / 2;
	if (mode) {
		action(-1); if (mc::choose(2)) { ssize_t k = write(pfd[1], "x", 1); (void)k; }
		mc::spawn(stopper, nullptr); L->loop(); mc::join_all(); in_batch = 0;
		if (stopped == 2) for (int i = 0; i < ntm; i++) if (tm_[i].alive && tm_[i].on) MC_CHECK(tm_[i].next >= ms() || tm_[i].next >= busy_until || busy_until >= stop_at, "timer %u was due at %lld ms and did not fire until %lld ms", tm_[i].id, (long long)tm_[i].next, (long long)ms());
	} else for (int k = 0; k < mc::param("rounds", 3) && !stopped; k++) {
		action(-1); int d = mc::choose(4); mc::sleep_us((d == 0 ? 0 : d == 1 ? base - 1 : d == 2 ? base : base * 2 + 3) * 1000);
		L->step(); finish_batch();
	}
	for (int i = 0; i < ntm; i++) if (tm_[i].alive) del(i);
	if (nfe) {
		budget = 0; if (fecalls == 0 && !mode && !stopped) L->step();
		MC_CHECK(fecalls == 1 || (fecalls == 0 && stopped), "the descriptor event is called %d times for one byte", fecalls);
		L->delete_event(fe); MC_CHECK(simk::is_open(p2[0]), "deleting a descriptor event closes the descriptor");
	}
	L->delete_event(pe); Looper::destroy_looper(L); simk::poll_hook = nullptr; close(pfd[0]); close(pfd[1]); close(p2[0]); close(p2[1]);
	uint64_t h = 1; for (int i = 0; i < ntm; i++) h = mc::mix(h, tm_[i].calls); mc::outcome(h);
	MC_CHECK(simk::open_count() == open0, "%d descriptors left open", simk::open_count() - open0);
	int n = mc::heap_live_since(mark); if (n) { mc::heap_dump(mark); mc::fail("%d heap blocks leaked", n); }
}
