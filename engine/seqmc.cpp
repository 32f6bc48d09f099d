#include "seqmc.h"
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <atomic>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SEQMC_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

namespace mc {
enum { MAXC = 4096, NOTE = 16384, NSETBITS = 22, MAXSHARD = 32, PFX = 14 };
struct ShardSlot {
	std::atomic<uint64_t> paths, discarded, steps, maxdepth;
	std::atomic<uint64_t> heartbeat;   // path counter, to see progress
	std::atomic<int> failed, done, capped;
	int n; int c[MAXC]; int w[MAXC];
	char note[NOTE]; int notelen;
	char sample[3][2048]; int nsample;
	char failmsg[2048];
};
struct Shm {
	std::atomic<uint64_t> states, full;
	ShardSlot s[MAXSHARD];
	std::atomic<uint64_t> set[1u << NSETBITS];
};
static Shm* shm; static ShardSlot* S;
static int g_shard, g_nshards = 8; static bool g_thorough;
static double g_limit = 1e9; static double g_start;
static int pos, budget; static std::vector<int> forced; static bool replaying;
static jmp_buf jb;
static int g_argc; static char** g_argv;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void set_budget(int u) { budget = u; }
int choose(int n) {
	if (n <= 0) { fprintf(stderr, "seqmc: choose(%d)\n", n); _exit(3); }
	if (pos >= MAXC) { fprintf(stderr, "seqmc: path too deep\n"); _exit(3); }
	if (pos < S->n) {
		if (S->w[pos] && S->w[pos] != n) { fprintf(stderr, "seqmc: nondeterministic harness (width %d != %d at %d)\n", n, S->w[pos], pos); _exit(3); }
		S->w[pos] = n;
		if (S->c[pos] >= n) { fprintf(stderr, "seqmc: replay out of range\n"); _exit(3); }
		return S->c[pos++];
	}
	S->c[pos] = 0; S->w[pos] = n; S->n = pos + 1;
	return S->c[pos++];
}
int deviate(int n) {
	if (budget <= 0) return 0;
	int r = choose(n);
	if (r) budget--;
	return r;
}
void note(const char* f, ...) {
	va_list a; va_start(a, f);
	int left = NOTE - S->notelen - 1;
	if (left > 1) { int k = vsnprintf(S->note + S->notelen, left, f, a); if (k > 0) S->notelen += k < left ? k : left - 1; }
	va_end(a);
}
void fail(const char* f, ...) {
	va_list a; va_start(a, f); vsnprintf(S->failmsg, sizeof S->failmsg, f, a); va_end(a);
	S->failed = 1;
	longjmp(jb, 2);
}
void discard_path() { longjmp(jb, 3); }
void state(uint64_t h) {
	if (!h) h = 1;
	uint64_t m = (1u << NSETBITS) - 1;
	for (uint64_t i = h & m, k = 0; k < 64; k++, i = (i + 1) & m) {
		uint64_t v = shm->set[i].load(std::memory_order_relaxed);
		if (v == h) return;
		if (v == 0) {
			if (shm->set[i].compare_exchange_strong(v, h)) { shm->states++; return; }
			if (v == h) return;
		}
	}
	shm->full++;
}
void step() { S->steps.store(S->steps.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed); }
bool thorough() { return g_thorough; }
int param(const char* name, int def) {
	size_t L = strlen(name);
	for (int i = 1; i < g_argc; i++) if (!strncmp(g_argv[i], name, L) && g_argv[i][L] == '=') return atoi(g_argv[i] + L + 1);
	return def;
}
static size_t allocated() {
#ifdef SEQMC_ASAN
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}
static int run_once() {  // 0 ok, 2 fail, 3 discard
	pos = 0; budget = 0; S->notelen = 0; S->note[0] = 0; S->failed = 0;
	int r = setjmp(jb);
	if (r == 0) mc_body();
	return r;
}
// own this subtree? decided on the first decisions with enough alternatives
static bool mine() {
	uint64_t idx = 0; uint64_t prod = 1;
	for (int i = 0; i < pos && i < PFX; i++) { idx = idx * S->w[i] + S->c[i]; prod *= S->w[i]; if (prod >= 4096) break; }
	return (int)((idx * 2654435761ull >> 7) % g_nshards) == g_shard;
}
static bool advance() {
	while (S->n > 0) {
		int i = S->n - 1;
		if (++S->c[i] < S->w[i]) { for (int k = i + 1; k < MAXC && S->w[k]; k++) S->w[k] = 0; return true; }
		S->w[i] = 0; S->n = i;
	}
	return false;
}
static void take_sample() {
	if (S->nsample < 3 && S->notelen) { snprintf(S->sample[S->nsample], 2048, "%s", S->note); S->nsample++; }
}
static int explore() {
	S->n = 0;
	for (;;) {
		// sharding by the leading decisions of the path: run the first path of every subtree, count it only if mine
		size_t before = allocated();
		int r = run_once();
		if (r == 0) {
			size_t after = allocated();
			if (after > before) {   // leak? lazily initialised statics disappear on a second run
				before = allocated(); r = run_once(); after = allocated();
				if (r == 0 && after > before) { snprintf(S->failmsg, sizeof S->failmsg, "memory leaked on this path: %zu bytes", after - before); return 1; }
			}
		}
		S->n = pos < S->n ? pos : S->n;
		if (r == 2) return 1;
		if (mine()) {
			if (r == 3) S->discarded++; else S->paths++;
			if ((uint64_t)pos > S->maxdepth) S->maxdepth = pos;
			if (S->paths % 9973 == 1) take_sample();
		}
		S->heartbeat++;
		if (!advance()) return 0;
		// skip whole subtrees that belong to other shards
		for (;;) {
			int lim = 0; uint64_t prod = 1;
			for (; lim < S->n && lim < PFX; lim++) { prod *= S->w[lim]; if (prod >= 4096) { lim++; break; } }
			// the subtree is fixed once the deciding prefix is complete
			if (!(prod >= 4096 || lim == PFX) || lim > S->n) break;
			int save = pos; pos = lim; bool m = mine(); pos = save;
			if (m) break;
			// skip to next sibling of the deciding prefix
			for (int k = lim; k < S->n; k++) S->w[k] = 0;
			S->n = lim;
			if (!advance()) return 0;
		}
		if ((S->heartbeat & 255) == 0 && now() - g_start > g_limit) { S->capped = 1; return 0; }
	}
}
}
using namespace mc;

static void write_replay(const char* path, ShardSlot* s, int n) {
	FILE* f = fopen(path, "w"); if (!f) return;
	for (int i = 0; i < n; i++) fprintf(f, "%d ", s->c[i]);
	fprintf(f, "\n# %s\n# %s\n", s->failmsg, s->note); fclose(f);
}
static void jstr(FILE* f, const char* s) {
	fputc('"', f);
	for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
	fputc('"', f);
}
// run the recorded path in a child; returns true when it fails again
static bool confirm(ShardSlot* src, int n, int secs, char* out, size_t outn) {
	ShardSlot* d = &shm->s[MAXSHARD - 1];
	memset((void*)d, 0, sizeof *d);
	memcpy(d->c, src->c, sizeof(int) * n); d->n = n;
	fflush(stdout);
	pid_t p = fork();
	if (!p) {
		S = d; replaying = true; alarm(secs);
		size_t b = allocated(); int r = run_once(); size_t a = allocated();
		if (r == 0 && a > b) { b = allocated(); S->n = n; r = run_once(); a = allocated(); if (r == 0 && a > b) { snprintf(S->failmsg, sizeof S->failmsg, "memory leaked on this path: %zu bytes", a - b); _exit(1); } }
		_exit(r == 2 ? 1 : 0);
	}
	int st; waitpid(p, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return false;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 1) snprintf(out, outn, "%s", d->failmsg);
	else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(out, outn, "does not terminate (%d s)", secs);
	else if (WIFSIGNALED(st)) snprintf(out, outn, "process killed by signal %d (abort/crash)", WTERMSIG(st));
	else snprintf(out, outn, "process died with status %d (sanitizer report or crash)", WEXITSTATUS(st));
	memcpy(src->note, d->note, NOTE); snprintf(src->failmsg, sizeof src->failmsg, "%s", out);
	return true;
}

int main(int argc, char** argv) {
	g_argc = argc; g_argv = argv;
	const char* replay = nullptr; const char* out = nullptr; const char* rdir = "."; const char* tag = "path"; int hang = 20;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--replay-dir")) rdir = argv[++i];
		else if (!strcmp(argv[i], "--tag")) tag = argv[++i];
		else if (!strcmp(argv[i], "--shards")) g_nshards = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--limit")) g_limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--hang")) hang = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) g_thorough = true;
	}
	if (g_nshards > MAXSHARD - 1) g_nshards = MAXSHARD - 1;
	shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED) { perror("mmap"); return 2; }
	g_start = now();
	signal(SIGPIPE, SIG_DFL);
	if (replay) {
		FILE* f = fopen(replay, "r"); if (!f) { perror(replay); return 2; }
		ShardSlot* d = &shm->s[0]; int v; while (fscanf(f, "%d", &v) == 1) d->c[d->n++] = v; fclose(f);
		char msg[2048] = ""; bool bad = confirm(d, d->n, 60, msg, sizeof msg);
		printf("%s\n%s\n", bad ? msg : "path passes", d->note);
		return bad ? 1 : 0;
	}
	pid_t pid[MAXSHARD]; uint64_t hb[MAXSHARD] = {0}; double hbt[MAXSHARD];
	for (int i = 0; i < g_nshards; i++) {
		pid[i] = fork(); hbt[i] = now();
		if (!pid[i]) {
			g_shard = i; S = &shm->s[i];
			int e = open("/dev/null", O_WRONLY); if (!getenv("SEQMC_VERBOSE")) { dup2(e, 2); dup2(e, 1); }
			int r = explore(); S->done = 1; _exit(r);
		}
	}
	int alive = g_nshards; int failed = -1, err = 0; std::string ferr;
	while (alive && failed < 0 && !err) {
		int st; pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int i = 0; while (pid[i] != p) i++;
			pid[i] = 0; alive--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { err = 1; break; }
			failed = i;
		} else {
			usleep(20000); double t = now();
			for (int i = 0; i < g_nshards; i++) if (pid[i]) {
				uint64_t h = shm->s[i].heartbeat;
				if (h != hb[i]) { hb[i] = h; hbt[i] = t; }
				else if (t - hbt[i] > hang) { kill(pid[i], SIGKILL); }
			}
		}
	}
	for (int i = 0; i < g_nshards; i++) if (pid[i] > 0) { kill(pid[i], SIGKILL); waitpid(pid[i], nullptr, 0); }
	int rc = 0; char path[512] = ""; char msg[2048] = "";
	if (failed >= 0) {
		ShardSlot* s = &shm->s[failed];
		if (confirm(s, s->n, hang * 3, msg, sizeof msg)) {
			snprintf(path, sizeof path, "%s/%s.replay", rdir, tag); write_replay(path, s, s->n); rc = 1;
		} else { fprintf(stderr, "seqmc: failing path did not fail again on replay: %s\n", s->failmsg); rc = 2; }
	}
	if (err) rc = 2;
	uint64_t paths = 0, disc = 0, steps = 0, depth = 0; int capped = 0;
	for (int i = 0; i < g_nshards; i++) { auto& s = shm->s[i]; paths += s.paths; disc += s.discarded; steps += s.steps; if (s.maxdepth > depth) depth = s.maxdepth; capped |= s.capped; }
	FILE* o = out ? fopen(out, "w") : stdout;
	fprintf(o, "{\"tag\":\"%s\",\"rc\":%d,\"paths\":%llu,\"discarded\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_set_overflow\":%llu,\"max_depth\":%llu,\"capped\":%s,\"wall_s\":%.2f,\"message\":", tag, rc,
		(unsigned long long)paths, (unsigned long long)disc, (unsigned long long)steps, (unsigned long long)shm->states.load(), (unsigned long long)shm->full.load(), (unsigned long long)depth, capped ? "true" : "false", now() - g_start);
	jstr(o, msg); fprintf(o, ",\"replay\":"); jstr(o, path);
	fprintf(o, ",\"note\":"); jstr(o, failed >= 0 ? shm->s[failed].note : "");
	fprintf(o, ",\"samples\":["); int k = 0;
	for (int i = 0; i < g_nshards && k < 4; i++) for (int j = 0; j < shm->s[i].nsample && k < 4; j++) { if (k++) fputc(',', o); jstr(o, shm->s[i].sample[j]); }
	fprintf(o, "]}\n"); if (out) fclose(o);
	return rc;
}
