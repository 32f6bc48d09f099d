// C22: every enabled log call yields exactly one whole line, whoever else logs, sets the file or the threshold.
// The real stdio works on a scratch directory; every stdio and directory call is a scheduling point.
#include <cy_core.h>
#include "mcrt_int.h"
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <vector>
#include <string>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace cyclone;
static char files_obj, con_obj;
static bool armed; static int excused[8]; static bool faults, foreign;
static int cur() { return mc::self() < 8 ? mc::self() : 7; }
using mcrt::Guard;
static const void* fobj(FILE* f) { return f == stdout || f == stderr ? &con_obj : &files_obj; }
#define PT(what, obj) do { if (armed && mcrt::on()) { mcrt::point(what, obj); Guard g_; mcrt::op(obj, 900); } } while (0)
extern "C" {
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); int __real_vfprintf(FILE*, const char*, va_list);
int __real_vsnprintf(char*, size_t, const char*, va_list); int __real_fputs(const char*, FILE*); size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fputc(int, FILE*); int __real_access(const char*, int); int __real_mkdir(const char*, mode_t); int __real_fflush(FILE*); int __real_gethostname(char*, size_t);
FILE* __wrap_fopen(const char* p, const char* m) {
	PT("fopen", &files_obj);
	if (armed && faults && mcrt::env_choose(2, "fopen fails")) { excused[cur()] = 1; errno = EMFILE; return nullptr; }
	Guard g; return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* f) { PT("fclose", fobj(f)); Guard g; return __real_fclose(f); }
int __wrap_fflush(FILE* f) { PT("fflush", fobj(f)); Guard g; return __real_fflush(f); }
int __wrap_vfprintf(FILE* f, const char* fmt, va_list a) { PT("fprintf", fobj(f)); Guard g; return __real_vfprintf(f, fmt, a); }
int __wrap_fprintf(FILE* f, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = __wrap_vfprintf(f, fmt, a); va_end(a); return r; }
int __wrap_vprintf(const char* fmt, va_list a) { return __wrap_vfprintf(stdout, fmt, a); }
int __wrap_printf(const char* fmt, ...) { va_list a; va_start(a, fmt); int r = __wrap_vfprintf(stdout, fmt, a); va_end(a); return r; }
int __wrap_fputs(const char* s, FILE* f) { PT("fputs", fobj(f)); Guard g; return __real_fputs(s, f); }
int __wrap_puts(const char* s) { PT("puts", &con_obj); Guard g; __real_fputs(s, stdout); return __real_fputc('\n', stdout); }
int __wrap_fputc(int c, FILE* f) { PT("fputc", fobj(f)); Guard g; return __real_fputc(c, f); }
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) { PT("fwrite", fobj(f)); Guard g; return __real_fwrite(p, s, n, f); }
int __wrap_vsnprintf(char* b, size_t n, const char* fmt, va_list a) {
	PT("vsnprintf", b ? (const void*)b : (const void*)&b); Guard g;
	int r = __real_vsnprintf(b, n, fmt, a);
	if (armed && b && n && r >= 0) mcrt::check_range(b, (size_t)r < n ? r + 1 : n, true, "vsnprintf");
	return r;
}
int __wrap_snprintf(char* b, size_t n, const char* fmt, ...) { va_list a; va_start(a, fmt); int r = __wrap_vsnprintf(b, n, fmt, a); va_end(a); return r; }
int __wrap_access(const char* p, int m) { PT("access", &files_obj); Guard g; return __real_access(p, m); }
int __wrap_mkdir(const char* p, mode_t m) {
	PT("mkdir", &files_obj);
	if (armed && foreign && mcrt::env_choose(2, "another process creates the directory first")) { Guard g; __real_mkdir(p, m); errno = EEXIST; return -1; }
	Guard g; return __real_mkdir(p, m);
}
static int hostlen = 5;
int __wrap_gethostname(char* b, size_t n) {      // glibc: an unterminated prefix and ENAMETOOLONG when it does not fit
	char h[65]; for (int i = 0; i < 64; i++) h[i] = 'a' + i % 26; h[hostlen] = 0;
	size_t l = hostlen + 1; memcpy(b, h, l < n ? l : n);
	if (l > n) { errno = ENAMETOOLONG; return -1; }
	return 0;
}
static int proclen = 3, procdir = 0;
static std::string procname() { std::string r; for (int i = 0; i < proclen; i++) r += 'A' + i % 26; return r; }
ssize_t __wrap_readlink(const char* p, char* b, size_t n) {     // never terminates its answer
	(void)p; std::string s = "/bin/" + std::string(procdir, 'd') + "/" + procname();
	size_t l = s.size() < n ? s.size() : n; memcpy(b, s.data(), l); return l;
}
}
// ------------------------------------------------------------------ reference
struct Call { int tid, level; std::string text, name; int64_t t0, t1; int b, e; };
struct Set { int b, e, what, val; };            // 0 threshold, 1 file
static std::vector<Call> calls; static std::vector<Set> sets;      // filled at the end
static Call tcalls[4][4]; static int ntc[4]; static Set tsets[4][4]; static int nts[4];      // slot 3: the main thread
static const char* tname[] = {"alpha", "b", ""};
static const int NK = 8;
static const int klevel[NK] = {L_INFO, L_TRACE, L_ERROR, L_DEBUG, L_WARN, L_FATAL, L_INFO, L_DEBUG};
static const int klen[NK]   = {4,      4,       5,       2047,    2048,   5000,    4097,   0};
static int64_t secs() { return time(nullptr); }
static std::string slurp(const char* p) { Guard g; std::string r; FILE* f = __real_fopen(p, "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); __real_fclose(f); return r; }
static void log_one(int tid, int kind, int seq) {
	Call c; c.tid = tid; c.level = klevel[kind]; c.name = tname[tid];
	char tag[16]; { Guard g; snprintf(tag, sizeof tag, "%c%d", 'm' + tid, seq); }
	std::string t = tag; int want = klen[kind];
	if (want == 0) t = ""; else if ((int)t.size() < want) t += std::string(want - t.size(), 'p' + tid);
	c.text = t; c.t0 = secs();
	c.b = mc::event(1, tid, kind);
	excused[cur()] = 0;
	if (kind % 2) disk_log((LOG_LEVEL)c.level, "%s", t.c_str());
	else { size_t k = t.size() / 2; std::string a = t.substr(0, k), b = t.substr(k); disk_log((LOG_LEVEL)c.level, "%s%s%.*s", a.c_str(), b.c_str(), 0, "zz"); }
	c.t1 = secs(); c.e = mc::event(2, tid, excused[cur()]); tcalls[tid][ntc[tid]++] = c;
}
static const char* fnames[2][2] = {{"logs/", "A.log"}, {"other", "B.log"}};
static const char* fpath[2] = {"logs/A.log", "other/B.log"};
static void do_set(int what, int val, int tid = 3) {
	Set s; s.what = what; s.val = val; s.b = mc::event(3, what, val);
	if (what == 0) set_log_threshold((LOG_LEVEL)val); else MC_CHECK(set_log_filename(fnames[val][0], fnames[val][1]), "set_log_filename refused");
	s.e = mc::event(4, what, val); tsets[tid][nts[tid]++] = s;
}
struct Job { int tid, n, kind[4]; int set, setval; };    // set: perform a setting change first (0 threshold, 1 file), -1 none
static Job job[3];
static void work(void* p) { Job* j = (Job*)p; if (j->set >= 0) do_set(j->set, j->setval, j->tid); for (int i = 0; i < j->n; i++) log_one(j->tid, j->kind[i], i); }
static const char LV[] = "TDIWEF";
// possible values of a setting during a call: those of settings not finished before the last one that finished before the call began, and begun before it ended
static bool possible(int what, const Call& c, int v, int init) {
	int last = -1;                                      // begin of the latest setting that finished before the call
	for (auto& s : sets) if (s.what == what && s.e < c.b && s.b > last) last = s.b;
	if (last < 0 && v == init) return true;
	for (auto& s : sets) if (s.what == what && s.val == v && s.b < c.e && !(s.e < last)) return true;
	return false;
}
static void rmtree(const char* d) { Guard g; DIR* D = opendir(d); if (!D) return; while (dirent* e = readdir(D)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string p = std::string(d) + "/" + e->d_name; if (unlink(p.c_str()) != 0) { rmtree(p.c_str()); rmdir(p.c_str()); } } closedir(D); }
struct Line { int where; std::string s; };
static std::vector<int> match(const std::string& text, const char* what, bool console_err, int file) {
	std::vector<int> order; (void)console_err; (void)file;
	size_t pos = 0;
	while (pos < text.size()) {
		size_t e = text.find('\n', pos);
		MC_CHECK(e != std::string::npos, "%s ends with an incomplete line: '%.80s'", what, text.c_str() + pos);
		std::string l = text.substr(pos, e - pos); pos = e + 1;
		int y, mo, d, h, mi, s, used = 0;
		MC_CHECK(l.size() >= 19 && sscanf(l.c_str(), "%4d_%2d_%2d-%2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &s, &used) == 6 && used == 19, "%s: not a log line: '%.80s'", what, l.c_str());
		int found = -1;
		for (size_t i = 0; i < calls.size(); i++) {
			const Call& c = calls[i];
			std::string want = std::string(" [") + LV[c.level] + "] [" + c.name + "] " + c.text;
			if (l.compare(19, std::string::npos, want) != 0) continue;
			bool dup = false; for (int o : order) dup |= o == (int)i;
			if (dup) continue;                          // a second empty message of the same thread is a different call
			found = i; break;
		}
		MC_CHECK(found >= 0, "%s contains a line that is no (or a repeated) message: '%.60s...' of %zu bytes", what, l.c_str() + 19, l.size());
		bool tm_ok = false;
		for (int64_t t = calls[found].t0; t <= calls[found].t1; t++) { time_t tt = t; struct tm tm; localtime_r(&tt, &tm); tm_ok |= tm.tm_year + 1900 == y && tm.tm_mon + 1 == mo && tm.tm_mday == d && tm.tm_hour == h && tm.tm_min == mi && tm.tm_sec == s; }
		MC_CHECK(tm_ok, "%s: the line of '%.20s' carries another time: %.19s", what, calls[found].text.c_str(), l.c_str());
		order.push_back(found);
	}
	return order;
}
void mc_setup() { auto& c = mc::config(); c.preemptions = mc::param("P", 2); c.env = mc::param("E", 1); c.total = mc::param("D", 2); c.horizon = 20000; }
void mc_body() {
	{ Guard g; char d[64]; snprintf(d, sizeof d, "w%d", (int)getppid()); mkdir(d, 0755); if (chdir(d)) _exit(3); rmtree("."); }
	setvbuf(stdout, nullptr, _IOFBF, 65536);
	int s1 = dup(1), s2 = dup(2); { Guard g; int o = ::open("out", O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644), e = ::open("err", O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644); dup2(o, 1); dup2(e, 2); }
	int part = mc::param("part", 0), nt = mc::param("thr", 2), n = mc::param("n", 1), kinds = mc::param("kinds", NK);
	faults = mc::param("faults", 0); foreign = mc::param("foreign", 0);
	bool own = true; int init_file = 0;
	static const int hl[] = {5, 31, 32, 63};
	if (part == 0) {            // threads that log, with or without settings made before
		int first = mc::choose(mc::param("first", 3));
		if (first == 2) { int k = mc::choose(8); hostlen = hl[k % 4]; static const int pl[] = {3, 31, 32, 200}; if (k >= 4) { proclen = pl[k - 4]; procdir = k == 7 ? 300 : k == 6 ? 100 : 0; } }
		for (int i = 0; i < nt; i++) { job[i].tid = i; job[i].n = n; job[i].set = -1; for (int k = 0; k < n; k++) job[i].kind[k] = mc::choose(k ? mc::param("kinds2", 2) : kinds); }
		if (first == 0) { do_set(1, 0); do_set(0, L_TRACE + mc::choose(mc::param("thrs", 1))); }
		else if (first == 1) { job[0].set = 1; job[0].setval = mc::choose(2); own = false; }   // one thread names the file while the other already logs
		else own = false;                                                                       // nobody does: default name
		init_file = -1;
	} else {                    // threads that log while another changes settings
		do_set(1, 0); do_set(0, L_DEBUG); init_file = 0;
		for (int i = 0; i < nt; i++) { job[i].tid = i; job[i].n = i ? n : 1; job[i].set = -1; for (int k = 0; k < job[i].n; k++) job[i].kind[k] = i == 0 ? 0 : mc::choose(kinds); }
		int w = mc::choose(4); job[0].set = w / 2; job[0].setval = w < 2 ? (w ? L_MAXIMUM_LEVEL : L_ERROR) : w - 2 ? 1 : 0;
	}
	armed = true;
	if (part == 2) { for (int i = 0; i < nt; i++) work(&job[i]); }
	else {
		thread_t t[3];
		for (int i = 0; i < nt; i++) t[i] = sys_api::thread_create([](void* p) { work(p); }, &job[i], tname[i]);
		for (int i = 0; i < nt; i++) sys_api::thread_join(t[i]);
	}
	armed = false; __real_fflush(stdout);
	{ Guard g; dup2(s1, 1); dup2(s2, 2); close(s1); close(s2); }
	for (int i = 0; i < 4; i++) { for (int k = 0; k < ntc[i]; k++) calls.push_back(tcalls[i][k]); for (int k = 0; k < nts[i]; k++) sets.push_back(tsets[i][k]); }
	std::string def = get_log_filename(); std::string defline;
	for (char ch : def) MC_CHECK(isalnum((unsigned char)ch) || strchr("./-_", ch), "the log file name contains the byte 0x%02x: '%s'", (unsigned char)ch, def.c_str());
	if (!own && def != fpath[0] && def != fpath[1]) {
		char h[65]; for (int i = 0; i < 64; i++) h[i] = 'a' + i % 26; h[hostlen] = 0;
		std::vector<std::string> fld(1); for (char ch : def.substr(def.rfind('/') + 1)) if (ch == '.') fld.push_back(""); else fld.back() += ch;
		MC_CHECK(def.compare(0, 7, "./logs/") == 0 && fld.size() == 5 && fld[4] == "log" && fld[3] == std::to_string(getpid()), "the default log file is named '%s'", def.c_str());
		MC_CHECK(fld[2].size() >= 5 && std::string(h).compare(0, fld[2].size(), fld[2]) == 0 && (fld[0].size() >= 3 || procdir == 300) && (procdir == 300 || procname().compare(0, fld[0].size(), fld[0]) == 0), "the default log file is named '%s' on host '%s'", def.c_str(), h);
	}
	std::string f[3] = {slurp(fpath[0]), slurp(fpath[1]), own || (def == fpath[0] || def == fpath[1]) ? std::string() : slurp(def.c_str())};
	if (!own && f[2].empty()) { Guard g; if (DIR* D = opendir("logs")) { while (dirent* e = readdir(D)) if (e->d_name[0] != '.' && strcmp(e->d_name, "A.log")) f[2] += slurp((std::string("logs/") + e->d_name).c_str()); closedir(D); } }
	std::string con[2] = {slurp("out"), slurp("err")};
	mc::note("files: %zu+%zu+%zu bytes, stdout %zu, stderr %zu; ", f[0].size(), f[1].size(), f[2].size(), con[0].size(), con[1].size());
	for (auto& c : calls) mc::note("call [%d,%d] thread %d level %c %zu bytes%s; ", c.b, c.e, c.tid, LV[c.level], c.text.size(), mc::event_at(c.e).b ? " (open failed)" : "");
	for (auto& s : sets) mc::note("set [%d,%d] %s %d; ", s.b, s.e, s.what ? "file" : "threshold", s.val);
	std::vector<int> of[3], oc[2]; static const char* fn[3] = {"log file A", "log file B", "default log file"};
	for (int i = 0; i < 3; i++) of[i] = match(f[i], fn[i], false, i);
	for (int i = 0; i < 2; i++) oc[i] = match(con[i], i ? "standard error" : "standard output", i, -1);
	uint64_t h = 7;
	for (size_t i = 0; i < calls.size(); i++) {
		const Call& c = calls[i]; int nf = 0, where = -1, nc = 0, cw = -1;
		for (int k = 0; k < 3; k++) for (int o : of[k]) if (o == (int)i) { nf++; where = k; }
		for (int k = 0; k < 2; k++) for (int o : oc[k]) if (o == (int)i) { nc++; cw = k; }
		bool can_on = false, can_off = false;
		for (int v = 0; v <= L_MAXIMUM_LEVEL; v++) if (possible(0, c, v, L_DEBUG)) (c.level >= v ? can_on : can_off) = true;
		int exc = (int)mc::event_at(c.e).b;
		MC_CHECK(nf + (!nf && (exc || can_off)) == 1, "message '%.20s' (%zu bytes, level %c) is %d times in the log file%s", c.text.c_str(), c.text.size(), LV[c.level], nf, can_on ? "" : ", although its level is disabled");
		MC_CHECK(!nf || can_on, "message '%.20s' was logged although its level is disabled", c.text.c_str());
		MC_CHECK(nc == nf, "message '%.20s' is %d times in the log file but %d times on the console", c.text.c_str(), nf, nc);
		if (nf) {
			MC_CHECK(cw == (c.level >= L_ERROR), "message '%.20s' of level %c went to standard %s", c.text.c_str(), LV[c.level], cw ? "error" : "output");
			bool ok = possible(1, c, where == 2 ? -1 : where, init_file);
			MC_CHECK(ok, "message '%.20s' was written to %s, which was not the current one", c.text.c_str(), fn[where]);
			h = mc::mix(h, where * 100 + i);
		}
	}
	auto ordered = [&](const std::vector<int>& v, const char* what) { for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) MC_CHECK(!(calls[v[b]].e < calls[v[a]].b) || calls[v[a]].text == calls[v[b]].text, "%s: '%.20s' stands before '%.20s', whose call ended before that of the former began", what, calls[v[a]].text.c_str(), calls[v[b]].text.c_str()); };
	for (int i = 0; i < 3; i++) ordered(of[i], fn[i]);
	for (int i = 0; i < 2; i++) ordered(oc[i], "console");
	mc::outcome(h);
}
