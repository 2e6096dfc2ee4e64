// Lost resources: every allocation, every output byte, every input byte and every thread start of a run is made to
// fail in turn. The run must end in an error, or do exactly what it does undisturbed.
#include "streams.h"
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
const char *MOD_LEVEL = "fault_enumeration";
const char *MOD_RULE = "executions of ecgen's main, each with one fault (an allocation, write, read, close or thread start that fails, or a PARI stack of a given size); distinct_nontrivial counts faults that took effect and after which the run ended in an error or as without it";
enum { NONE, ALLOC1, WLIMIT, WONCE, WSHUT, WRO, CLOSE, RERR, RSHORT, RDIR, THR, PSTACK };
static const char *KN[] = {"nothing fails", "allocation %ld fails", "no space left on the output after %ld bytes", "write %ld to the output fails once", "standard output is closed", "the output is not writable", "closing file %ld fails", "input can not be read from byte %ld on", "input arrives %ld bytes at a time", "standard input is a directory", "thread %ld can not be started", "PARI stack of %ld bytes"};
static const char *SHORT[] = {"", "allocations", "space for output", "single writes", "closed standard output", "unwritable output", "closes", "reads", "short reads", "directory for input", "threads", "PARI stack sizes"};
static int kind; static long at;
static std::atomic<bool> armed; static std::atomic<long> nalloc; static long nwrite, nclose, nthread; static bool fired;
static int errpipe[2] = {-1, -1};
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static bool lose() { if (!armed) return false; long k = nalloc++; shm->user[20] = k + 1; if (kind == ALLOC1 && k == at) { shm->user[21]++; errno = ENOMEM; return true; } return false; }
void *malloc(size_t n) { return lose() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return lose() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return n && lose() ? NULL : __libc_realloc(p, n); }
static ssize_t cw(void *c, const char *b, size_t n) { int fd = (int)(long)c; long k = nwrite++; shm->user[22] = nwrite; if (kind == WONCE && k == at) { shm->user[21]++; errno = EIO; return 0; } return write(fd, b, n); }
static ssize_t cr(void *c, char *b, size_t n) {
	int fd = (int)(long)c; if (kind == RSHORT) { shm->user[21]++; return read(fd, b, std::min(n, (size_t)at)); }
	off_t o = lseek(fd, 0, SEEK_CUR); if (o >= at) { shm->user[21]++; errno = EIO; return -1; } return read(fd, b, std::min(n, (size_t)(at - o)));
}
static FILE *cookie(int fd, const char *m) { cookie_io_functions_t f = {}; if (*m == 'r') f.read = cr; else f.write = cw; bool a = armed; armed = false; FILE *r = fopencookie((void *)(long)fd, m, f); if (r) r->_fileno = fd; armed = a; return r; }
FILE *mc_fopened(FILE *f, const char *m) {
	if (!f) return f; bool w = *m != 'r';
	if (!w && m[1] == 'b') return f;
	if (w && kind == WONCE || !w && (kind == RERR || kind == RSHORT)) return cookie(dup(fileno(f)), m); return f;
}
int mc_fclosed(int r) { if (kind == CLOSE && nclose++ == at) { shm->user[21]++; errno = EIO; return EOF; } return r; }
bool mc_own_stack() { return kind == PSTACK; }
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d) { if (kind == THR && (nthread++ == at || at < 0)) { shm->user[21]++; return EAGAIN; } return __real_pthread_create(a, b, c, d); }
void mc_child_start() {
	if (kind == NONE && !shm) return;
	fcntl(errpipe[1], F_SETPIPE_SZ, 1 << 20); dup2(errpipe[1], 2);
	if (kind == WLIMIT) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)at, (rlim_t)at}; setrlimit(RLIMIT_FSIZE, &l); }
	if (kind == WONCE) stdout = cookie(1, "w");
	if (kind == RERR || kind == RSHORT) stdin = cookie(0, "r");
	if (kind == WSHUT) close(1);
	if (kind == WRO) { close(1); open("/dev/full", O_WRONLY); }
	if (kind == RDIR) { int d = open("/", O_RDONLY | O_DIRECTORY); dup2(d, 0); close(d); }
	nalloc = 0; armed = true;
}
}
static void drain(Res &r) { char b[65536]; ssize_t n; fcntl(errpipe[0], F_SETFL, O_NONBLOCK); while ((n = read(errpipe[0], b, sizeof b)) > 0) r.err.append(b, n); }
static Res run(Case c, int k, long a, uint64_t *u = nullptr) {
	static pid_t own; if (own != getpid()) { own = getpid(); pipe(errpipe); fcntl(errpipe[1], F_SETFL, O_NONBLOCK); }
	kind = k; at = a; Res r = run_case(c); kind = NONE; drain(r); if (u) memcpy(u, shm->user, sizeof shm->user); return r;
}
struct J { Case c; S name; };
// a run that ends in an error may have closed the array of what it printed
static bool pre(S a, const S &b) { if (a.size() >= 2 && b.compare(0, a.size(), a) && a.substr(a.size() - 2) == "]\n") a.resize(a.size() - 2); return b.compare(0, a.size(), a) == 0; }
static void one(const J &j, const Res &b, int k, long a) {
	uint64_t u[64]; Case c = j.c; if (k == PSTACK) c.args.insert(c.args.begin(), fmt("--memory=%ld", a));
	Res r = run(c, k, a, u); S e, how = fmt(KN[k], a);
	bool took = u[21] || k == PSTACK || k == WLIMIT || k == WSHUT || k == WRO || k == RDIR;
	const S &o = c.outfile ? r.file : r.out, &bo = c.outfile ? b.file : b.out;
	if (r.hang) e = "the run does not end"; else if (r.sig) e = fmt("the run is killed by signal %d", r.sig); else if (r.err.find("bug in PARI") != S::npos || r.err.find("egmentation") != S::npos) e = "the run crashes (PARI catches the signal)";
	else if (r.code == 0) { if (o != bo && !(c.outfile && k == ALLOC1 && c.outpre + r.out == bo)) // (opening the file failed: standard output takes its place)
		 e = "the run reports success, but its output is not that of the undisturbed run"; }
	else if (k == RSHORT) e = "the run fails";
	else if (k != WONCE && !pre(o, bo)) e = "what is printed before the error is not the beginning of the output of the undisturbed run"; else if (r.err.empty()) e = "the run fails without a message";
	if (!e.empty()) { violation(fmt("%d ", k) + j.name + " " + how, how + ": " + e, &c, &r, "--- undisturbed output\n" + bo.substr(0, 2000)); return; }
	if (took) { ctx.distinct++; ctx.count(S(SHORT[k]) + (r.code ? ", ended in an error" : ", result as without the fault")); }
}
void mod_run() {
	std::vector<J> js; auto add = [&](S n, std::vector<S> a, S in = "", bool file = false, bool of = false) { J j; j.name = n; j.c.args = a; j.c.in = in; j.c.infile = file; j.c.outfile = of; j.c.seed = 5; j.c.tmo = 20; js.push_back(j); };
	const S s1 = "00112233445566778899aabbccddeeff00112233";
	add("input", {"--fp", "5"}, "31\n8\n9\n"); add("input file, output file", {"--fp", "-c2", "5"}, "31,8,9,29,9,4", true, true); add("random, metadata, all points", {"--fp", "-r", "--metadata", "--points=all", "-c2", "8"}); add("binary", {"--f2m", "5"}, "5\n2\n0\n0\n3\n7\n"); add("binary random, cofactor", {"--f2m", "-r", "-k2", "6"}, "", false, true);
	add("ansi, seed asked for", {"--fp", "--ansi", "-rfield", "10"}, s1 + "\n"); add("ansi given", {"--fp", "--ansi=" + s1, "-r", "10"}); add("brainpool", {"--fp", "--brainpool", "12"}, s1 + "\n"); add("brainpool-rfc random", {"--fp", "--brainpool-rfc", "-r", "12"}); add("nums", {"--fp", "--nums", "10"});
	add("appended, verbose file", {"--fp", "--append", "5"}, "29\n9\n4\n", false, true); js.back().c.outpre = "[\n]\n"; js.back().c.verbosefile = true; add("order", {"--fp", "--order=2,7,7", "9"}); add("order prime", {"--fp", "--order=101", "9"}); add("anomalous", {"--fp", "--anomalous", "-r", "12"}); add("supersingular", {"--fp", "--supersingular", "6"}, "59\n"); add("family", {"--fp", "--family=BN", "4"}, "1\n"); add("family random", {"--fp", "--family=BLS12", "-r", "9"});
	add("koblitz", {"--f2m", "-K1", "-r", "7"}); add("twist, hex-check", {"--fp", "--twist", "-r", "--hex-check=1", "8"}); add("cofactor, unique", {"--fp", "-r", "-k2", "-u", "8"}); add("smooth, verbose", {"--fp", "-r", "-B5", "-v", "8"}); add("invalid", {"--fp", "--invalid=2-5", "-r", "8"}); add("invalid, output file", {"--f2m", "--invalid=3-5", "-r", "6"}, "", false, true); add("timeout", {"--fp", "-r", "--timeout=1h", "--points=3random", "9"}); J th; th.name = "invalid, threads"; th.c.args = {"--fp", "--invalid=2-5", "--threads=2", "5"}; th.c.in = "31\n8\n9\n"; th.c.tmo = 20;
	struct It { size_t j; int k; long a; }; std::vector<It> it; std::vector<Res> base(js.size());
	for (size_t i = 0; i < js.size(); i++) {
		uint64_t u[64]; Res &b = base[i] = run(js[i].c, NONE, 0, u); const S &o = js[i].c.outfile ? b.file : b.out; if (!b.ok() || o.size() < 20) { violation("base " + js[i].name, "the undisturbed run fails: " + b.ending(), &js[i].c, &b); continue; }
		long na = u[20]; note("allocations of: " + js[i].name, fmt("%ld", na)); long step = thorough || na < 4000 ? 1 : na / 4000 + 1;
		for (long a = 0; a < na; a += a < 3000 ? 1 : step) { it.push_back({i, ALLOC1, a}); }
		for (long a = 0; a <= (long)o.size(); a += thorough || a < 60 || a + 60 > (long)o.size() ? 1 : 7) it.push_back({i, WLIMIT, a});
		Res w = run(js[i].c, WONCE, -1, u); if (w.code || (js[i].c.outfile ? w.file : w.out) != o) violation("stream " + js[i].name, "the output changes with the output stream", &js[i].c, &w); for (long a = 0; a < (long)u[22]; a++) it.push_back({i, WONCE, a});
		if (!js[i].c.outfile) { it.push_back({i, WSHUT, 0}); it.push_back({i, WRO, 0}); }
		for (long a = 0; a < 2; a++) if (js[i].c.outfile) it.push_back({i, CLOSE, a});
		if (!js[i].c.in.empty()) { for (long a = 0; a <= (long)js[i].c.in.size(); a++) it.push_back({i, RERR, a}); for (long a = 1; a < 6; a++) it.push_back({i, RSHORT, a}); if (!js[i].c.infile) it.push_back({i, RDIR, 0}); }
		for (long a = 4096; a <= 64l << 20; a = thorough ? a + std::max(4096l, a / 64 / 4096 * 4096) : a * 5 / 4 / 4096 * 4096 + 4096) it.push_back({i, PSTACK, a});
	}
	parallel(it.size(), [&](uint64_t n) { if (!out_of_time()) one(js[it[n].j], base[it[n].j], it[n].k, it[n].a); }, 8);
	// threads: which curves are found depends on the schedule, so only the ending is judged
	for (long a = -1; a < 2; a++) { uint64_t u[64]; Res r = run(th.c, THR, a, u); if (!u[21]) violation("threads", "no thread was started", &th.c, &r); else if (r.hang || r.sig || (r.code && r.err.empty())) violation(fmt("thread %ld", a), fmt(KN[THR], a) + ": " + (r.hang ? "the run does not end" : r.sig ? "the run is killed" : "no message"), &th.c, &r); else { ctx.distinct++; ctx.count("threads not started"); } }
	bound(fmt("%zu faults over %zu runs of all methods: each allocation (%s), output space for every number of bytes%s, every single write, every input byte, every close, PARI stacks from 4 KB to 64 MB", it.size(), js.size(), thorough ? "every one" : "the first 3000 and a dense part of the others where there are more", thorough ? "" : " (in the middle every seventh)"));
	sample(js[1].c.show());
}
