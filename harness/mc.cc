#include "mc.h"
#include <cstdarg>
#include <ctime>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Shared *shm;
Ctx ctx;
static const Case *cur;            // in a child: the case being executed
static uint64_t tape_pos;
static bool in_child;

S fmt(const char *f, ...) {
	char b[65536];
	va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v);
	return b;
}
S hexs(uint64_t v) { return fmt("0x%llx", (unsigned long long)v); }
std::vector<S> split(const S &s, char d) {
	std::vector<S> r; size_t p = 0;
	while (true) { size_t q = s.find(d, p); if (q == S::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + 1; }
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
std::atomic<double> *t_viol; // when the first violation was found: the rest of the exploration only makes the report longer
bool out_of_time() { double v = t_viol ? t_viol->load() : 0, t = now(); return t - t_start > t_budget || (v && t - v > (getenv("MC_FAST") ? 1 : 60)); }

static S esc(const S &s) {
	S r;
	for (unsigned char c : s) {
		if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c;
	}
	return r;
}
S Case::show() const {
	S r;
	if (!infile && !in.empty()) r += "printf '" + esc(in.size() > 4000 ? in.substr(0, 4000) + "..." : in) + "' | ";
	r += "ecgen";
	for (auto &a : args) r += " " + a;
	if (infile) r += " --input=<(printf '" + esc(in.size() > 4000 ? in.substr(0, 4000) + "..." : in) + "')";
	if (outfile) r += " --output=FILE";
	r += fmt("  [rng seed %llu", (unsigned long long)seed);
	if (tape_on) { r += "; answers to random requests:"; for (auto t : tape) r += fmt(" %llu", (unsigned long long)t); }
	if (!fire.empty()) { r += "; timeout fires at timer point:"; for (auto t : fire) r += fmt(" %ld", t); }
	if (fopen_fail >= 0) r += fmt("; fopen #%d fails", fopen_fail);
	return r + "]";
}
S Case::json() const {
	S r = "{\"args\":[";
	for (size_t i = 0; i < args.size(); i++) r += (i ? ",\"" : "\"") + esc(args[i]) + "\"";
	r += "],\"" + S(infile ? "input_file" : "stdin") + "\":\"" + esc(in) + "\"";
	if (outfile) r += ",\"output_file_before\":\"" + esc(outpre) + "\"";
	r += fmt(",\"rng_seed\":%llu", (unsigned long long)seed);
	if (tape_on) { r += ",\"random_answers\":["; for (size_t i = 0; i < tape.size(); i++) r += fmt(i ? ",%llu" : "%llu", (unsigned long long)tape[i]); r += "]"; }
	if (!fire.empty()) { r += ",\"timeouts_at\":["; for (size_t i = 0; i < fire.size(); i++) r += fmt(i ? ",%ld" : "%ld", fire[i]); r += "]"; }
	if (fopen_fail >= 0) r += fmt(",\"fopen_fails\":%d", fopen_fail);
	return r + "}";
}
S Res::ending() const {
	if (hang) return "did not terminate";
	if (sig) return fmt("killed by signal %d", sig);
	return fmt("exit status %d", code) + (paribug() ? " after a PARI error" : "");
}

// ---------------- interposition: randomness ----------------
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static std::atomic<int> nseed;
static thread_local bool in_tape = false;
extern "C" __attribute__((weak)) long mc_seed_stream() { return -1; }
extern "C" __attribute__((weak)) void mc_child_start() {}
extern "C" __attribute__((weak)) FILE *mc_fopened(FILE *f, const char *) { return f; }
extern "C" __attribute__((weak)) int mc_fclosed(int r) { return r; }
extern "C" __attribute__((weak)) bool mc_own_stack() { return false; }
extern "C" void setrand(GEN s) {
	static void (*real)(GEN) = (void (*)(GEN))dlsym(RTLD_NEXT, "setrand");
	if (in_child) { shm->user[62] = typ(s) == t_INT && signe(s) ? (uint64_t)s[2] : 0; shm->user[63]++; }
	if (in_child && cur) {
		pari_sp av = avma;
		long tid = mc_seed_stream(); uint64_t k = tid < 0 ? nseed++ : (uint64_t)tid;
		real(utoi(mix(cur->seed * 1000003 + k) >> 2 | 1));
		avma = av;
		return;
	}
	real(s);
}
static bool take(char kind, uint64_t size, uint64_t &v) {
	if (!in_child || !cur || !cur->tape_on || size == 0) return false;
	uint64_t pos = tape_pos++;
	bool use = pos < cur->tape.size();
	if (use) v = cur->tape[pos] % size;
	if (shm->nreq < 4096) { shm->reqs[shm->nreq].kind = kind; shm->reqs[shm->nreq].size = size; shm->reqs[shm->nreq].got = use ? v : ~0ull; shm->nreq++; }
	return use;
}
static uint64_t itou_or0(GEN x) { if (signe(x) <= 0 || lgefint(x) > 3) return 0; uint64_t v = (uint64_t)x[2]; return v > (1ull << 40) ? 0 : v; }
static bool ell_small(GEN E, uint64_t &p, long &m) {
	if (typ(E) != t_VEC || lg(E) != 17) return false;
	if (ell_get_type(E) == t_ELL_Fp) { p = itou_or0(ellff_get_p(E)); m = 1; return p && p <= 4096; }
	return false;
}
extern "C" {
GEN __real_genrand(GEN);
GEN __wrap_genrand(GEN N) {
	if (!in_child || !cur || !cur->tape_on || !N) return __real_genrand(N);
	uint64_t v;
	pari_sp av = avma;
	switch (typ(N)) {
	case t_INT: if (take('g', itou_or0(N), v)) return utoi(v); break;
	case t_VEC: {
		if (lg(N) == 3 && typ(gel(N, 1)) == t_INT) {
			uint64_t sz = itou_or0(addiu(subii(gel(N, 2), gel(N, 1)), 1)); avma = av;
			if (take('v', sz, v)) return addiu(gel(N, 1), v);
			break;
		}
		uint64_t p; long m;
		if (ell_small(N, p, m)) {
			std::vector<std::pair<long, int>> pts;
			for (uint64_t x = 0; x < p; x++) { GEN y = ellordinate(N, utoi(x), 0); for (long i = 1; i < lg(y); i++) pts.push_back({(long)x, (int)i}); avma = av; }
			if (take('e', pts.size() + 1, v)) {
				if (v == pts.size()) return ellinf();
				GEN x = mkintmodu(pts[v].first, p), y = ellordinate(N, x, 0);
				return mkvec2(x, gel(y, pts[v].second));
			}
		}
		break;
	}
	case t_FFELT: {
		GEN pp = FF_p_i(N); long f = FF_f(N);
		uint64_t p = itou_or0(pp), q = 1; for (long i = 0; i < f && q; i++) { q *= p; if (q > (1ull << 40)) q = 0; }
		avma = av;
		if (take('f', q, v)) {
			GEN z = FF_zero(N), g = FF_gen(N), r = z; (void)g;
			std::vector<long> d; while (v) { d.push_back(v % p); v /= p; }
			for (long i = (long)d.size() - 1; i >= 0; i--) { r = gmul(r, g); r = gaddgs(r, d[i]); }
			return gerepilecopy(av, r);
		}
		break;
	}
	}
	return __real_genrand(N);
}
GEN __real_randomprime(GEN);
GEN __wrap_randomprime(GEN N) {
	if (in_child && cur && cur->tape_on && N && typ(N) == t_VEC && lg(N) == 3) {
		pari_sp av = avma;
		uint64_t w = itou_or0(addiu(subii(gel(N, 2), gel(N, 1)), 1)), lo = itou_or0(gel(N, 1)), v; avma = av;
		if (w && w <= (1 << 20) && lo) {
			uint64_t n = 0; for (ulong q = unextprime(lo); q < lo + w; q = unextprime(q + 1)) n++;
			if (take('p', n, v)) { ulong q = unextprime(lo); while (v--) q = unextprime(q + 1); return utoi(q); }
		}
	}
	return __real_randomprime(N);
}
long __real_random_bits(long);
long __wrap_random_bits(long k) {
	uint64_t v;
	if (k >= 0 && k < 40 && take('b', 1ull << k, v)) return (long)v;
	return __real_random_bits(k);
}
GEN __real_randomi(GEN);
GEN __wrap_randomi(GEN x) { uint64_t v; if (in_child && cur && cur->tape_on && take('g', itou_or0(x), v)) return utoi(v); return __real_randomi(x); }
GEN __real_ffrandom(GEN);
GEN __wrap_ffrandom(GEN x) { return __wrap_genrand(x); }
GEN __real_ellrandom(GEN);
GEN __wrap_ellrandom(GEN x) { return __wrap_genrand(x); }

// ---------------- interposition: PARI start-up, files, timers ----------------
void __real_pari_init(size_t, ulong);
void __wrap_pari_init(size_t a, ulong b) { if (!in_child) __real_pari_init(a, b); else { shm->user[60] = a; avma = pari_mainstack->top; if (mc_own_stack()) paristack_setsize(a, 0); } }
void __real_pari_init_opts(size_t, ulong, ulong);
void __wrap_pari_init_opts(size_t a, ulong b, ulong c) { if (!in_child) __real_pari_init_opts(a, b, c); else { shm->user[60] = a; avma = pari_mainstack->top; if (mc_own_stack()) paristack_setsize(a, 0); } }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
	if (in_child && cur) {
		long k = shm->fopens++;
		if (cur->fopen_fail == k) { errno = EMFILE; return NULL; }
	}
	return mc_fopened(__real_fopen(p, m), m);
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { int r = __real_fclose(f); return in_child && cur ? mc_fclosed(r) : r; }
int __real_timer_create(clockid_t, sigevent *, timer_t *);
int __real_timer_settime(timer_t, int, const itimerspec *, itimerspec *);
int __real_timer_delete(timer_t);
thread_local bool vt_armed = false; thread_local long vt_secs = 0;
int __wrap_timer_create(clockid_t c, sigevent *e, timer_t *t) {
	if (!in_child || !cur || !cur->vtimer) return __real_timer_create(c, e, t);
	shm->timers_made++; *t = (timer_t)(long)(shm->timers_made); vt_armed = false; return 0;
}
int __wrap_timer_settime(timer_t t, int f, const itimerspec *n, itimerspec *o) {
	if (!in_child || !cur || !cur->vtimer) return __real_timer_settime(t, f, n, o);
	vt_armed = n->it_value.tv_sec || n->it_value.tv_nsec; vt_secs = n->it_value.tv_sec; shm->user[61] = vt_secs; return 0;
}
int __wrap_timer_delete(timer_t t) {
	if (!in_child || !cur || !cur->vtimer) return __real_timer_delete(t);
	shm->timers_deleted++; vt_armed = false; return 0;
}
// every basic block of ecgen's code (when built with -fsanitize-coverage=trace-pc) and every
// interposed PARI call is a timer point while a timer is armed
thread_local bool tp_in = false;
void mc_timer_point() {
	if (!in_child || !cur || !cur->vtimer || !vt_armed || tp_in) return;
	long k = shm->timer_points++;
	for (long f : cur->fire) if (f == k) {
		vt_armed = false;
		shm->fired++;
		raise(SIGALRM);
	}
}
void __sanitizer_cov_trace_pc() { mc_timer_point(); }
#define PASS __attribute__((weak))
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
PASS int __wrap_pthread_create(pthread_t *a, const pthread_attr_t *b, void *(*c)(void *), void *d) { return __real_pthread_create(a, b, c, d); }
PASS int __wrap_pthread_join(pthread_t a, void **b) { return __real_pthread_join(a, b); }
PASS int __wrap_pthread_mutex_lock(pthread_mutex_t *a) { return __real_pthread_mutex_lock(a); }
PASS int __wrap_pthread_mutex_unlock(pthread_mutex_t *a) { return __real_pthread_mutex_unlock(a); }
PASS int __wrap_pthread_mutex_trylock(pthread_mutex_t *a) { return __real_pthread_mutex_trylock(a); }
PASS int __wrap_pthread_cond_wait(pthread_cond_t *a, pthread_mutex_t *b) { return __real_pthread_cond_wait(a, b); }
PASS int __wrap_pthread_cond_timedwait(pthread_cond_t *a, pthread_mutex_t *b, const timespec *c) { return __real_pthread_cond_timedwait(a, b, c); }
PASS int __wrap_pthread_cond_signal(pthread_cond_t *a) { return __real_pthread_cond_signal(a); }
PASS int __wrap_pthread_cond_broadcast(pthread_cond_t *a) { return __real_pthread_cond_broadcast(a); }
PASS int __wrap_pthread_mutex_init(pthread_mutex_t *a, const pthread_mutexattr_t *b) { return __real_pthread_mutex_init(a, b); }
PASS int __wrap_pthread_mutex_destroy(pthread_mutex_t *a) { return __real_pthread_mutex_destroy(a); }
PASS int __wrap_pthread_cond_init(pthread_cond_t *a, const pthread_condattr_t *b) { return __real_pthread_cond_init(a, b); }
PASS int __wrap_pthread_cond_destroy(pthread_cond_t *a) { return __real_pthread_cond_destroy(a); }
}

// ---------------- the fork server ----------------
static int mfd(const S &content) {
	int fd = memfd_create("mc", 0);
	if (fd < 0) { perror("memfd"); exit(2); }
	size_t o = 0;
	while (o < content.size()) { ssize_t w = write(fd, content.data() + o, content.size() - o); if (w <= 0) { perror("memfd write"); exit(2); } o += w; }
	lseek(fd, 0, SEEK_SET);
	return fd;
}
static S slurp(int fd) {
	S r; lseek(fd, 0, SEEK_SET);
	char b[65536]; ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	return r;
}
static Res spawn(const Case *c, const std::function<void()> *fn, double tmo) {
	Res R;
	int fi = mfd(c && !c->infile ? c->in : ""), fo = mfd(""), fe = mfd("");
	int ff = -1, fx = -1, fv = -1;
	if (c && c->infile) ff = mfd(c->in);
	if (c && c->outfile) fx = mfd(c->outpre);
	if (c && c->verbosefile) fv = mfd("");
	memset(shm, 0, offsetof(Shared, ubuf)); shm->ubuf[0] = 0;
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (!pid) {
		in_child = true; cur = c; tape_pos = 0; nseed = 0;
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef VARIANT_ASAN
		rl.rlim_cur = rl.rlim_max = 8ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
		rl.rlim_cur = rl.rlim_max = 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
		setpgid(0, 0);
		dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
		if (fn) { (*fn)(); fflush(NULL); _exit(0); }
		std::vector<S> a = {"ecgen"};
		for (auto &x : c->args) a.push_back(x);
		if (ff >= 0) a.push_back(fmt("--input=/proc/self/fd/%d", ff));
		if (fx >= 0) a.push_back(fmt("--output=/proc/self/fd/%d", fx));
		if (fv >= 0) a.push_back(fmt("--verbose=/proc/self/fd/%d", fv));
		std::vector<char *> av;
		for (auto &x : a) av.push_back(strdup(x.c_str()));
		av.push_back(NULL);
		mc_child_start();
		exit(ecgen_main((int)a.size(), av.data()));
	}
	setpgid(pid, pid);
	int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
	int st = 0;
	bool done = false;
	double end = now() + tmo;
	if (pfd >= 0) {
		struct pollfd p = {pfd, POLLIN, 0};
		while (!done) { double l = end - now(); if (l <= 0) break; int k = poll(&p, 1, (int)(l * 1000) + 1); if (k > 0) done = true; }
		close(pfd);
	} else {
		while (now() < end) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) { done = true; pid = -1; break; } usleep(500); }
	}
	if (!done) { R.hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
	if (pid > 0) waitpid(pid, &st, 0);
	R.exited = !R.hang && WIFEXITED(st);
	if (WIFEXITED(st)) R.code = WEXITSTATUS(st);
	if (!R.hang && WIFSIGNALED(st)) R.sig = WTERMSIG(st);
	R.out = slurp(fo); R.err = slurp(fe);
	if (fx >= 0) { R.file = slurp(fx); close(fx); }
	if (fv >= 0) { R.vfile = slurp(fv); close(fv); }
	if (ff >= 0) close(ff);
	close(fi); close(fo); close(fe);
	for (uint64_t i = 0; i < shm->nreq; i++) R.reqs.push_back(shm->reqs[i]);
	R.timer_points = shm->timer_points; R.timers_made = shm->timers_made; R.timers_deleted = shm->timers_deleted; R.fired = shm->fired; R.fopens = shm->fopens;
	return R;
}
Res run_case(const Case &c) {
	Res r = spawn(&c, nullptr, c.tmo);
	if (r.hang && !c.once && !getenv("MC_FAST") && !(t_viol && t_viol->load())) { ctx.count("reruns_of_slow_cases"); r = spawn(&c, nullptr, std::min(c.tmo * 4, 240.0)); }
	ctx.evaluations++;
	return r;
}
Res run_fn(const std::function<void()> &f, double tmo) {
	Res r = spawn(nullptr, &f, tmo);
	if (r.hang) r = spawn(nullptr, &f, tmo * 4);
	return r;
}

void ufail(const S &w) { if (!shm->ulen) { shm->ulen = std::min<size_t>(w.size(), sizeof shm->ubuf - 1); memcpy(shm->ubuf, w.data(), shm->ulen); shm->ubuf[shm->ulen] = 0; } shm->user[1]++; }
void ucount(uint64_t n) { shm->user[0] += n; }
S unit_run(const std::function<void()> &f, double tmo, uint64_t *n) {
	Res r = run_fn(f, tmo);
	if (n) *n = shm->user[0];
	ctx.evaluations += shm->user[0]; ctx.distinct += shm->user[0];
	if (shm->ulen) return S(shm->ubuf, shm->ulen);
	if (!r.exited || r.code) { S e = r.err; size_t q = e.find("ERROR:"); if (q == S::npos) q = e.find("runtime error"); if (q == S::npos) q = 0; return "the code under test ended with: " + r.ending() + " " + e.substr(q, 1200); }
	if (r.err.find("***") != S::npos) return "PARI error: " + r.err.substr(0, 800);
	return "";
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:symbolize=0"; }
