// --invalid with several threads: a controlled scheduler explores every interleaving of the
// synchronisation operations up to a preemption bound (with state caching on the happens-before
// history), a vector-clock monitor watches every memory access of ecgen's own code, and every
// execution is the real code.
#include "inv.h"
#include <semaphore.h>
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
const char *MOD_LEVEL = "model_checking";
const char *MOD_RULE = "states: distinct happens-before histories at scheduling decisions; transitions: scheduling decisions taken; traces_validated_against_impl: complete executions of the real program under a controlled schedule, each judged by the oracle (output, data races, deadlock, join)";
// ---------------- scheduler (in the child) ----------------
enum { MAXT = 6, RUN = 0, LOCK, WAIT, JOIN, DONE };
typedef uint32_t VC[MAXT];
struct VT { int st = RUN; void *obj = 0, *mtx = 0; int jt = -1; sem_t sem; VC c = {0}; uint64_t h = 0; bool spur = false; pthread_t real; void *(*f)(void *); void *arg; void *ret; bool joined = false; };
struct Mtx { int owner = -1; VC c = {0}; uint64_t h = 0; };
static VT vt[MAXT]; static int nvt; static thread_local int me = -1; static bool on;
static std::map<void *, Mtx> *mt;
static int consec, spurious_left, sigpts; static uint64_t since;
static std::vector<int> script; static size_t dpos; static bool use_spurious;
struct Dec { uint8_t n, free, spur; uint64_t h; };
static Dec *decs() { return (Dec *)shm->ubuf; }
enum { MAXD = 3000 };
static uint64_t mixh(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 32); }
static void die(const char *w) { snprintf(shm->ubuf + (1 << 20) - 4096, 4000, "%s", w); shm->user[7] = 1; _exit(97); }
static void join_vc(VC a, const VC b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static Mtx &M(void *p) { return (*mt)[p]; }
static bool enabled(int t) { VT &v = vt[t]; if (v.st == RUN) return true; if (v.st == LOCK) return M(v.obj).owner < 0; if (v.st == JOIN) return vt[v.jt].st == DONE; return false; }
// choose who runs next; the caller has set its own state
static void schedule() {
	int opt[MAXT * 2], n = 0; bool self = me >= 0 && vt[me].st != DONE && enabled(me);
	bool rot = self && consec >= 8;
	int first = -1;
	if (self && !rot) first = me; else for (int k = 1; k <= nvt; k++) { int t = (std::max(me, 0) + k) % nvt; if (enabled(t)) { first = t; break; } }
	if (first < 0) { // nobody can run: only a spurious wakeup could help, which a program must not rely on
		S w = "deadlock:"; for (int i = 0; i < nvt; i++) w += fmt(" thread %d %s;", i, vt[i].st == WAIT ? "waits for a condition" : vt[i].st == LOCK ? "waits for a mutex" : vt[i].st == JOIN ? "joins a thread that never ends" : vt[i].st == DONE ? "has ended" : "runs"); die(w.c_str());
	}
	opt[n++] = first;
	for (int t = 0; t < nvt; t++) if (t != first && enabled(t)) opt[n++] = t;
	int ns = n;
	if (use_spurious && spurious_left > 0) for (int t = 0; t < nvt; t++) if (vt[t].st == WAIT && M(vt[t].mtx).owner < 0) opt[n++] = t;
	int pick = 0;
	if (n > 1) {
		uint64_t h = mixh(consec * 16 + (me + 1), spurious_left); for (int i = 0; i < nvt; i++) h += mixh(vt[i].h * MAXT + i, vt[i].st);
		if (dpos < MAXD) { decs()[dpos].n = n; decs()[dpos].free = !self; decs()[dpos].spur = ns; decs()[dpos].h = h; }
		pick = dpos < script.size() ? script[dpos] % n : 0; dpos++; shm->user[8] = dpos;
		if (dpos > 60000) die("no progress: more than 60000 scheduling decisions under a fair schedule");
	}
	int to = opt[pick];
	if (pick >= ns) { spurious_left--; vt[to].st = LOCK; vt[to].obj = vt[to].mtx; }
	if (to == me) consec++; else consec = 0;
	if (to != me) { bool done = me >= 0 && vt[me].st == DONE; int my = me; sem_post(&vt[to].sem); if (!done && my >= 0) { while (sem_wait(&vt[my].sem)) {} } }
}
static void tick(int op, void *o) { vt[me].c[me]++; vt[me].h = mixh(vt[me].h, op); }
static void point(int op, void *o) { schedule(); tick(op, o); }
static void acquire(void *m) { while (M(m).owner >= 0) { vt[me].st = LOCK; vt[me].obj = m; schedule(); } vt[me].st = RUN; Mtx &x = M(m); x.owner = me; join_vc(vt[me].c, x.c); vt[me].h = mixh(vt[me].h, x.h); }
static void release(void *m) { Mtx &x = M(m); if (x.owner != me) die("a thread unlocked a mutex it does not hold"); memcpy(x.c, vt[me].c, sizeof(VC)); x.owner = -1; x.h = vt[me].h = mixh(vt[me].h, 77); vt[me].c[me]++; }
static void clear_range(uintptr_t a, uintptr_t b);
static void *tramp(void *p) {
	int id = (int)(long)p; while (sem_wait(&vt[id].sem)) {}
	me = id; pthread_attr_t at; if (!pthread_getattr_np(pthread_self(), &at)) { void *b; size_t n; pthread_attr_getstack(&at, &b, &n); clear_range((uintptr_t)b, (uintptr_t)b + n); pthread_attr_destroy(&at); }
	void *r = vt[id].f(vt[id].arg); tick(9, 0); vt[id].ret = r; vt[id].st = DONE; schedule(); return r;
}
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
long mc_seed_stream() { return me <= 0 ? -1 : 100 + me; }
static void fin() { if (!on) return; shm->user[9] = 0; for (int i = 1; i < nvt; i++) { if (vt[i].st != DONE) shm->user[9]++; } }
void mc_child_start() { on = true; me = 0; nvt = 1; mt = new std::map<void *, Mtx>; sem_init(&vt[0].sem, 0, 0); vt[0].c[0] = 1; consec = 0; spurious_left = 1; dpos = 0; atexit(fin); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) {
	if (!on || me < 0) return __real_pthread_create(t, a, f, d);
	if (nvt >= MAXT) die("too many threads");
	point(1, 0); int id = nvt++; VT &v = vt[id]; v.st = RUN; v.f = f; v.arg = d; sem_init(&v.sem, 0, 0); memcpy(v.c, vt[me].c, sizeof(VC)); v.c[id] = 1; v.h = mixh(id, vt[me].h); vt[me].c[me]++;
	int r = __real_pthread_create(&v.real, a, tramp, (void *)(long)id); *t = v.real; return r;
}
int __wrap_pthread_join(pthread_t t, void **r) {
	int id = -1; for (int i = 1; i < nvt; i++) if (pthread_equal(vt[i].real, t)) id = i;
	if (!on || id < 0) return __real_pthread_join(t, r);
	point(2, 0); while (vt[id].st != DONE) { vt[me].st = JOIN; vt[me].jt = id; schedule(); } vt[me].st = RUN;
	join_vc(vt[me].c, vt[id].c); vt[me].h = mixh(vt[me].h, vt[id].h); vt[id].joined = true; if (r) *r = vt[id].ret; return __real_pthread_join(t, NULL);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (M(m).owner == me) die("a thread locks a mutex it already holds"); point(3, m); acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { point(4, m); if (M(m).owner >= 0) return EBUSY; acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { tick(5, m); release(m); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { point(6, c); release(m); vt[me].st = WAIT; vt[me].obj = c; vt[me].mtx = m; schedule(); acquire(m); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) { point(6, c); release(m); schedule(); acquire(m); return ETIMEDOUT; }
static void wake(pthread_cond_t *c, bool all) {
	point(7, c); int w[MAXT], n = 0; for (int t = 0; t < nvt; t++) if (vt[t].st == WAIT && vt[t].obj == c) w[n++] = t;
	for (int i = 0; i < (all ? n : std::min(n, 1)); i++) { VT &v = vt[w[i]]; v.st = LOCK; v.obj = v.mtx; v.h = mixh(v.h, vt[me].h); join_vc(v.c, vt[me].c); }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { wake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { wake(c, true); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { M(m) = Mtx(); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (M(m).owner >= 0) die("a locked mutex was destroyed"); for (int t = 0; t < nvt; t++) if ((vt[t].st == LOCK && vt[t].obj == m) || (vt[t].st == WAIT && vt[t].mtx == m)) die("a mutex was destroyed while a thread waits for it"); mt->erase(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { for (int t = 0; t < nvt; t++) if (vt[t].st == WAIT && vt[t].obj == c) die("a condition variable was destroyed while a thread waits for it"); return 0; }
}
// ---------------- data races (in the child) ----------------
struct Cell { uintptr_t a; uint8_t wm, wt; uint32_t wc; uint8_t rm[MAXT]; uint32_t rc[MAXT]; void *wpc, *rpc[MAXT]; };
enum { CELLS = 1 << 18 };
static Cell *tab; static size_t used; static uint32_t ulist[CELLS];
static Cell *cell(uintptr_t a, bool make) {
	size_t i = ((((a >> 12) * 0x9e3779b97f4a7c15ull) >> 46) & ~511ul) | (a >> 3 & 511);
	for (size_t k = 0; k < CELLS; k++, i = (i + 1) & (CELLS - 1)) { if (tab[i].a == a) return &tab[i]; if (!tab[i].a) { if (!make || used > CELLS * 3 / 4) return nullptr; ulist[used++] = i; tab[i].a = a; return &tab[i]; } }
	return nullptr;
}
static void wipe(Cell &c) { uintptr_t a = c.a; memset(&c, 0, sizeof c); c.a = a; }
static void clear_range(uintptr_t a, uintptr_t b) { if (!tab) return; if (b - a > 65536) { for (size_t k = 0; k < used; k++) { Cell &c = tab[ulist[k]]; if (c.a >= a && c.a < b) wipe(c); } } else for (uintptr_t x = a & ~7ul; x < b; x += 8) { Cell *c = cell(x, false); if (c) wipe(*c); } }
static void race(uintptr_t a, void *p1, const char *k1, int t1, void *p2, const char *k2) {
	extern char __executable_start; die(fmt("data race: thread %d %s and thread %d %s the same memory without synchronisation (code at +0x%lx and +0x%lx of the checker binary)", t1, k1, me, k2, (long)((char *)p1 - &__executable_start), (long)((char *)p2 - &__executable_start)).c_str());
}
static void acc1(uintptr_t a, uint8_t mask, bool w, void *pc) {
	Cell *c = cell(a, true); if (!c) return; VC &v = vt[me].c;
	if ((c->wm & mask) && c->wt != me && c->wc > v[c->wt]) race(a, c->wpc, "writes", c->wt, pc, w ? "writes" : "reads");
	if (w) { for (int t = 0; t < nvt; t++) if (t != me && (c->rm[t] & mask) && c->rc[t] > v[t]) race(a, c->rpc[t], "reads", t, pc, "writes"); c->wm = c->wt == me && c->wc == v[me] ? c->wm | mask : mask; c->wt = me; c->wc = v[me]; c->wpc = pc; }
	else { c->rm[me] = c->rc[me] == v[me] ? c->rm[me] | mask : mask; c->rc[me] = v[me]; c->rpc[me] = pc; }
}
static uint64_t naccess;
static void acc(void *p, size_t n, bool w, void *pc) {
	if (!on || me < 0 || nvt < 2) return;
	shm->user[10]++; uintptr_t a = (uintptr_t)p, e = a + n;
	while (a < e) { uintptr_t b = a & ~7ul, f = std::min(e, b + 8); acc1(b, (uint8_t)(((1u << (f - a)) - 1) << (a - b)), w, pc); a = f; }
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, PC); } void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); } void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
// atomics: sequentially consistent, synchronising through the location
#define SYNC(p) do { if (on && me >= 0 && nvt > 1) { point(11, (void *)p); Mtx &x = M((char *)p); join_vc(vt[me].c, x.c); join_vc(x.c, vt[me].c); x.h = vt[me].h = mixh(vt[me].h, x.h); vt[me].c[me]++; } } while (0)
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { SYNC(p); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { SYNC(p); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { SYNC(p); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { SYNC(p); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { SYNC(p); T o = *p; *p = o - v; return o; } T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { SYNC(p); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { SYNC(p); T o = *p; *p = o & v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { SYNC(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { SYNC(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void __libc_free(void *);
void free(void *p) { if (p && tab && on && me >= 0 && nvt > 1) { size_t n = malloc_usable_size(p); clear_range((uintptr_t)p, (uintptr_t)p + n); } __libc_free(p); }
}
// ---------------- exploration (in the harness) ----------------
struct Item { InvCase ic; int threads; uint64_t seed; int bound; bool spur; S extra; };
static void explore(const Item &it) {
	std::unordered_map<uint64_t, int> seen;
	struct N { std::vector<int> s; int left; }; std::vector<N> st = {{{}, it.bound}};
	uint64_t runs = 0;
	while (!st.empty()) {
		if (out_of_time()) { ctx.count("items_cut_by_time"); break; }
		N nd = st.back(); st.pop_back();
		Case c; c.args = {it.ic.o.bin ? "--f2m" : "--fp", it.ic.range.empty() ? "--invalid" : "-i" + it.ic.range, fmt("--threads=%d", it.threads)};
		if (it.ic.unique) c.args.push_back("-u");
		c.args.push_back(fmt("%u", it.ic.bits)); c.in = cand_text(it.ic.o, false, '\n'); c.seed = it.seed; c.tmo = 30;
		script = nd.s; use_spurious = it.spur;
		memset(tab, 0, sizeof(Cell)); Res r = run_case(c); runs++;
		size_t D = std::min<size_t>(shm->user[8], MAXD); std::vector<Dec> d(decs(), decs() + D);
		ctx.count("traces_validated_against_impl"); ctx.count("transitions", shm->user[8]); ctx.count("memory_accesses_monitored", shm->user[10]);
		S e;
		if (shm->user[7]) e = shm->ubuf + (1 << 20) - 4096;
		else if (!r.ok()) e = "ended with " + r.ending();
		else if (shm->user[9]) e = fmt("%llu thread(s) still running when the program ended", (unsigned long long)shm->user[9]);
		else { e = inv_check(it.ic, r); ctx.distinct++; }
		if (!e.empty()) { S sc; for (int x : nd.s) sc += fmt(" %d", x); violation("thr " + c.show() + " schedule" + sc, cand_id(it.ic.o) + ", range " + it.ic.range + fmt(", %d threads: ", it.threads) + e, &c, &r, "schedule (choices at scheduling decisions):" + sc); return; }
		int left = nd.left;
		for (size_t i = nd.s.size(); i < D; i++) {
			auto f = seen.find(d[i].h); if (f != seen.end() && f->second >= left) { ctx.count("pruned_at_visited_state"); break; }
			seen[d[i].h] = left; if (f == seen.end()) ctx.count("states");
			for (int k = d[i].n - 1; k > 0; k--) { int cost = k >= d[i].spur ? 1 : d[i].free ? 0 : 1; if (cost > left) continue; N x; x.s = nd.s; x.s.resize(i, 0); x.s.push_back(k); x.left = left - cost; st.push_back(x); }
		}
		if (ctx.samples.size() < 1 && runs == 3) { S sc; for (int x : nd.s) sc += fmt(" %d", x); sample(c.show() + fmt(" under schedule%s: %zu decisions", sc.c_str(), D)); }
		if (runs >= (thorough ? 60000u : 4000u)) { ctx.count("items_cut_by_run_cap"); break; }
	}
	if (getenv("MC_DEBUG")) fprintf(stderr, "%s range %s unique %d threads %d seed %d bound %d: %llu runs, %zu states\n", cand_id(it.ic.o).c_str(), it.ic.range.c_str(), it.ic.unique, it.threads, (int)it.seed, it.bound, (unsigned long long)runs, seen.size());
}
void mod_run() {
	tab = (Cell *)mmap(0, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	std::vector<Item> v;
	auto add = [&](uint64_t p, uint64_t a, uint64_t b, const char *rg, int th, bool u, int bnd, uint64_t seed, bool spur) { Item it; it.ic.o.p = p; it.ic.o.a = a; it.ic.o.b = b; it.ic.bits = bits_of(p); it.ic.range = rg; it.ic.unique = u; it.threads = th; it.bound = bnd; it.seed = seed; it.spur = spur;
		auto f = inv_feasible(it.ic.o, u); for (auto q : inv_primes(rg)) if (!f.count(q)) return; if (cand_ec(it.ic.o).singular()) return; v.push_back(it); };
	int B = thorough ? 3 : 2;
	for (uint64_t s = 1; s <= (thorough ? 6 : 2); s++) for (int th : {2, 3}) for (bool u : {false, true}) {
		int b = th == 2 ? B : B - 1;
		add(7, 1, 1, "2-3", th, u, b, s, false); add(13, 2, 1, "2-7", th, u, b, s, s == 1); add(5, 1, 1, "2-3", th, u, b, s + 10, true); add(11, 3, 4, "3", th, u, b, s, true); add(31, 2, 5, "2-11", th, u, B - 1, s, false);
		if (thorough) { add(31, 1, 5, "2-13", th, u, 2, s, true); add(17, 1, 5, "5-7", th, u, b, s, false); add(7, 3, 1, "2-5", 4, u, 2, s, false); }
	}
	{ Item it; it.ic.o.bin = true; it.ic.o.m = 4; it.ic.o.e1 = 1; it.ic.o.a = 1; it.ic.o.b = 3; it.ic.bits = 4; it.ic.range = "2-3"; it.threads = 2; it.bound = B; it.seed = 3; it.spur = true; v.push_back(it); }
	std::reverse(v.begin(), v.end());
	parallel(v.size(), [&](uint64_t i) { explore(v[i]); });
	bound(fmt("%zu configurations (2..%d threads, prime sets of 1..%d primes), every schedule with at most %d (2 threads) or %d (more) preemptions or spurious wakeups, plus all choices at blocking operations, with happens-before state caching", v.size(), thorough ? 4 : 3, thorough ? 6 : 5, B, B - 1));
}
