// --timeout: the timer expires at every possible point of a run, alone and in pairs.
#include "inv.h"
#include "ansi_ref.h"
#include "bp_ref.h"
const char *MOD_LEVEL = "fault_enumeration";
const char *MOD_RULE = "one execution of ecgen's main per (method and option set, point or pair of points at which the timer expires); a point is every basic block of ecgen's code executed while a timer is armed; distinct_nontrivial counts executions with at least one expiry whose whole output was judged";
// ---------------- threads run one at a time, switched round robin ----------------
#include <semaphore.h>
#include <pthread.h>
enum { MAXT = 6, RUN = 0, LOCK, WAIT, JOIN, DONE };
static struct VT { int st = RUN; void *obj = 0, *mtx = 0; int jt = -1; sem_t sem; pthread_t real; void *(*f)(void *); void *arg, *ret; } vt[MAXT];
static int nvt; static thread_local int me = -1; static bool on; static std::map<void *, int> *own; static int consec;
static bool held(void *m) { return own->count(m); }
static bool enabled(int t) { VT &v = vt[t]; return v.st == RUN || (v.st == LOCK && !held(v.obj)) || (v.st == JOIN && vt[v.jt].st == DONE); }
static void schedule(bool yield) {
	int to = -1; if (!yield && vt[me].st != DONE && enabled(me)) to = me; else for (int k = 1; k <= nvt && to < 0; k++) if (enabled((me + k) % nvt)) to = (me + k) % nvt;
	if (to < 0) _exit(97);
	if (to != me) { bool done = vt[me].st == DONE; int my = me; sem_post(&vt[to].sem); if (!done) while (sem_wait(&vt[my].sem)) {} }
}
static void acquire(void *m) { while (held(m)) { vt[me].st = LOCK; vt[me].obj = m; schedule(false); } vt[me].st = RUN; (*own)[m] = me; }
static void *tramp(void *p) { int id = (int)(long)p; while (sem_wait(&vt[id].sem)) {} me = id; vt[id].ret = vt[id].f(vt[id].arg); vt[id].st = DONE; schedule(true); return vt[id].ret; }
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
long mc_seed_stream() { return me <= 0 ? -1 : 100 + me; }
void mc_child_start() { on = true; me = 0; nvt = 1; own = new std::map<void *, int>; sem_init(&vt[0].sem, 0, 0); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) {
	if (!on || me < 0 || nvt >= MAXT) return __real_pthread_create(t, a, f, d);
	int id = nvt++; VT &v = vt[id]; v.st = RUN; v.f = f; v.arg = d; sem_init(&v.sem, 0, 0); int r = __real_pthread_create(&v.real, a, tramp, (void *)(long)id); *t = v.real; return r;
}
int __wrap_pthread_join(pthread_t t, void **r) { int id = -1; for (int i = 1; i < nvt; i++) if (pthread_equal(vt[i].real, t)) id = i; if (!on || id < 0) return __real_pthread_join(t, r); while (vt[id].st != DONE) { vt[me].st = JOIN; vt[me].jt = id; schedule(false); } vt[me].st = RUN; if (r) *r = vt[id].ret; return __real_pthread_join(t, NULL); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { schedule(true); acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (held(m)) return EBUSY; acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { own->erase(m); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { own->erase(m); vt[me].st = WAIT; vt[me].obj = c; vt[me].mtx = m; schedule(false); acquire(m); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *m, const timespec *) { own->erase(m); schedule(true); acquire(m); return ETIMEDOUT; }
static void wake(pthread_cond_t *c, bool all) { for (int t = 0; t < nvt; t++) if (vt[t].st == WAIT && vt[t].obj == c) { vt[t].st = LOCK; vt[t].obj = vt[t].mtx; if (!all) return; } }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { wake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { wake(c, true); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
}
struct B { S name; std::vector<S> args; S in; int n = 1; std::function<S(const Case &, const Res &, size_t)> judge; bool pairs = false, threads = false; };
static std::vector<B> bs;
static void interactive(const std::vector<Cand> &in, Opts o, unsigned bits, bool pairs = false) {
	B b; bool bin = in[0].bin; std::vector<Cand> want; std::vector<Cand> use;
	for (auto c : in) { bool dc, a = acceptable(c, o, dc); if (dc) continue; use.push_back(c); if (o.koblitz >= 0) { c.a = o.koblitz; c.b = 1; } if (a) want.push_back(c); }
	int spare = pairs ? 2 : 1; if ((int)want.size() < spare + 1) return; b.n = want.size() - spare;
	b.args = {bin ? "--f2m" : "--fp"}; for (auto &x : o.args()) b.args.push_back(x); b.args.push_back("--timeout=1"); b.args.push_back(fmt("-c%d", b.n)); b.args.push_back(fmt("%u", bits));
	for (auto &c : use) b.in += cand_text(c, o.koblitz >= 0, '\n');
	b.pairs = pairs; Expect x; x.bin = bin; x.bits = bits; x.what = W_ALL; o.expect(x);
	b.judge = [want, x, o](const Case &c, const Res &r, size_t fired) -> S {
		std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e;
		size_t w = 0, skipped = 0;
		for (size_t i = 0; i < rec.size(); i++) {
			e = check_record(rec[i], x); if (!e.empty()) return curve_id(rec[i]) + ": " + e;
			if (o.twist) continue;
			EC G; if (!small_curve(rec[i], G, e)) return e;
			while (w < want.size()) { EC W = cand_ec(want[w]); w++; if (W.f->q == G.f->q && W.f->poly == G.f->poly && W.a == G.a && W.b == G.b) goto found; skipped++; }
			return fmt("record %zu, ", i + 1) + curve_id(rec[i]) + ", is not a later acceptable input curve";
			found:;
		}
		if (skipped > fired) return fmt("%zu acceptable input curves were dropped, the timer expired %zu times", skipped, fired);
		return "";
	};
	bs.push_back(b);
}
static B &method(std::vector<S> args, S in, int n, unsigned bits, unsigned what, std::function<void(Expect &)> tw = nullptr, std::function<S(const PC &)> more = nullptr) {
	B b; b.args = args; b.args.push_back("--timeout=2m"); b.args.push_back(fmt("-c%d", n)); b.args.push_back(fmt("%u", bits)); b.in = in; b.n = n;
	Expect x; x.bin = args[0] == "--f2m"; x.bits = bits; x.what = what; x.pts = PTS_ANY; if (tw) tw(x);
	b.judge = [x, more](const Case &, const Res &r, size_t) -> S {
		std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e;
		for (auto &c : rec) { if (x.bits) e = check_record(c, x); if (e.empty() && more) e = more(c); if (!e.empty()) return curve_id(c) + ": " + e; }
		return "";
	};
	bs.push_back(b); return bs.back();
}
static void build() {
	auto C = [](uint64_t p, uint64_t a, uint64_t b) { Cand c; c.p = p; c.a = a; c.b = b; return c; };
	auto D = [](int m, int e1, int e2, int e3, uint64_t a, uint64_t b) { Cand c; c.bin = true; c.m = m; c.e1 = e1; c.e2 = e2; c.e3 = e3; c.a = a; c.b = b; return c; };
	// coefficients are composite (or no field degree): after an expiry the next prime (degree) read is that of the next curve
	std::vector<Cand> fp = {C(31, 8, 9), C(29, 9, 4), C(31, 0, 1), C(13, 0, 0), C(23, 6, 10), C(31, 4, 14), C(17, 12, 0), C(29, 1, 6), C(19, 8, 6), C(31, 21, 25), C(23, 15, 9)}, f2 = {D(5, 2, 0, 0, 3, 7), D(5, 3, 0, 0, 1, 9), D(5, 4, 3, 1, 8, 0), D(5, 4, 3, 2, 14, 6), D(5, 2, 0, 0, 0, 11), D(5, 3, 0, 0, 12, 21)};
	std::vector<std::function<void(Opts &)>> f = {[](Opts &x) {}, [](Opts &x) { x.pts = PTS_ALL; }, [](Opts &x) { x.pts = PTS_NONPRIME; x.meta = true; }, [](Opts &x) { x.pts = PTS_RANDOM; x.npts = 4; }, [](Opts &x) { x.pts = PTS_RANDOM; }, [](Opts &x) { x.unique = true; x.pts = PTS_NONE; }, [](Opts &x) { x.twist = true; }, [](Opts &x) { x.twist = true; x.unique = true; x.meta = true; }, [](Opts &x) { x.cofactor = 2; }, [](Opts &x) { x.cofactor = 4; x.pts = PTS_ALL; }, [](Opts &x) { x.cofactor = 3; x.unique = true; }, [](Opts &x) { x.smooth = 3; }, [](Opts &x) { x.prime = true; }, [](Opts &x) { x.koblitz = 0; }, [](Opts &x) { x.koblitz = 1; x.pts = PTS_ALL; }};
	if (!thorough) { fp.resize(7); f2.resize(4); }
	for (auto &g : f) { Opts o; g(o); interactive(fp, o, 5); interactive(f2, o, 5); }
	std::vector<Cand> many; for (uint64_t a = 0; a < 31; a++) for (uint64_t k = 0; k < 3; k++) { uint64_t b = (a * 7 + k * 11 + 1) % 31; if (is_prime64(a) || is_prime64(b)) continue; many.push_back(C(31, a, b)); }
	for (int k : {2, 4, 6, 9}) { Opts o; o.cofactor = k; o.pts = PTS_NONE; std::vector<Cand> s(many.begin(), many.begin() + (thorough ? 40 : 16)); interactive(s, o, 5); } { Opts o; o.prime = true; interactive(std::vector<Cand>(many.begin(), many.begin() + (thorough ? 40 : 16)), o, 5); }
	{ Opts o; interactive({fp[0], fp[2], fp[1]}, o, 5, true); interactive({f2[0], f2[1], f2[2], f2[3]}, o, 5, true); o.pts = PTS_ALL; o.meta = true; if (thorough) interactive({fp[0], fp[2], fp[1]}, o, 5, true); o = Opts(); o.unique = true; o.pts = PTS_NONE; interactive({fp[0], fp[1], fp[4], fp[2], fp[8]}, o, 5, true); if (thorough) { o = Opts(); o.pts = PTS_RANDOM; o.npts = 4; interactive({fp[0], fp[2], fp[1], fp[4]}, o, 5, true); o = Opts(); o.cofactor = 4; interactive(std::vector<Cand>(many.begin(), many.begin() + 12), o, 5, true); o = Opts(); o.twist = true; interactive({fp[0], fp[2], fp[1], fp[4]}, o, 5, true); o = Opts(); o.koblitz = 1; interactive({fp[0], fp[1], fp[4], fp[6]}, o, 5, true); } }
	const unsigned CG = W_CURVE | W_GENS, CGP = CG | W_PTS;
	auto ex = [](Expect &x) { x.field_bits_exact = true; }; auto exp = [](Expect &x) { x.field_bits_exact = true; x.pts = PTS_PRIME; };
	method({"--fp", "-r"}, "", 2, 6, CGP, exp); method({"--f2m", "-r"}, "", 2, 6, CGP, exp); method({"--fp", "-r", "-p"}, "", 1, 6, CGP | W_OPTS, [](Expect &x) { x.field_bits_exact = true; x.pts = PTS_PRIME; x.prime = true; }); method({"--fp", "-rfield"}, "8\n9\n4\n6\n9\n10\n12\n14\n", 2, 5, CGP, exp);
	method({"--fp", "-requation"}, "31\n29\n23\n31\n29\n23\n31\n29\n", 2, 5, CGP, [](Expect &x) { x.pts = PTS_PRIME; }); method({"--fp", "-r", "--hex-check=1"}, "", 2, 6, CGP, exp);
	method({"--fp", "--supersingular"}, "11\n23\n17\n", 2, 5, CG); method({"--fp", "--supersingular", "-r"}, "", 2, 6, CG, ex); method({"--fp", "--anomalous", "-r"}, "", 2, 16, CG, ex, [](const PC &c) { return c.order == c.p ? S() : S("the order is not the field size"); });
	for (S o : {"61", "101", "60", "2,3,7"}) { S want = o == "2,3,7" ? "42" : o; method({"--fp", "--order=" + o}, "", 2, 8, CG, [](Expect &x) { x.single_gen_ok = false; }, [want](const PC &c) { uint64_t v; return hex2u(c.order, v) && v == strtoull(want.c_str(), 0, 10) ? S() : S("not the requested order"); }); }
	S seed = "00112233445566778899aabbccddeeff00112233", seed2 = "5b1f6c7a0e2d4839aa5566778899001122334455";
	auto seeded = [](Expect &x) { x.seed = true; x.field_bits_exact = true; };
	auto ansi = [](unsigned t, bool bin, S given) { return [t, bin, given](const PC &c) -> S { S h = c.seed.substr(0, 2) == "0x" ? c.seed.substr(2) : ""; if (h.size() < 40 || (!given.empty() && h != given)) return "wrong seed " + c.seed; pari_sp av = avma; S e = judge(h, t, bin, ref_r(h, t, bin), bin ? gen_2 : hex2gen(c.p), hex2gen(c.a), hex2gen(c.b)); avma = av; return e; }; };
	method({"--fp", "--ansi", "-r"}, "", 2, 12, CG, seeded, ansi(12, false, "")); method({"--f2m", "--ansi", "-r"}, "", 2, 9, CG, seeded, ansi(9, true, "")); method({"--fp", "--ansi=" + seed, "-r"}, "", 1, 12, CG, seeded, ansi(12, false, seed));
	// the seed prompt takes any text: give seeds only
	method({"--fp", "--ansi", "-rfield"}, seed + "\n" + seed2 + "\n" + seed + "\n", 1, 12, CG, seeded, ansi(12, false, ""));
	auto bp = [](S s, long L, bool rfc) { return [=](const PC &c) -> S { pari_sp av = avma; Ref R = reference(s, L, rfc, 20000); S e = R.none ? S("no reference") : compare(c, R, nullptr); avma = av; return e; }; };
	for (int rfc = 0; rfc < 2; rfc++) { S o = rfc ? "--brainpool-rfc" : "--brainpool"; method({"--fp", o + "=" + seed2}, "", 1, 12, CG, seeded, bp(seed2, 12, rfc)); method({"--fp", o, "-r"}, "", 1, 12, CG, seeded); }
	method({"--fp", "--nums"}, "", 1, 10, CG, ex); method({"--fp", "--family=BN", "-r"}, "", 1, 10, CG, [](Expect &x) { x.bits = 0; }); method({"--fp", "--family=BN"}, "1\n-1\n2\n6\n1\n", 1, 10, CG, [](Expect &x) { x.bits = 0; });
	for (int t = 1; t < 3; t++) for (int u = 0; u < 2; u++) {
		InvCase ic; ic.o = C(31, 8, 9); ic.range = "2-5"; ic.bits = 5; ic.unique = u; B b; b.args = {"--fp", "--invalid=2-5", "--timeout=1h"}; if (t == 2) b.args.push_back("--threads=2"); if (u) b.args.push_back("-u"); b.args.push_back("5"); b.in = "31\n8\n9\n29\n8\n9\n"; b.n = 0; b.threads = t == 2;
		InvCase id = ic; id.o = C(29, 8, 9); // the original curve's own generation may be the one that times out
		b.judge = [ic, id](const Case &, const Res &r, size_t) -> S { S e = inv_check(ic, r), f; if (e.empty()) return e; f = inv_check(id, r); return f.empty() ? f : e; };
		bs.push_back(b);
	}
}
static Case mk(const B &b, const std::vector<long> &fire) { Case c; c.args = b.args; c.in = b.in; c.vtimer = true; c.fire = fire; c.tmo = 30; return c; }
static bool judge1(const B &b, size_t id, const Case &c, const Res &r) {
	S e;
	if (!r.ok()) e = "the run ended with: " + r.ending();
	else { if (b.n) { std::vector<PC> rec; e = parse_output(r.out, rec); if (e.empty() && (int)rec.size() != b.n) e = fmt("%zu curves printed, %d requested", rec.size(), b.n); } if (e.empty()) e = b.judge(c, r, r.fired); }
	if (e.empty() && r.timers_made != r.timers_deleted) e = fmt("%ld timers created, %ld deleted", r.timers_made, r.timers_deleted);
	if (e.empty() && r.timers_made == 0) e = "no timer was started although --timeout was given";
	if (!e.empty()) { S f; for (auto x : c.fire) f += fmt(" %ld", x); violation(fmt("%zu:", id) + b.args[1] + f, e, &c, &r); return false; }
	return true;
}
void mod_run() {
	build();
	if (getenv("MC_ONLY")) { size_t b; long k; sscanf(getenv("MC_ONLY"), "%zu %ld", &b, &k); for (int i = 0; i < 20; i++) { Case c = mk(bs[b], {k}); Res r = run_case(c); printf("%s\n", r.ending().c_str()); judge1(bs[b], b, c, r); } return; }
	// how many points does each configuration have?
	std::vector<long> T(bs.size());
	for (size_t i = 0; i < bs.size(); i++) { Case c = mk(bs[i], {}); Res r = run_case(c); judge1(bs[i], i, c, r); T[i] = r.timer_points; ctx.count("timer_points", T[i]); if (getenv("MC_DEBUG")) fprintf(stderr, "%zu %ld %s\n", i, T[i], c.show().substr(0, 100).c_str()); }
	struct W { size_t b; long lo, hi; }; std::vector<W> ws; const long cap = thorough ? 12000 : 1400;
	for (size_t i = 0; i < bs.size(); i++) for (long k = 0; k < std::min(T[i], cap); k += 50) ws.push_back({i, k, std::min(std::min(T[i], cap), k + 50)});
	parallel(ws.size(), [&](uint64_t q) {
		const W &w = ws[q];
		for (long k = w.lo; k < w.hi; k++) { if (out_of_time()) return; Case c = mk(bs[w.b], {k}); Res r = run_case(c); if (!judge1(bs[w.b], w.b, c, r)) return; if (r.fired) { ctx.distinct++; ctx.count("single_expiries"); } else ctx.count("expiry_point_not_reached"); }
	});
	bound(fmt("%zu methods and option sets: the timer expires at each of the first %ld points of the run", bs.size(), cap));
	struct P { size_t b; long i; }; std::vector<P> ps;
	for (size_t i = 0; i < bs.size(); i++) if (bs[i].pairs && (thorough || T[i] < 300)) for (long k = 0; k < T[i]; k++) ps.push_back({i, k});
	parallel(ps.size(), [&](uint64_t q) {
		const P &p = ps[q]; long n; { Case c = mk(bs[p.b], {p.i}); n = run_case(c).timer_points; }
		long step = thorough ? 1 : 3; // quick: every third second point, the phase rotating with the first
		for (long k = p.i + 1 + (thorough ? 0 : p.i % 3); k < n; k += step) { if (out_of_time()) return; Case c = mk(bs[p.b], {p.i, k}); Res r = run_case(c); if (!judge1(bs[p.b], p.b, c, r)) return; ctx.distinct++; ctx.count("pairs_of_expiries"); }
	});
	bound(thorough ? "every pair of points for the configurations marked for pairs" : "pairs of points (every first, every third second) for the configurations marked for pairs");
	sample(mk(bs[0], {17}).show());
}
