// The search engine (exhaustive_gen_retry): a reference model of the backtracking machine is
// explored exhaustively over every sequence of generator / check / timeout outcomes up to a depth,
// and every trace is replayed on the real function with synthetic generators.
#include "mc.h"
#include <csignal>
#include <climits>
#include <unordered_set>
extern "C" {
#include "exhaustive/exhaustive.h"
#include "exhaustive/check.h"
#include "util/timeout.h"
}
extern "C" FILE *err; extern "C" FILE *verbose;
const char *MOD_LEVEL = "model_checking";
const char *MOD_RULE = "every sequence of outcomes (advance, repeat, go back n, fatal, timeout; check outcomes) of the first D calls, for every start/end/retry configuration; each trace is replayed on exhaustive_gen_retry and its complete call history compared with the model's";
enum { TMO = 1000 };
struct Cfg { int start, end, retry, nval; bool unr; bool tmo; };
static std::vector<int> script; static size_t pos; static std::vector<int> arity;
static std::vector<long> ev;           // observed events
static Cfg C; static curve_t CV; static arg_t GA[OFFSET_END], CA[OFFSET_END]; static pari_sp AV0;
static std::vector<int> galpha(int st) { std::vector<int> r = {1, 0}; for (int k = 1; k <= st; k++) r.push_back(-k); if (C.start && st) r.push_back(-st - 1); r.push_back(INT_MIN); if (C.tmo) r.push_back(TMO); return r; }
static std::vector<int> calpha(int st) { std::vector<int> r = {1, 0}; for (int k = 1; k <= st && k <= 3; k++) r.push_back(-k); return r; }
static int choose(size_t n) { int v = pos < script.size() ? script[pos] : 0; pos++; arity.push_back((int)n); return v; }
static long al(int st) { return 2 + st * 3; }
extern "C" {
static int g_gen(curve_t *c, arg_t *a, offset_e st) {
	ev.insert(ev.end(), {1, (long)st, (long)((AV0 - avma) / sizeof(long)), c == &CV, a == &GA[st]});
	auto al_ = galpha(st); int o = al_[choose(al_.size())];
	new_chunk(al(st));
	if (o == TMO) { raise(SIGALRM); ev.push_back(-777); return 1; }
	return o;
}
static int g_chk(curve_t *c, arg_t *a, offset_e st) {
	ev.insert(ev.end(), {2, (long)st, c == &CV, a == &CA[st]});
	auto al_ = calpha(st); int o = al_[choose(al_.size())]; new_chunk(5);
	return o;
}
static int g_unr(curve_t *c, pari_sp from, pari_sp to) { ev.insert(ev.end(), {3, (long)((AV0 - from) / sizeof(long)), (long)((AV0 - to) / sizeof(long))}); return -1; }
}
// reference
static int model(std::vector<long> &e, std::unordered_set<uint64_t> &states, uint64_t &trans, const std::vector<int> &sc) {
	size_t p = 0; auto ch = [&](size_t n) { return p < sc.size() ? sc[p++] : (p++, 0); };
	if (C.start == C.end) return 2;
	if (C.start > C.end) return 0;
	long av = 0, top[16] = {0}; int tries[16] = {0};
	int st = C.start;
	while (st < C.end) {
		top[st] = av;
		uint64_t h = st; for (int i = C.start; i < C.end; i++) h = h * 31 + tries[i] + 7 * (i <= st ? top[i] : 0); h = h * 1000003 + C.start * 64 + C.end * 8 + C.retry + 512 * C.nval + 2048 * C.unr; states.insert(h); trans++;
		e.insert(e.end(), {1, (long)st, av, 1, 1});
		auto ga = galpha(st); int d = ga[ch(ga.size())]; av += al(st);
		bool tm = d == TMO; if (tm) d = C.start - st;
		if (!tm && d > 0 && st % 2 == 0) for (int i = 0; i < C.nval; i++) { e.insert(e.end(), {2, (long)st, 1, 1}); auto ca = calpha(st); int q = ca[ch(ca.size())]; if (q <= 0) { d = q; break; } }
		if (d > 0) { tries[st] = 0; st += d; continue; }
		if (d == INT_MIN || st + d < 0) return 0;
		if (C.retry && ++tries[st] >= C.retry) return 0;
		int to = std::max(st + d, C.start);
		for (int i = st; i > to; i--) if (C.unr && i % 3 != 2) e.insert(e.end(), {3, top[i], top[i - 1]});
		av = top[to]; st = to;
	}
	e.push_back(1000 + av);
	return 1;
}
static void run_cfg(const Cfg &c, size_t D, int K) {
	C = c;
	cfg->timeout = c.tmo ? 100000 : 0; cfg->verbose = 0; verbose = stderr; err = fopen("/dev/null", "w");
	gen_f gens[OFFSET_END]; unroll_f un[OFFSET_END]; arg_t *ga[OFFSET_END], *ca[OFFSET_END]; check_t *ck[OFFSET_END];
	check_t one = {0}; check_f fs[2] = {g_chk, g_chk}; one.checks = fs; one.nchecks = c.nval;
	for (int i = 0; i < OFFSET_END; i++) { gens[i] = g_gen; un[i] = i % 3 != 2 ? g_unr : NULL; ga[i] = &GA[i]; ca[i] = &CA[i]; ck[i] = c.nval && i % 2 == 0 ? &one : NULL; }
	exhaustive_t s; s.generators = gens; s.gen_argss = ga; s.check_argss = ca; s.validators = c.nval ? ck : NULL; s.unrolls = c.unr ? un : NULL;
	if (c.tmo) timeout_init();
	std::unordered_set<uint64_t> states; uint64_t trans = 0, n = 0;
	script.clear();
	while (true) {
		ev.clear(); arity.clear(); pos = 0; AV0 = avma;
		int r = c.retry || c.start % 2 ? exhaustive_gen_retry(&CV, &s, (offset_e)c.start, (offset_e)c.end, c.retry) : exhaustive_gen(&CV, &s, (offset_e)c.start, (offset_e)c.end);
		if (r == 1) ev.push_back(1000 + (long)((AV0 - avma) / sizeof(long)));
		avma = AV0;
		std::vector<long> e; int w = model(e, states, trans, script); n++; ucount();
		if (r != w || e != ev) {
			S t = fmt("steps %d..%d, retry limit %d, %d checks%s%s; outcomes of the calls, in order:", c.start, c.end, c.retry, c.nval, c.unr ? ", unrolling" : "", c.tmo ? ", timeouts" : "");
			for (size_t i = 0; i < arity.size() && i < 40; i++) t += fmt(" %d/%d", i < script.size() ? script[i] : 0, arity[i]);
			t += fmt(": the engine returned %d, the model %d; ", r, w);
			size_t k = 0; while (k < e.size() && k < ev.size() && e[k] == ev[k]) k++;
			t += fmt("call histories differ at event word %zu (engine:", k); for (size_t i = k > 5 ? k - 5 : 0; i < k + 8 && i < ev.size(); i++) t += fmt(" %ld", ev[i]); t += "; model:"; for (size_t i = k > 5 ? k - 5 : 0; i < k + 8 && i < e.size(); i++) t += fmt(" %ld", e[i]); t += ")";
			ufail(t); break;
		}
		// next script (depth-first, first D choices)
		std::vector<int> nx(script); nx.resize(std::min(D, arity.size()), 0);
		long i = (long)nx.size() - 1; while (i >= 0) { int dev = 0; for (long j = 0; j < i; j++) dev += nx[j] != 0; if (nx[i] + 1 < arity[i] && dev < K) break; i--; }
		if (i < 0) break;
		nx.resize(i + 1); nx[i]++; script = nx;
	}
	shm->user[2] = states.size(); shm->user[3] = trans;
}
void mod_run() {
	struct Job { Cfg first; size_t second; int dev; }; std::vector<Job> cs;
	for (int start : {0, 1, 3, 5}) for (int len : {0, 1, 2, 3, 4, 5}) for (int retry : {0, 1, 2, 3}) for (int nv : {0, 1, 2}) for (int u = 0; u < 2; u++) for (int t = 0; t < 2; t++) {
		if (start + len > OFFSET_END) continue;
		if (len >= 4 && (retry == 1 || retry == 3 || nv == 1) && !thorough) continue;
		if (t && (nv || !u || len > 3)) continue;
		cs.push_back({{start, start + len, retry, nv, (bool)u, (bool)t}, (size_t)(t ? (thorough ? 6 : 4) : thorough ? (len > 2 ? 8 : 9) : (len > 2 ? 6 : 7)), 99});
	}
	cs.push_back({{3, 2, 0, 1, true, false}, 1, 99}); cs.push_back({{0, 9, 0, 0, true, false}, thorough ? 6u : 4u, 99}); cs.push_back({{0, 9, 2, 1, true, false}, thorough ? 6u : 4u, 99});
	// whole searches: any number of calls, all advancing but a few
	for (int start : {0, 1, 2, 5, 7}) for (int end : {6, 7, 8, 9}) for (int retry : {0, 2, 3, 5}) for (int nv : {0, 1, 2}) for (int t = 0; t < 2; t++) {
		if (start >= end || (t && (nv || retry == 3))) continue;
		cs.push_back({{start, end, retry, nv, true, (bool)t}, 60, nv || t ? 2 + thorough : 3 + (thorough && !retry)});
	}
	for (int retry : {6, 17, 40}) cs.push_back({{0, 9, retry, 0, true, false}, 60, 2}); 
	std::reverse(cs.begin(), cs.end());
	parallel(cs.size(), [&](uint64_t i) {
		uint64_t n; S e = unit_run([&] { run_cfg(cs[i].first, cs[i].second, cs[i].dev); }, thorough ? 700 : 200, &n);
		ctx.count("states", shm->user[2]); ctx.count("transitions", shm->user[3]); ctx.count("traces_validated_against_impl", n); ctx.count("configurations");
		if (!e.empty()) violation("engine " + e.substr(0, 200), e);
		else if (ctx.samples.size() < 2 && n > 10) sample(fmt("start %d end %d retry %d checks %d: %llu outcome sequences of depth %zu, all call histories equal", cs[i].first.start, cs[i].first.end, cs[i].first.retry, cs[i].first.nval, (unsigned long long)n, cs[i].second));
	});
	bound(fmt("%zu configurations, every outcome sequence of the first %d calls (%d for long ranges); whole searches of up to nine steps with at most %d outcomes other than an advance, at any place", cs.size(), thorough ? 9 : 7, thorough ? 8 : 6, thorough ? 4 : 3));
}
