// Random choices: every curve, point and seed can be drawn, each by equally many random answers.
#include "streams.h"
extern "C" {
#include "util/bits.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "executions of ecgen's main at nodes of the tree of random answers; distinct_nontrivial counts leaves (what is printed is settled by the answers so far) whose outcome entered the distribution";
// Explores the tree of answers; a node is a leaf when what is printed is the same whatever the remaining answers are.
struct Tree {
	std::map<S, double> mass; double total = 0; uint64_t leaves = 0;
	S bad; Case badc; Res badr;
	void go(const Case &base, const std::function<S(const Res &, S &)> &outcome, int depth, int seeds, std::vector<uint64_t> t = {}, double w = 1) {
		if (!bad.empty() || out_of_time()) return;
		Case c = base; c.tape_on = true; c.tape = t; S first; size_t nreq = 0; uint64_t sz = 0; bool settled = true;
		for (int s = 0; s < seeds && settled; s++) {
			c.seed = 1000 * s + 7; Res r = run_case(c); S o, e = r.ok() ? outcome(r, o) : "ended with " + r.ending();
			if (!e.empty()) { bad = e; badc = c; badr = r; return; }
			if (!s) { first = o; nreq = r.reqs.size(); if (nreq > t.size()) sz = r.reqs[t.size()].size; if (nreq <= t.size()) break; if ((int)t.size() < depth && (t.size() < 1 || seeds == 1)) settled = false; } else if (o != first) settled = false;
		}
		if (settled) { mass[first] += w; total += w; leaves++; ctx.distinct++; return; }
		if ((int)t.size() >= depth || !sz || sz > 4096) return; // not settled within the depth: a candidate was rejected and generation started anew
		for (uint64_t v = 0; v < sz; v++) { t.push_back(v); go(base, outcome, depth, seeds, t, w / sz); t.pop_back(); }
	}
};
static bool same(double a, double b) { return a > b * (1 - 1e-9) && a < b * (1 + 1e-9); }
struct CJ { Case c; int depth; std::vector<Cand> want; double per; S what; };
static void curves(const CJ &j) { // every curve of `want` with mass 1 / (fields * choices)
	Tree T; auto outc = [](const Res &r, S &o) -> S { std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e; if (rec.size() != 1) return "not one record"; EC G; if (!small_curve(rec[0], G, e)) return e; o = fmt("q=%llu a=%llu b=%llu", (unsigned long long)G.f->q, (unsigned long long)G.a, (unsigned long long)G.b); return ""; };
	T.go(j.c, outc, j.depth, 5); S e = T.bad; std::map<S, double> want; std::map<uint64_t, double> n;
	for (auto &c : j.want) { EC E = cand_ec(c); if (E.singular()) continue; want[fmt("q=%llu a=%llu b=%llu", (unsigned long long)E.f->q, (unsigned long long)E.a, (unsigned long long)E.b)] = 0; n[E.f->q]++; }
	if (out_of_time()) return; int fields = n.size();
	if (e.empty()) for (auto &m : T.mass) if (!want.count(m.first)) { e = m.first + " was printed, which is no curve of the kind asked for"; break; }
	if (e.empty()) for (auto &w : want) { auto i = T.mass.find(w.first); if (i == T.mass.end()) { e = w.first + " is printed for no random answers"; break; } uint64_t q = strtoull(w.first.c_str() + 2, 0, 10); double ch = j.per == 0 ? 1 : j.per == 1 ? q : (double)q * q; if (!same(i->second, 1 / (fields * ch))) { e = w.first + fmt(" is printed for a share of %.9f of the random answers, expected %.9f", i->second, 1 / (fields * ch)); break; } }
	if (!e.empty()) violation("curves " + j.what, j.what + ": " + e, T.bad.empty() ? &j.c : &T.badc, T.bad.empty() ? nullptr : &T.badr); else { ctx.count("curves_in_uniform_distributions", want.size()); ctx.count("leaves", T.leaves); }
}
static void point(const Cand &c, bool three) {
	Case cs; cs.args = {c.bin ? "--f2m" : "--fp", three ? "--points=1random" : "--points=random", fmt("%u", c.bin ? c.m : bits_of(c.p))}; cs.in = cand_text(c, false, '\n'); cs.seed = 7;
	EC E = cand_ec(c); if (E.singular() || E.count() < 2) return; std::vector<PC> last;
	Tree T; T.go(cs, [&](const Res &r, S &o) -> S { std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e; if (rec.size() != 1) return "not one record"; size_t n = 0; for (size_t i = 0; i < rec[0].gens.size(); i++) for (auto &p : rec[0].gens[i].points) { n++; o = fmt("%zu:", i) + p.x + "," + p.y; } if (n != 1) return fmt("%zu points", n); last = rec; return ""; }, 3, 1);
	S e = T.bad; if (out_of_time()) return;
	if (e.empty() && !same(T.total, 1)) e = fmt("only a share of %.6f of the random answers is settled by the choice of a generator and of a multiple", T.total);
	if (e.empty()) { size_t g = last[0].gens.size(); for (size_t i = 0; i < g && e.empty(); i++) { uint64_t x, y, o; hex2u(last[0].gens[i].x, x); hex2u(last[0].gens[i].y, y); hex2u(last[0].gens[i].order, o); Pt P, Q; P.inf = false; P.x = x; P.y = y; std::set<S> todo; int w = (E.f->bin ? c.m : bits_of(c.p)); w = 2 * ((w + 7) / 8); Q = P; for (uint64_t k = 1; k < o; k++) { todo.insert(fmt("%zu:0x%0*llx,0x%0*llx", i, w, (unsigned long long)Q.x, w, (unsigned long long)Q.y)); Q = E.add(Q, P); }
			for (auto &t : todo) { auto m = T.mass.find(t); if (m == T.mass.end()) { e = "the point " + t + " is never drawn"; break; } if (!same(m->second, 1.0 / (g * (o - 1)))) { e = "the point " + t + fmt(" is drawn for a share of %.9f of the random answers, expected %.9f", m->second, 1.0 / (g * (o - 1))); break; } } } }
	if (!e.empty()) violation("points " + cand_id(c), cand_id(c) + ", --points=random: " + e, T.bad.empty() ? &cs : &T.badc, T.bad.empty() ? nullptr : &T.badr); else { ctx.count("point_distributions"); ctx.count("leaves", T.leaves); }
}
// a random seed: a map from the answers to strings of bits that is one to one, as each flipped bit of an answer flips one bit of its own
static void seeds(const std::vector<S> &args, size_t min) {
	Case c; c.args = args; c.tape_on = true; for (int i = 0; i < 24; i++) c.tape.push_back(0x5b ^ (i * 37)); auto seed = [&](S &o) -> S { Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending(); if (!e.empty()) return e; if (rec.size() != 1 || !rec[0].has_seed) return "no seed printed"; o = rec[0].seed.substr(2); for (auto &q : r.reqs) if (q.kind != 'b') {} return ""; };
	S base, e = seed(base); std::set<S> diff; Res r0 = run_case(c); size_t n = 0;
	for (size_t i = 0; i < r0.reqs.size() && n < base.size() * 4 && e.empty(); i++) for (uint64_t b = 1; b < r0.reqs[i].size && e.empty(); b *= 2) {
		uint64_t keep = c.tape[i]; c.tape[i] ^= b; S s; e = seed(s); c.tape[i] = keep; if (!e.empty()) break; n++;
		if (s.size() != base.size()) { e = fmt("seeds of %zu and %zu digits", base.size(), s.size()); break; }
		S d; int bits = 0; for (size_t k = 0; k < s.size(); k++) { int x = std::stoi(S(1, s[k]), 0, 16) ^ std::stoi(S(1, base[k]), 0, 16); bits += __builtin_popcount(x); d += fmt("%x", x); }
		if (bits != 1 || !diff.insert(d).second) e = fmt("flipping bit %d of random answer %zu changes %d bits of the seed", __builtin_ctzll(b), i, bits) + (bits == 1 ? ", one that another answer decides as well" : "");
	}
	if (e.empty() && (n < min || n != base.size() * 4)) e = fmt("a seed of %zu bits is made of %zu random bits", base.size() * 4, n);
	if (!e.empty()) violation("seed " + args[1], args[0] + " " + args[1] + ": " + e, &c, &r0); else { ctx.distinct += n; ctx.count("seed_bits_flipped", n); }
}
void mod_run() {
	std::vector<CJ> js; auto add = [&](std::vector<S> a, unsigned bits, S in, int depth, std::vector<Cand> want, double per) { CJ j; j.c.args = a; j.c.args.push_back(fmt("%u", bits)); j.c.args.push_back("--points=none"); j.c.in = in; j.depth = depth; j.want = want; j.per = per; for (auto &x : a) j.what += x + " "; j.what += fmt("%u ", bits); for (char ch : in) j.what += ch == '\n' ? ',' : ch; js.push_back(j); };
	auto rep = [](const S &s) { S r; for (int i = 0; i < 400; i++) r += s; return r; };
	for (unsigned b = 3; b <= (thorough ? 6 : 5); b++) { std::vector<Cand> all; for (uint64_t p = 1ull << (b - 1); p < 1ull << b; p++) if (is_prime64(p)) { auto v = fp_all(p); all.insert(all.end(), v.begin(), v.end()); } add({"--fp", "-r"}, b, "", 3, all, 2); add({"--fp", "-requation,field"}, b, "", 3, all, 2); }
	for (int m = 3; m <= (thorough ? 6 : 5); m++) { Cand c; int e = m == 5 ? 2 : 1; add({"--f2m", "-r"}, m, "", 2, f2m_all(m, e, 0, 0), 2); add({"--f2m", "-ra,b"}, m, rep(fmt("%d\n%d\n0\n0\n", m, e)), 2, f2m_all(m, e, 0, 0), 2); }
	for (uint64_t p : {5, 7, 13, 31}) { auto keep = [&](std::function<bool(const Cand &)> f) { std::vector<Cand> r; for (auto &c : fp_all(p)) if (f(c)) r.push_back(c); return r; };
		add({"--fp", "-requation"}, bits_of(p), rep(fmt("%llu\n", (unsigned long long)p)), 2, fp_all(p), 2);
		for (uint64_t x : {0, 1, 3}) { add({"--fp", "-ra"}, bits_of(p), rep(fmt("%llu\n%llu\n", (unsigned long long)p, (unsigned long long)x)), 1, keep([&](const Cand &c) { return c.b == x; }), 1); add({"--fp", "-rb"}, bits_of(p), rep(fmt("%llu\n%llu\n", (unsigned long long)p, (unsigned long long)x)), 1, keep([&](const Cand &c) { return c.a == x; }), 1); } }
	for (unsigned b = 3; b <= (thorough ? 12 : 9); b++) { std::vector<Cand> all; for (uint64_t p = 1ull << (b - 1); p < 1ull << b; p++) if (is_prime64(p)) { Cand c; c.p = p; c.a = 1; c.b = 0; all.push_back(c); } add({"--fp", "-rfield"}, b, rep("1\n0\n"), 1, all, 0); }
	std::stable_sort(js.begin(), js.end(), [](const CJ &a, const CJ &b) { return a.want.size() > b.want.size(); });
	parallel(js.size(), [&](uint64_t i) { curves(js[i]); });
	bound(fmt("the whole tree of random answers up to the curve: -r over F_p of 3..%d bits and F_2^m, 3 <= m <= %d; -ra, -rb, -requation over F_5, F_7, F_13, F_31; -rfield of 3..%d bits", thorough ? 6 : 5, thorough ? 6 : 5, thorough ? 12 : 9));
	std::vector<std::pair<Cand, bool>> ps; for (uint64_t p : {3, 5, 7, 11, 13, 23}) { size_t k = 0; for (auto &c : fp_all(p)) if (p < 12 || thorough || k++ % 7 == 0) ps.push_back({c, (k + c.a + c.b) & 1}); } for (auto &c : f2m_all(3, 1, 0, 0)) ps.push_back({c, c.a & 1}); for (auto &c : f2m_all(4, 1, 0, 0)) ps.push_back({c, c.b & 1});
	parallel(ps.size(), [&](uint64_t i) { point(ps[i].first, ps[i].second); });
	bound("the whole tree of random answers of --points=random and 1random for input curves over F_p, p <= 23, F_8 and F_16");
	std::vector<std::vector<S>> ss = {{"--f2m", "--ansi", "-r", "20"}, {"--f2m", "--ansi", "-rseed,field", "31"}, {"--fp", "--ansi", "-r", "20"}};
	parallel(ss.size(), [&](uint64_t i) { seeds(ss[i], 160); });
	// the generator is seeded anew in every run
	{ std::set<uint64_t> got; S e; Case c; c.args = {"--fp", "-r", "8"}; Res r; for (int i = 0; i < 24 && e.empty(); i++) { c.fopen_fail = i & 1 ? 0 : -1; r = run_case(c); if (!r.ok()) e = "ended with " + r.ending(); else if (!shm->user[63]) e = "PARI's random generator was never seeded"; else if (!got.insert(shm->user[62]).second) e = "two runs seeded the generator with the same number"; } if (!e.empty()) violation("seeding", e, &c, &r); else ctx.count("runs_with_distinct_seeding", got.size()); }
	bound("every single bit of the random answers behind --ansi seeds; 24 seedings, with and without /dev/urandom");
	{ Case c; c.args = {"--fp", "-r", "5"}; c.tape_on = true; c.tape = {3, 30, 0}; sample(c.show()); }
}
