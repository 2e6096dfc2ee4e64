// --invalid with one thread: every original curve over small fields, every prime range, every first
// random answers, and a size ladder.
#include "inv.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (original curve, prime range, uniqueness, random environment); the whole output is compared with the required prime set and each record judged by brute force; distinct_nontrivial counts invalid curves judged";
static const char *RANGES[] = {"2-3", "2-7", "5", "3-11", "", "2-13", "2", "4-6", "6", "3", "7-7", "1-2", "0-5", "11-13", "2-23", "8-10", "24-28"};
static std::set<uint64_t> feas(const Cand &c, bool u) { static std::map<S, std::set<uint64_t>> m; Cand k = c; k.b = 0; S key = cand_id(k) + (u ? "u" : ""); auto it = m.find(key); if (it == m.end()) it = m.emplace(key, inv_feasible(c, u)).first; return it->second; }
static bool feasible(const InvCase &ic, uint64_t order) {
	auto f = feas(ic.o, ic.unique);
	if (!ic.range.empty()) { auto P = inv_primes(ic.range); if (P.empty()) return true; for (auto p : P) if (!f.count(p)) return false; return true; }
	u128 pr = 1; uint64_t q = 1; int extra = 0;
	while (extra < 2) { do q++; while (!is_prime64(q)); if (!f.count(q)) return false; if (pr > (u128)order * order) extra++; pr *= q; }
	return true;
}
static Case mk(const InvCase &ic, bool file) {
	Case c; c.args = {ic.o.bin ? "--f2m" : "--fp", ic.range.empty() ? "--invalid" : "-i" + ic.range}; if (ic.unique) c.args.push_back("-u"); c.args.push_back(fmt("%u", ic.bits));
	c.infile = file; if (ic.given) c.in = cand_text(ic.o, false, file ? ',' : '\n'); else c.args.push_back("-r"); c.tmo = 30; return c;
}
static S run1(const InvCase &ic, const Case &c, Res &r) {
	r = run_case(c);
	bool empty = !ic.range.empty() && inv_primes(ic.range).empty();
	if (!empty && !r.ok()) return "ended with " + r.ending();
	if (empty && !(r.clean() && r.code != 0)) return "with no prime in the range it ended with " + r.ending();
	std::vector<PC> rec; S e = inv_check(ic, r, &rec);
	if (e.empty()) { ctx.distinct += rec.size() - 1; ctx.count("invalid_curves", rec.size() - 1); if (ctx.samples.empty() && rec.size() > 3) sample(c.show() + fmt(" -> %zu records", rec.size())); }
	return e;
}
void mod_run() {
	std::vector<InvCase> v;
	auto push = [&](const Cand &c, unsigned bits, size_t r, bool u) { InvCase ic; ic.o = c; ic.bits = bits; ic.range = RANGES[r % 17]; ic.unique = u; v.push_back(ic); };
	size_t rot = 0;
	for (uint64_t p = 5; p <= (thorough ? 61 : 37); p++) if (is_prime64(p)) for (uint64_t a = 0; a < p; a++) for (uint64_t b = 0; b < p; b++) {
		Cand c; c.p = p; c.a = a; c.b = b; if (cand_ec(c).singular()) continue;
		bool all = b < 2 || (thorough && p < 40) || p < 8;
		if (all) for (size_t r = 0; r < 17; r++) for (int u = 0; u < 2; u++) { if (!thorough && p > 11 && (rot++ % 3)) continue; push(c, bits_of(p), r, u); }
		else if (rot++ % (thorough ? 1 : p < 20 ? 2 : 7) == 0) push(c, bits_of(p), rot / 2 + a, rot & 1);
	}
	for (int m = 3; m <= (thorough ? 7 : 6); m++) { auto ps = f2m_polys(m); for (size_t k = 0; k < ps.size(); k++) for (uint64_t a = 0; a < 1u << m; a++) for (uint64_t b = 1; b < 1u << m; b++) {
		Cand c; c.bin = true; c.m = m; c.e1 = ps[k][0]; c.e2 = ps[k][1]; c.e3 = ps[k][2]; c.a = a; c.b = b; if (rot++ % (m < 5 ? 1 : m == 5 ? 3 : thorough ? 7 : 31)) continue; push(c, m, rot, (rot / 15) & 1); push(c, m, 4, false); } }
	parallel(v.size(), [&](uint64_t i) {
		EC E = cand_ec(v[i].o); if (!feasible(v[i], E.count())) { ctx.count("not_attainable"); return; }
		Case c = mk(v[i], i & 1); c.seed = 11 + i; Res r; S e = run1(v[i], c, r);
		if (!e.empty()) violation("inv " + c.show(), cand_id(v[i].o) + ", range " + v[i].range + (v[i].unique ? ", unique" : "") + ": " + e, &c, &r);
	}, 4);
	bound(fmt("original curves over F_p, 5 <= p <= %d, and F_2^m, 3 <= m <= %d; 17 prime sets (ranges, single primes, empty, default) x unique or not", thorough ? 61 : 37, thorough ? 7 : 6));
	// every answer to the first random requests (the b of the candidates, then generators)
	struct R { InvCase ic; size_t K; }; std::vector<R> rs;
	for (uint64_t p : {5, 7, 11}) for (uint64_t a = 0; a < p; a++) for (size_t rg : {0, 1, 3, 7, 9}) for (int u = 0; u < 2; u++) { R r; r.ic.o.p = p; r.ic.o.a = a; r.ic.o.b = a == 0 ? 1 : 0; r.ic.range = RANGES[rg]; r.ic.bits = bits_of(p); r.ic.unique = u; r.K = p == 5 ? (thorough ? 4 : 3) : p == 7 ? (thorough ? 4 : 2) : thorough ? 3 : 2; rs.push_back(r); }
	for (int m : {3, 4}) for (uint64_t a = 0; a < 1u << m; a++) for (size_t rg : {6, 9, 0, 1}) { R r; r.ic.o.bin = true; r.ic.o.m = m; r.ic.o.e1 = 1; r.ic.o.a = a; r.ic.o.b = 3; r.ic.range = RANGES[rg]; r.ic.bits = m; r.K = m == 3 ? 3 : 2; if (!thorough && m == 4) r.K = 1; rs.push_back(r); }
	parallel(rs.size(), [&](uint64_t i) {
		if (cand_ec(rs[i].ic.o).singular() || !feasible(rs[i].ic, 0)) return;
		std::vector<std::vector<uint64_t>> st = {{}};
		while (!st.empty()) {
			if (out_of_time()) return;
			auto t = st.back(); st.pop_back();
			Case c = mk(rs[i].ic, false); c.seed = 5; c.tape_on = true; c.tape = t; Res r; S e = run1(rs[i].ic, c, r); ctx.count("random_choice_nodes");
			if (!e.empty()) { violation("inv-rnd " + c.show(), cand_id(rs[i].ic.o) + ", range " + rs[i].ic.range + ": " + e, &c, &r); return; }
			if (t.size() < rs[i].K && t.size() < r.reqs.size() && r.reqs[t.size()].size && r.reqs[t.size()].size <= 32) for (uint64_t x = r.reqs[t.size()].size; x-- > 0;) { auto u = t; u.push_back(x); st.push_back(u); }
		}
	});
	bound("every combination of answers to the first 2..3 random requests over F_5, F_7, F_11, F_8, F_16");
	// ladder
	std::vector<std::pair<InvCase, uint64_t>> ls;
	for (unsigned b : {12u, 16u, 17u, 20u, 24u, 31u, 32u, 33u, 48u, 63u, 64u, 65u, 80u, 96u}) for (int bin = 0; bin < 2; bin++) for (int k = 0; k < 3; k++) { if (b > 48 && k == 0 && !thorough) continue; InvCase ic; ic.given = false; ic.o.bin = bin; ic.bits = b; ic.range = k == 0 ? "" : k == 1 ? "2-40" : b == 12 ? "11" : "101"; ic.unique = k == 2; ls.push_back({ic, b * 7 + k}); }
	std::reverse(ls.begin(), ls.end());
	parallel(ls.size(), [&](uint64_t i) { Case c = mk(ls[i].first, false); c.seed = ls[i].second; c.tmo = 60; Res r; S e = run1(ls[i].first, c, r); if (!e.empty()) violation("inv-ladder " + c.show(), e, &c, &r); });
	bound("random originals of 12..96 bits with the default set, 2-40, and 101 (unique)");
}
