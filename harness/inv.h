// Oracle of --invalid: what the whole output has to look like (C14, C15).
#pragma once
#include "streams.h"
struct InvCase { Cand o; bool given = true; S range; bool unique = false; unsigned bits = 0; };
// the prime set the run has to cover; def: the default rule (depends on the order)
static std::vector<uint64_t> inv_primes(const S &range, uint64_t lo_def = 2) {
	std::vector<uint64_t> r; size_t d = range.find('-');
	uint64_t x = strtoull(range.c_str(), 0, 10), y = d == S::npos ? 0 : strtoull(range.c_str() + d + 1, 0, 10);
	if (d == S::npos) { while (!is_prime64(x)) x++; r.push_back(x); return r; }
	for (; x <= y; x++) if (is_prime64(x)) r.push_back(x);
	return r;
}
// Which primes divide the order of some (cyclic, if asked) curve with this field and a?
static std::set<uint64_t> inv_feasible(const Cand &c, bool unique) {
	std::set<uint64_t> r; Cand d = c; EC E = cand_ec(c);
	for (uint64_t b = 0; b < E.f->q; b++) { E.b = b; if (E.singular()) continue; uint64_t n = E.count(); if (n == 1) continue; if (unique) { uint64_t x, y; E.group(n, x, y); if (x > 1) continue; } for (auto &f : factorize(n)) r.insert(f.first); }
	return r;
}
static S inv_check(const InvCase &ic, const Res &r, std::vector<PC> *out = nullptr) {
	std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e;
	if (rec.empty()) return "no original curve printed";
	Expect x; x.bin = ic.o.bin; x.bits = ic.bits; x.what = W_CURVE | W_GENS; x.pts = PTS_ANY; if (!ic.given) x.field_bits_exact = true;
	EC O; bool small = small_curve(rec[0], O, e);
	e = check_record(rec[0], x); if (!e.empty()) return "original curve: " + e;
	for (auto &g : rec[0].gens) if (g.has_points && g.points.size()) return "points listed under the original curve";
	if (ic.given) { EC W = cand_ec(ic.o); if (!small || O.a != W.a || O.b != W.b || O.f->q != W.f->q || O.f->poly != W.f->poly) return "the first record is not the given curve: " + curve_id(rec[0]); }
	pari_sp av = avma; GEN ord = hex2gen(rec[0].order);
	std::vector<uint64_t> P;
	if (!ic.range.empty()) P = inv_primes(ic.range);
	else { // consecutive primes from 2 on whose product exceeds order^2; as many as were printed
		GEN pr = gen_1; uint64_t q = 1; for (size_t i = 1; i < rec.size(); i++) { q++; while (!is_prime64(q)) q++; P.push_back(q); pr = muliu(pr, q); }
		if (cmpii(pr, sqri(ord)) <= 0) { avma = av; return fmt("%zu invalid curves are not enough: the product of their primes does not exceed the order squared", rec.size() - 1); }
	}
	if (rec.size() != P.size() + 1) { avma = av; return fmt("%zu curves printed after the original, the prime set has %zu", rec.size() - 1, P.size()); }
	std::vector<std::vector<char>> lists(rec.size(), std::vector<char>(P.size(), 0));
	for (size_t k = 1; k < rec.size(); k++) {
		PC &c = rec[k]; S id = fmt("invalid curve %zu (", k) + curve_id(c) + "): ";
		if (c.bin ? c.m != rec[0].m || c.e1 != rec[0].e1 || c.e2 != rec[0].e2 || c.e3 != rec[0].e3 : c.p != rec[0].p) { avma = av; return id + "not over the field of the original"; }
		if (c.a != rec[0].a) { avma = av; return id + "a differs from the original's"; }
		Expect y; y.bin = ic.o.bin; y.bits = ic.bits; y.what = W_CURVE | W_GENS | W_PTS; y.pts = PTS_FREE; y.unique = ic.unique; if (ic.unique) y.what |= W_OPTS;
		e = check_record(c, y); if (!e.empty()) { avma = av; return id + e; }
		GEN N = hex2gen(c.order);
		for (size_t i = 0; i < P.size(); i++) if (dvdiu(N, P[i])) for (auto &g : c.gens) for (auto &p : g.points) if (equaliu(hex2gen(p.order), P[i])) lists[k][i] = 1;
		for (auto &g : c.gens) for (auto &p : g.points) { GEN o = hex2gen(p.order); bool in = false; for (auto q : P) in |= equaliu(o, q); if (!in) { avma = av; return id + "lists a point of order " + p.order + ", not in the prime set"; } }
	}
	avma = av;
	// one record per prime: a perfect matching
	std::vector<int> match(P.size(), -1);
	std::function<bool(size_t, std::vector<char> &)> aug = [&](size_t k, std::vector<char> &seen) { for (size_t i = 0; i < P.size(); i++) if (lists[k][i] && !seen[i]) { seen[i] = 1; if (match[i] < 0 || aug(match[i], seen)) { match[i] = k; return true; } } return false; };
	for (size_t k = 1; k < rec.size(); k++) { std::vector<char> seen(P.size(), 0); if (!aug(k, seen)) { for (size_t i = 0; i < P.size(); i++) { bool any = false; for (size_t j = 1; j < rec.size(); j++) any |= lists[j][i]; if (!any) return fmt("no invalid curve with a listed point of order %llu", (unsigned long long)P[i]); } return fmt("invalid curve %zu stands for no prime of its own", k); } }
	if (out) *out = rec;
	return "";
}
