// --twist: the printed curve is a quadratic twist of the one asked for.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution of ecgen's main per (field, option set, block of input curves) or per random size; distinct_nontrivial counts distinct printed twists judged against their input curve";
static S twist_of(const EC &E, const EC &T) {
	const Fld &F = *E.f;
	if (T.f->q != F.q || T.f->poly != F.poly) return "the twist is over another field";
	if (F.bin) {
		if (T.b != E.b) return "b of a twist over a binary field must stay";
		if (!F.trc[E.a ^ T.a]) return "the trace of a + a' is 0: isomorphic to the input curve, not a twist of it";
		return "";
	}
	for (uint64_t d = 2; d < F.p; d++) if (F.pw(d, (F.p - 1) / 2) != 1 && F.mul(F.mul(d, d), E.a) == T.a && F.mul(F.mul(F.mul(d, d), d), E.b) == T.b) return "";
	return "no non-square d gives a' = d^2 a, b' = d^3 b: not a quadratic twist of the input curve";
}
static S big_twist(const PC &a, const PC &b) {
	BigEC E, T; S e; if (!big_from(a, E, e) || !big_from(b, T, e)) return e;
	if (a.bin != b.bin || a.p != b.p || a.m != b.m || a.e1 != b.e1 || a.e2 != b.e2 || a.e3 != b.e3) return "the twist is over another field";
	GEN q = E.bin ? int2n(E.m) : E.p;
	if (!equalii(addii(hex2gen(a.order), hex2gen(b.order)), shifti(addiu(q, 1), 1))) return "the orders of curve and twist do not add up to 2(q + 1)";
	if (E.bin) {
		if (!gequal(E.b, T.b)) return "b of a twist over a binary field must stay";
		GEN x = E.f_add(E.a, T.a), t = x; for (long i = 1; i < E.m; i++) { x = E.f_mul(x, x); t = E.f_add(t, x); }
		if (gequal0(t)) return "the trace of a + a' is 0: not a twist";
		return "";
	}
	if (!signe(E.a) || !signe(E.b)) return "";
	GEN d = Fp_div(Fp_mul(T.b, E.a, E.p), Fp_mul(E.b, T.a, E.p), E.p), d2 = Fp_sqr(d, E.p);
	if (kronecker(d, E.p) != -1 || !equalii(Fp_mul(d2, E.a, E.p), T.a) || !equalii(Fp_mul(Fp_mul(d2, d, E.p), E.b, E.p), T.b)) return "not a quadratic twist of the curve drawn";
	return "";
}
void mod_run() {
	std::vector<Opts> os; auto add = [&](std::function<void(Opts &)> f) { Opts x; x.twist = true; f(x); os.push_back(x); };
	add([](Opts &x) { x.pts = PTS_NONE; }); add([](Opts &x) { x.pts = PTS_ALL; }); add([](Opts &x) { x.meta = true; }); add([](Opts &x) { x.unique = true; }); add([](Opts &x) { x.prime = true; x.pts = PTS_NONE; });
	for (int k : {1, 2, 3, 4, 6}) add([k](Opts &x) { x.cofactor = k; x.pts = PTS_NONE; });
	add([](Opts &x) { x.smooth = 3; x.pts = PTS_NONPRIME; }); add([](Opts &x) { x.unique = true; x.meta = true; x.cofactor = 4; });
	add([](Opts &x) { x.koblitz = 0; }); add([](Opts &x) { x.koblitz = 1; x.pts = PTS_NONE; }); add([](Opts &x) { x.pts = PTS_RANDOM; x.npts = 2; });
	std::vector<Stream> v;
	auto put = [&](const std::vector<Cand> &all, const Opts &o, unsigned bits, bool f) {
		if (o.koblitz >= 0) { Stream s; s.in = {all[0]}; s.o = o; s.bits = bits; s.infile = f; v.push_back(s); return; }
		for (size_t i = 0; i < all.size(); i += 300) { Stream s; s.in.assign(all.begin() + i, all.begin() + std::min(all.size(), i + 300)); s.o = o; s.bits = bits; s.infile = f; v.push_back(s); }
	};
	uint64_t P = thorough ? 127 : 43; int M = thorough ? 7 : 5;
	for (uint64_t p = 3; p <= P; p++) if (is_prime64(p)) { auto all = fp_all(p); for (size_t k = 0; k < os.size(); k++) { if (!thorough && p > 19 && k % 3 && (p + k) % 4) continue; put(all, os[k], bits_of(p), p & 2); } }
	for (int m = 2; m <= M; m++) { auto ps = f2m_polys(m); for (auto &q : ps) { if (m >= 6 && q != ps[0]) continue; auto all = f2m_all(m, q[0], q[1], q[2]); for (auto &o : os) put(all, o, m, m & 1); } }
	// several fields mixed in one run, fields wider than needed
	std::vector<uint64_t> pr = {251, 3, 31, 13, 7, 241, 11, 5, 127, 101};
	for (auto &o : os) for (unsigned b : {8u, 20u, 64u}) { std::vector<Cand> in; for (uint64_t k = 0; k < (o.koblitz >= 0 ? pr.size() : 300); k++) { Cand c; c.p = pr[k % pr.size()]; c.a = (k * 7 + k / 11) % 256; c.b = (k * k + 3 * k + 1) % 256; in.push_back(c); } Stream s; s.in = in; s.o = o; s.bits = b; v.push_back(s); }
	for (auto &o : os) for (int m : {8, 9, 11}) { auto ps = f2m_polys(m); std::vector<Cand> in; for (uint64_t k = 0; k < (o.koblitz >= 0 ? ps.size() : 60); k++) { auto &q = ps[k % ps.size()]; Cand c; c.bin = true; c.m = m; c.e1 = q[0]; c.e2 = q[1]; c.e3 = q[2]; c.a = (k * 37 + k / 3) % (1 << m); c.b = (k * k + 5 * k) % (1 << m); in.push_back(c); } Stream s; s.in = in; s.o = o; s.bits = m; v.push_back(s); }
	parallel(v.size(), [&](uint64_t i) {
		std::vector<Cand> want; for (auto &c : v[i].in) { bool dc, a = acceptable(c, v[i].o, dc); if (a && !dc) { Cand w = c; if (v[i].o.koblitz >= 0) { w.a = v[i].o.koblitz; w.b = 1; } want.push_back(w); } }
		run_stream(v[i], W_ALL, true, [&](const std::vector<PC> &r, const Res &, const Case &) -> S {
			for (size_t k = 0; k < r.size() && k < want.size(); k++) { EC T; S e; if (!small_curve(r[k], T, e)) return e; e = twist_of(cand_ec(want[k]), T); if (!e.empty()) return cand_id(want[k]) + " -> " + curve_id(r[k]) + ": " + e; ctx.count("twists_of_input_curves"); }
			return "";
		});
	});
	bound(fmt("the twist of every curve over every F_p, 3 <= p <= %llu, and every F_2^m, m <= %d, from input, with every option set", (unsigned long long)P, M));
	// random curves: the same random environment with and without --twist draws the same curve
	struct L { bool bin; unsigned bits; uint64_t seed; }; std::vector<L> ls;
	std::vector<unsigned> bl = {5, 6, 7, 8, 10, 13, 16, 17, 20, 24, 31, 32, 33, 40, 48, 61, 63, 64, 65, 80, 96, 127, 128, 129, 160};
	if (thorough) for (unsigned b = 18; b < 110; b++) bl.push_back(b);
	for (unsigned b : bl) for (int bin = 0; bin < 2; bin++) for (int s = 0; s < (b > 100 ? 1 : 4); s++) if (!bin || b < 130) ls.push_back({bin == 1, b, 500u + b * 10 + s});
	std::reverse(ls.begin(), ls.end());
	parallel(ls.size(), [&](uint64_t i) {
		Case c; c.args = {ls[i].bin ? "--f2m" : "--fp", "-r", "--points=none", fmt("%u", ls[i].bits)}; c.seed = ls[i].seed; c.tmo = 120; Case t = c; t.args.push_back("--twist");
		Res rc = run_case(c), rt = run_case(t); std::vector<PC> a, b; S e;
		if (!rc.ok() || !rt.ok()) e = "ended with " + rc.ending() + " / " + rt.ending(); else { e = parse_output(rc.out, a); if (e.empty()) e = parse_output(rt.out, b); }
		if (e.empty() && (a.size() != 1 || b.size() != 1)) e = "not one curve";
		Expect x; x.bin = ls[i].bin; x.bits = ls[i].bits; x.field_bits_exact = true; x.pts = PTS_NONE; x.what = W_CURVE | W_GENS;
		pari_sp av = avma;
		if (e.empty()) e = check_record(b[0], x);
		if (e.empty()) e = big_twist(a[0], b[0]);
		avma = av;
		if (!e.empty()) violation("random " + t.show(), e, &t, &rt); else { ctx.distinct++; ctx.count("random_twists"); }
	});
	bound("random curves of 5..160 bits against the curve the same random environment gives without --twist");
}
