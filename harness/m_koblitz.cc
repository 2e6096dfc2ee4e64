// Koblitz curves: the built-in order table for every degree, and real runs over every degree up to a
// bound, against the Lucas sequence that counts points over extensions of GF(2).
#include "streams.h"
extern "C" {
#include "math/koblitz.h"
#include "math/poly.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "table lookups for every (m, a) and one real execution per (degree, a, way of asking), each order compared with 2^m + 1 - V_m; distinct_nontrivial counts orders compared";
static GEN lucas(long m, int a) { GEN v0 = gen_2, v1 = stoi(a ? 1 : -1); if (m == 0) v1 = v0; for (long i = 1; i < m; i++) { GEN t = subii(mulis(v1, a ? 1 : -1), shifti(v0, 1)); v0 = v1; v1 = t; } return subii(addiu(int2n(m), 1), v1); }
void mod_run() {
	S e = unit_run([] {
		for (long m = 0; m <= 2000; m++) for (int a = 0; a < 3; a++) { pari_sp av = avma; ucount(); GEN o = koblitz_get_order(m, a); if (!o) { avma = av; continue; } if (a > 1 || m < 2 || !equalii(o, lucas(m, a))) { ufail(fmt("the table order of the Koblitz curve a = %d over GF(2^%ld) is wrong", a, m)); return; } shm->user[5]++; avma = av; }
	}, 200);
	ctx.count("table_entries_found", shm->user[5]);
	if (!e.empty()) violation("table " + e, e);
	bound("table lookups for all degrees 0..2000 and a in {0, 1, 2}");
	struct R { std::vector<S> args; S in; int m, a; };
	std::vector<R> rs; int M = thorough ? 150 : 130;
	std::set<int> ms; for (int m = 2; m <= M; m++) ms.insert(m);
	for (int m : {101, 103, 107, 109, 113, 131, 163, 233, 239, 277, 283}) ms.insert(m);
	for (int m : {311, 331, 347, 349, 359, 409, 571}) ms.insert(m);
	for (int m : ms) for (int a = -1; a < 2; a++) {
		if (m > M && !isprime(shifti(lucas(m, a > 0), a > 0 ? -1 : -2))) continue; // the generators of other orders take a factorisation
		if (a < 0 && m % 7 && m != 103 && m != 101) continue;
		R r; r.m = m; r.a = std::max(a, 0); r.args = {"--f2m", a < 0 ? "-K" : a == 0 ? "--koblitz=0" : "-K1", "-r", "--points=none", fmt("%d", m)}; rs.push_back(r);
	}
	// other reduction polynomials, from input; combined with metadata, unique
	for (int m : {5, 7, 8, 9, 10, 11, 12, 13}) { auto ps = f2m_polys(m); for (size_t k = 0; k < ps.size() && k < 12; k++) for (int a = 0; a < 2; a++) { R r; r.m = m; r.a = a; r.in = fmt("%d\n%d\n%d\n%d\n", m, ps[k][0], ps[k][1], ps[k][2]); r.args = {"--f2m", fmt("-K%d", a), k & 1 ? "--metadata" : "--points=none", fmt("%d", m)}; rs.push_back(r); } }
	for (int m : {101, 103, 107, 163}) for (int a = 0; a < 2; a++) { const char *P = m == 101 ? "101\n7\n6\n1\n" : m == 103 ? "103\n31\n0\n0\n" : m == 107 ? "107\n9\n7\n4\n" : "163\n7\n6\n3\n"; R r; r.m = m; r.a = a; r.in = P; r.args = {"--f2m", fmt("-K%d", a), "--points=none", fmt("%d", m)}; rs.push_back(r); }
	std::vector<R> q(rs.rbegin(), rs.rend());
	parallel(q.size(), [&](uint64_t i) {
		Case c; c.args = q[i].args; c.in = q[i].in; c.seed = 77 + i; c.tmo = 120; Res r = run_case(c);
		std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != 1) e = "not one curve";
		if (e.empty()) {
			GEN a, b, o, m; pari_sp av = avma;
			if (!hex2gen_ok(rec[0].a) || !hex2gen_ok(rec[0].b) || !hex2gen_ok(rec[0].order) || !hex2gen_ok(rec[0].m)) e = "unreadable number";
			else { a = hex2gen(rec[0].a); b = hex2gen(rec[0].b); o = hex2gen(rec[0].order); m = hex2gen(rec[0].m);
				if (!equaliu(a, q[i].a) || !equaliu(b, 1)) e = "not the requested Koblitz equation: " + curve_id(rec[0]);
				else if (!equaliu(m, q[i].m)) e = "wrong degree";
				else if (!equalii(o, lucas(q[i].m, q[i].a))) e = fmt("order of the Koblitz curve a = %d over GF(2^%d) printed as ", q[i].a, q[i].m) + rec[0].order + ", should be " + GENtostr(lucas(q[i].m, q[i].a)); }
			avma = av;
		}
		if (e.empty() && q[i].m <= 13) { Expect x; x.bin = true; x.bits = q[i].m; x.what = W_CURVE | W_GENS; e = check_record(rec[0], x); }
		if (!e.empty()) violation("run " + c.show(), e, &c, &r); else { ctx.distinct++; ctx.count("curves"); if (ctx.samples.empty()) sample(c.show() + " -> " + rec[0].order); }
	});
	// with a constraint that rejects the table curve's order kind, or the twist, no table value may leak through
	std::vector<Case> tw; for (int m : {5, 7, 9, 11, 13, 101, 103, 107, 109, 113}) for (int a = 0; a < 2; a++) for (int t = 0; t < 2; t++) { Case c; c.args = {"--f2m", fmt("-K%d", a), "-r", "--points=none", fmt("%d", m)}; if (t) c.args.push_back("--twist"); else c.args.push_back(a ? "-k2" : "-k4"); c.tmo = 3; tw.push_back(c); }
	parallel(tw.size(), [&](uint64_t i) {
		Case c = tw[i]; bool t = c.args.back() == "--twist"; int m = atoi(c.args[4].c_str()), a = c.args[1] == "-K1";
		pari_sp av = avma; GEN n = lucas(m, a), w = t ? subii(addiu(int2n(m + 1), 2), n) : n; long k = a ? 2 : 4;
		bool can = t || (dvdiu(n, k) && isprime(divis(n, k)));
		if (!can) { avma = av; return; }   // would search for ever
		c.tmo = 60; Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && (rec.size() != 1 || !hex2gen_ok(rec[0].order))) e = "not one curve";
		if (e.empty() && !equalii(hex2gen(rec[0].order), w)) e = "printed order " + rec[0].order + " should be " + GENtostr(w);
		avma = av;
		if (!e.empty()) violation("variant " + c.show(), e, &c, &r); else { ctx.distinct++; ctx.count("variants"); }
	});
	bound(fmt("real runs for every degree 2..%d and the table degrees up to %d, a in {default, 0, 1}; every irreducible tri-/pentanomial (up to 12 each) of degrees 5..13", M, 571));
}
