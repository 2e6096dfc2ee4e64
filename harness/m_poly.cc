// The table of binary fields: every degree, irreducibility decided by Rabin's test on own GF(2)[x] arithmetic.
#include "oracle.h"
extern "C" {
#include "math/poly.h"
#include "gen/field.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one evaluation per degree: the polynomial the table gives is decided irreducible (Rabin's test) or the degree has none; plus one real run per listed degree";
typedef std::vector<uint64_t> V;
struct Sp { int m; std::vector<int> e; };   // x^m + sum x^e + 1
static void reduce(V &v, const Sp &f) {
	for (int i = (int)v.size() * 64 - 64; i >= (f.m / 64) * 64 + 64; i -= 64) {   // whole words above the word holding x^m
		uint64_t w = v[i / 64]; if (!w) continue; v[i / 64] = 0;
		auto put = [&](int s) { int b = i - f.m + s; int q = b >> 6, r = b & 63; if (b < 0) { q = -1; } v[q] ^= w << r; if (r && q + 1 < (int)v.size()) v[q + 1] ^= w >> (64 - r); };
		bool near = false; for (int e : f.e) if (f.m - e < 64) near = true;
		if (near) { v[i / 64] = w; for (int b = 63; b >= 0; b--) if (v[i / 64] >> b & 1) { int k = i + b; v[k / 64] ^= 1ull << (k & 63); for (int e : f.e) { int t = k - f.m + e; v[t / 64] ^= 1ull << (t & 63); } int t = k - f.m; v[t / 64] ^= 1ull << (t & 63); } continue; }
		for (int e : f.e) put(e); put(0);
	}
	for (int k = (f.m / 64) * 64 + 63; k >= f.m; k--) if (k / 64 < (int)v.size() && (v[k / 64] >> (k & 63) & 1)) { v[k / 64] ^= 1ull << (k & 63); for (int e : f.e) { int t = k - f.m + e; v[t / 64] ^= 1ull << (t & 63); } int t = k - f.m; v[t / 64] ^= 1ull << (t & 63); }
}
static uint64_t spread(uint32_t x) { uint64_t v = x; v = (v | v << 16) & 0x0000ffff0000ffffull; v = (v | v << 8) & 0x00ff00ff00ff00ffull; v = (v | v << 4) & 0x0f0f0f0f0f0f0f0full; v = (v | v << 2) & 0x3333333333333333ull; v = (v | v << 1) & 0x5555555555555555ull; return v; }
static void sqr(V &a, V &t, const Sp &f) { size_t W = f.m / 64 + 1; t.assign(2 * W + 1, 0); for (size_t i = 0; i < W; i++) { t[2 * i] = spread((uint32_t)a[i]); t[2 * i + 1] = spread((uint32_t)(a[i] >> 32)); } reduce(t, f); a.assign(t.begin(), t.begin() + W); }
static int deg(const V &v) { for (int i = (int)v.size() - 1; i >= 0; i--) if (v[i]) return i * 64 + 63 - __builtin_clzll(v[i]); return -1; }
static int gcddeg(V a, V b) {
	int da = deg(a), db = deg(b);
	while (db >= 0) {
		while (da >= db) { int s = da - db, q = s / 64, r = s % 64, n = db / 64; for (int i = 0; i <= n; i++) { a[i + q] ^= b[i] << r; if (r && i + q + 1 < (int)a.size()) a[i + q + 1] ^= b[i] >> (64 - r); } int k = da / 64; while (k >= 0 && !a[k]) k--; da = k < 0 ? -1 : k * 64 + 63 - __builtin_clzll(a[k]); }
		std::swap(a, b); std::swap(da, db);
	}
	return da;
}
static bool irred(const Sp &f) {
	if (f.m == 1) return true;
	size_t W = f.m / 64 + 1; V x(W, 0), t, F(W + 1, 0); x[0] = 2; F[0] ^= 1; F[f.m / 64] ^= 1ull << (f.m % 64); for (int e : f.e) F[e / 64] ^= 1ull << (e % 64);
	std::vector<int> stops; for (auto &p : factorize(f.m)) stops.push_back(f.m / (int)p.first);
	for (int i = 1; i <= f.m; i++) {
		sqr(x, t, f);
		if (i <= 20 && i < f.m) { /* cheap early factor detection */ if (i == 1 || i == 6 || i == 14) { V y = x; y[0] ^= 2; y.push_back(0); if (gcddeg(F, y) != 0) return false; } }
		if (std::find(stops.begin(), stops.end(), i) != stops.end()) { V y = x; y[0] ^= 2; y.push_back(0); if (gcddeg(F, y) != 0) return false; }
	}
	V y = x; y[0] ^= 2; return deg(y) < 0;
}
void mod_run() {
	// the oracle itself, against plain trial division
	for (uint64_t p = 4; p < 4096; p++) if (p & 1) { Sp f; f.m = 63 - __builtin_clzll(p); for (int e = f.m - 1; e > 0; e--) if (p >> e & 1) f.e.push_back(e); if (irred(f) != irreducible2(p)) { fprintf(stderr, "irreducibility oracle disagrees with trial division at %llx\n", (unsigned long long)p); exit(3); } }
	int T = thorough ? 1200 : 420;
	parallel(10200, [&](uint64_t k) {
		unsigned long m = 10199 - k;
		S e = unit_run([&] {
			ucount();
			bool in = m >= 2 && m <= 10000;
			if (poly_exists(m) != in) { ufail(fmt("poly_exists(%lu) is %d", m, poly_exists(m))); return; }
			const polynomial_t *p = poly_find(m);
			if (!in) { if (p) ufail(fmt("a polynomial is given for degree %lu", m)); return; }
			if (!p) { ufail(fmt("no polynomial for degree %lu", m)); return; }
			if (p->m != m) { ufail(fmt("degree %u polynomial given for degree %lu", p->m, m)); return; }
			bool tri = !p->e2 && !p->e3;
			S nm = fmt("x^%lu + x^%u + x^%u + x^%u + 1", m, p->e1, p->e2, p->e3);
			if (!(p->e1 && p->e1 < m) || (!tri && !(p->e2 && p->e3 && p->e1 != p->e2 && p->e2 != p->e3 && p->e1 != p->e3 && p->e2 < m && p->e3 < m))) { ufail("not a trinomial or pentanomial: " + nm); return; }
			Sp f; f.m = m; f.e.push_back(p->e1); if (!tri) { f.e.push_back(p->e2); f.e.push_back(p->e3); }
			if (!irred(f)) { ufail("reducible polynomial in the table: " + nm); return; }
			if (!tri && m <= (unsigned long)T) for (unsigned long x = 1; x <= m / 2; x++) { Sp g; g.m = m; g.e.push_back(x); if (irred(g)) { ufail(fmt("degree %lu has the irreducible trinomial with middle term %lu but the table gives a pentanomial", m, x)); return; } }
			if (m <= 600 || m % 100 == 0) { GEN g = poly_gen(p), pv = field_params(g); unsigned ex[4] = {(unsigned)m, p->e1, p->e2, p->e3}; std::sort(ex + 1, ex + 4, std::greater<unsigned>()); for (int i = 0; i < 4; i++) if (!equaliu(gel(pv, i + 1), ex[i])) { ufail(fmt("the field built from the degree %lu entry is not the one of the table", m)); return; } g = poly_find_gen(m); pv = field_params(g); for (int i = 0; i < 4; i++) if (!equaliu(gel(pv, i + 1), ex[i])) { ufail(fmt("poly_find_gen(%lu)", m)); return; } }
		}, 200);
		if (!e.empty()) violation(fmt("degree %lu", m), e); else { ctx.count("degrees"); if (m == 571) sample("degree 571: x^571 + x^10 + x^5 + x^2 + 1 or equivalent entry decided irreducible"); }
	}, 4);
	bound(fmt("all degrees 0..10199; minimality (no irreducible trinomial where a pentanomial is used) for degrees up to %d", T));
	// what the program prints
	std::vector<int> ms; for (int m = 3; m <= (thorough ? 128 : 64); m++) ms.push_back(m); 
	parallel(ms.size(), [&](uint64_t i) {
		int m = ms[i]; Case c; c.args = {"--f2m", "-r", "--points=none", fmt("%d", m)}; c.seed = m; c.tmo = 60; Res r = run_case(c);
		std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty()) { S want = fmt("0x%x", m); Sp f; f.m = m; for (S x : {rec[0].e1, rec[0].e2, rec[0].e3}) { uint64_t v; if (!hex2u(x, v)) e = "exponent " + x; else if (v) f.e.push_back(v); } uint64_t v; if (!hex2u(rec[0].m, v) || (int)v != m) e = "field degree " + rec[0].m; else if (e.empty() && !irred(f)) e = "reducible field polynomial printed"; }
		if (!e.empty()) violation("run " + c.show(), e, &c, &r); else ctx.count("printed_fields");
	});
	for (int m : {10001, 20000}) parallel(1, [&](uint64_t) { Case c; c.args = {"--f2m", "-r", fmt("%d", m)}; Res r = run_case(c); if (!r.exited || r.code == 0 || r.out.find("\"m\"") != S::npos) violation(fmt("degree %d run", m), "a field without a table entry does not end in failure: " + r.ending(), &c, &r); });
}
