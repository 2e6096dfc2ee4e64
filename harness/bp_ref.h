// Independent implementation of the Brainpool procedures, and the comparison with a printed record.
#pragma once
#include "oracle.h"
#include "sha.h"
static S low(S s) { for (auto &c : s) c = tolower(c); return s; }
struct Ref { GEN p, a, b, n, k; S seed; uint64_t steps = 0; bool none = false, degenerate = false; };
static GEN hashv(const S &s, long L, int extra) { long v = (L - 1) / 160, w = L - 1 - 160 * v; return bin2gen(seed_bits(s, w + extra, v)); }
// order of y^2 = x^3 + ax + b over F_p
static uint64_t small_count(GEN a, GEN b, GEN p) { EC E; E.f = Fld::prime(itou(p)); E.a = itou(a); E.b = itou(b); return E.count(); }
static GEN order_of(GEN a, GEN b, GEN p) { if (expi(p) < 15) return utoi(small_count(a, b, p)); GEN E = ellinit(mkvec2(a, b), p, 0); return expi(p) < 40 ? ellcard(E, NULL) : ellsea(E, 1); }
// The first usable field from seed s on; n counts seeds passed over.
static GEN field_from(S &s, long L, uint64_t &n, uint64_t limit) {
	GEN lo = int2n(L - 1), hi = int2n(L); pari_sp top = avma;
	for (;; s = addseed(s, 1), n++, avma = top) {
		if (n > limit) return NULL;
		GEN p = addiu(hashv(s, L, 1), 1);
		if (cmpiu(p, 3) <= 0) p = utoi(3);
		while (mod4(p) != 3 || !ispseudoprime(p, 0)) p = addiu(p, 1);
		if (cmpii(p, lo) >= 0 && cmpii(p, hi) < 0) return p;
	}
}
// the first usable equation from seed s on; s ends at b's seed
static bool equation_from(S &s, long L, bool rfc, GEN p, GEN &a, GEN &b, uint64_t &n, uint64_t limit) {
	auto next = [&] { s = addseed(s, 1); n++; };
	pari_sp top = avma;
	for (;; next()) {
		avma = top;
		if (n > limit) return false;
		a = hashv(s, L, 0);
		if (dvdii(a, p) || kronecker(Fp_div(stoi(-3), a, p), p) < 0) continue; // p = 3 mod 4: the squares are the fourth powers
		next(); b = hashv(s, L, 0);
		if (rfc) { while (kronecker(b, p) >= 0) { if (n > limit) return false; next(); b = hashv(s, L, 0); } }
		else if (kronecker(b, p) < 0) continue;
		if (signe(Fp_add(Fp_mulu(Fp_powu(a, 3, p), 4, p), Fp_mulu(Fp_sqr(b, p), 27, p), p))) return true;
	}
}
// what the procedure does from seed s; gives up after `limit` seeds
static Ref reference(const S &s0, long L, bool rfc, uint64_t limit) {
	Ref R; S s = s0; uint64_t n = 0;
	auto next = [&] { s = addseed(s, 1); n++; };
	pari_sp top = avma;
	for (;; next()) {
		avma = top;
		GEN a, b, p = field_from(s, L, n, limit);
		if (!p) { R.none = true; return R; }
		next();
		if (!equation_from(s, L, rfc, p, a, b, n, limit)) { R.none = true; return R; }
		GEN N = order_of(a, b, p);
		if (!isprime(N) || cmpii(N, p) >= 0) continue;
		next();
		GEN k = hashv(s, L, 0);
		if (dvdii(k, N)) continue; // no generator
		GEN lim = divis(subiu(N, 1), 100), q = gen_1; bool bad = false; // embedding degree
		if (expi(N) < 20) { for (uint64_t i = 1; i <= itou(lim); i++) { q = Fp_mul(q, p, N); if (equali1(q)) { bad = true; break; } } }
		else bad = cmpii(znorder(mkintmod(modii(p, N), N), NULL), lim) <= 0;
		if (bad) continue;
		R.p = p; R.a = a; R.b = b; R.n = N; R.k = k; R.seed = s; R.steps = n; return R;
	}
}
static S seedn(uint64_t k) { S s = sha(fmt("brainpool %llu", (unsigned long long)k)); if (k % 9 == 1) s = S(2, 0) + s.substr(2); if (k % 9 == 2) s = S(18, (char)0xff) + s.substr(0, 2); if (k % 9 == 3) s = S(19, (char)0xff) + s.substr(0, 1); if (k % 9 == 4) s = S(20, (char)0xff); if (k % 9 == 5) s = S(20, 0); if (k % 9 == 6) s = s.substr(0, 18) + S(2, (char)0xff); S h = tohex(s); if (k % 9 == 7) for (auto &c : h) c = toupper(c); return h; }
static S compare(const PC &x, const Ref &R, int *ysel) {
	if (!equalii(hex2gen(x.p), R.p)) return "field.p is not the prime the seed determines, " + S(GENtostr(R.p));
	if (!equalii(hex2gen(x.a), R.a)) return "a is not the one the seed determines, " + S(GENtostr(R.a));
	if (!equalii(hex2gen(x.b), R.b)) return "b is not the one the seed determines, " + S(GENtostr(R.b));
	if (!equalii(hex2gen(x.order), R.n)) return "order should be " + S(GENtostr(R.n));
	if (low(x.seed) != "0x" + low(R.seed)) return "printed seed " + x.seed + " is not the last one used, " + R.seed;
	if (x.gens.size() != 1) return "not exactly one generator";
	BigEC E; S err; if (!big_from(x, E, err)) return err;
	GEN X = gen_0, Y = NULL; for (;; X = addiu(X, 1)) { GEN r = Fp_add(Fp_add(Fp_powu(X, 3, R.p), Fp_mul(R.a, X, R.p), R.p), R.b, R.p); Y = Fp_sqrt(r, R.p); if (Y) break; }
	GEN G = mkvec2(hex2gen(x.gens[0].x), hex2gen(x.gens[0].y)), Q = E.mul(mkvec2(X, Y), R.k), Qm = typ(Q) == t_INT ? Q : E.neg(Q);
	if (typ(Q) == t_INT) return "no generator: k is a multiple of the order";
	if (!(equalii(gel(G, 1), gel(Q, 1)) && equalii(gel(G, 2), gel(Q, 2))) && !(equalii(gel(G, 1), gel(Qm, 1)) && equalii(gel(G, 2), gel(Qm, 2)))) return "the generator is not k times the point of least x";
	if (ysel) *ysel = equalii(gel(G, 2), gel(Q, 2));
	if (!equalii(hex2gen(x.gens[0].order), R.n) || !equali1(hex2gen(x.gens[0].cofactor))) return "order or cofactor of the generator is wrong";
	return "";
}
