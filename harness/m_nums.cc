// NUMS curves (--nums): the one curve the rules single out for each size.
#include "streams.h"
extern "C" {
#include "exhaustive/nums.h"
#include "gen/field.h"
#include "io/output.h"
#include "misc/config.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (size, options, internal random seed); distinct_nontrivial counts printed curves compared with the first one that an independent search finds";
static GEN order_of(GEN a, GEN b, GEN p) { if (expi(p) < 15) { EC E; E.f = Fld::prime(itou(p)); E.a = itou(a); E.b = itou(b); return utoi(E.count()); } return ellcard(ellinit(mkvec2(a, b), p, 0), NULL); }
static GEN field_of(long L) { for (ulong c = 3;; c += 4) { GEN p = subiu(int2n(L), c - 2); if (BPSW_psp(p)) return p; } }
static bool good(GEN p, GEN b) {
	GEN a = subiu(p, 3);
	if (!signe(Fp_add(Fp_mulu(Fp_powu(a, 3, p), 4, p), Fp_mulu(Fp_sqr(b, p), 27, p), p))) return false;
	if (expi(p) >= 15 && glength(polrootsmod(mkpoln(4, gen_1, gen_0, a, b), p))) return false;
	GEN N = order_of(a, b, p), T = subii(shifti(addiu(p, 1), 1), N);
	if (!isprime(N) || !isprime(T) || equalii(N, p)) return false;
	GEN lim = divis(subiu(N, 1), 100), q = gen_1;
	if (expi(N) < 18) { for (uint64_t i = 1; i <= itou(lim); i++) { q = Fp_mul(q, p, N); if (equali1(q)) return false; } return true; }
	return cmpii(znorder(mkintmod(modii(p, N), N), NULL), lim) > 0;
}
static uint64_t first_b(GEN p, uint64_t limit) { for (uint64_t b = 1; b <= limit && (expi(p) > 40 || b < itou(p)); b++) { pari_sp av = avma; bool g = good(p, utoi(b)); avma = av; if (g) return b; } return 0; }
static S rules(const PC &x, GEN p) { // a NUMS curve, whatever its b
	if (!equalii(hex2gen(x.p), p)) return "field.p is not the largest prime = 3 mod 4 of the size, " + S(GENtostr(p));
	if (!equalii(hex2gen(x.a), subiu(p, 3))) return "a is not -3";
	if (!good(p, hex2gen(x.b))) return "the curve does not meet the NUMS conditions (prime order and twist order, embedding degree)";
	if (x.gens.size() != 1) return "not exactly one generator";
	GEN b = hex2gen(x.b), a = subiu(p, 3), Y = NULL, X = gen_1; for (;; X = addiu(X, 1)) { Y = Fp_sqrt(Fp_add(Fp_mul(Fp_add(Fp_sqr(X, p), a, p), X, p), b, p), p); if (Y) break; }
	if (cmpii(shifti(Y, 1), p) > 0) Y = subii(p, Y);
	if (!equalii(hex2gen(x.gens[0].x), X)) return "the generator does not have the least x, " + S(GENtostr(X));
	if (!equalii(hex2gen(x.gens[0].y), Y)) return "the generator does not have the smaller y";
	return "";
}
void mod_run() {
	long F = thorough ? 700 : 400;
	parallel(F - 2, [&](uint64_t i) {
		long L = F - i;
		S e = unit_run([&] { err = stderr; cfg->bits = L; cfg->field = FIELD_PRIME; curve_t c; memset(&c, 0, sizeof c); if (nums_gen_field(&c, NULL, OFFSET_FIELD) != 1 || !equalii(c.field, field_of(L))) { ufail("wrong field " + S(c.field ? GENtostr(c.field) : "none")); return; } nums_gen_a(&c, NULL, OFFSET_A); if (!equalii(field_elementi(c.a), subiu(c.field, 3))) ufail("a is not -3"); }, 100);
		if (!e.empty()) violation(fmt("field %ld", L), e); ctx.distinct++; ctx.count("fields");
	});
	bound(fmt("the field for every size from 3 to %ld bits", F));
	struct W { long L; int opt; uint64_t seed; }; std::vector<W> ws;
	long M = thorough ? 56 : 40;
	for (long L = M; L >= 3; L--) for (int opt = 0; opt < 7; opt++) { if (L > 32 && opt > 1) continue; for (int k = 0; k < (L < 17 ? 3 : 1); k++) ws.push_back({L, opt, (uint64_t)(k * 77 + L + opt)}); }
	parallel(ws.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		W w = ws[i]; pari_sp av = avma; GEN p = field_of(w.L);
		uint64_t b = first_b(p, w.L < 17 ? ~0ull : 1000000);
		if (!b) { ctx.count("sizes_without_a_curve"); avma = av; return; }
		Case c; c.args = {"--fp", "--nums"}; c.seed = w.seed; c.tmo = 300; Expect x; x.bits = w.L; x.field_bits_exact = true; x.prime = x.unique = true; size_t want = 1;
		switch (w.opt) {
			case 1: c.args.push_back("--points=none"); x.pts = PTS_NONE; break;
			case 2: c.args.push_back("--points=all"); c.args.push_back("--metadata"); x.pts = PTS_ALL; x.meta = true; break;
			case 3: c.args.push_back("-c4"); want = 4; break;
			case 4: c.args.push_back("-u"); c.args.push_back("--points=2random"); x.pts = PTS_RANDOM; x.npts = 2; break;
			case 5: c.args.push_back("-p"); c.in = "1\n2\n3\n"; break;
			case 6: c.args.push_back("--timeout=100s"); c.vtimer = true; c.outfile = true; break;
		}
		c.args.push_back(fmt("%ld", w.L));
		Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(c.outfile ? r.file : r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != want) e = fmt("%zu curves instead of %zu", rec.size(), want);
		for (size_t j = 0; j < rec.size() && e.empty(); j++) {
			e = check_record(rec[j], x); if (e.empty()) e = rules(rec[j], p);
			if (e.empty() && j == 0 && !equalii(hex2gen(rec[0].b), utoi(b))) e = "b is not the least that meets the conditions, " + fmt("%llu", (unsigned long long)b);
			if (!e.empty()) e += fmt(" (curve %zu: ", j + 1) + curve_id(rec[j]) + ")";
		}
		if (!e.empty()) violation("run " + c.show(), e, &c, &r); else { ctx.distinct += rec.size(); ctx.count("curves", rec.size()); ctx.count("b_values_searched", b); if (ctx.samples.empty()) sample(c.show() + " -> " + curve_id(rec[0])); }
		avma = av;
	});
	bound(fmt("real runs for every size from 3 to %ld bits that has a NUMS curve, up to 7 option sets each, several internal random seeds", M));
}
