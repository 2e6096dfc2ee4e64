// Pairing-friendly families (--family): which curve every z gives.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (family, stream of z values, options) or per random run; distinct_nontrivial counts printed curves compared with the family's polynomials evaluated independently";
struct Fam { const char *name; int k; long nm, na; std::vector<long> p; long pd; std::vector<long> r; uint64_t rd; bool cm; };
// p and r as polynomials in n (constant term first) over their denominators, n = nm * z + na
static const Fam fams[] = {
	{"BN", 12, 1, 0, {1, 6, 24, 36, 36}, 1, {1, 6, 18, 36, 36}, 1, false},
	{"BLS12", 12, 1, 0, {1, 1, 0, -2, 0, -0, 0}, 3, {1, 0, -1, 0, 1}, 1, false},
	{"BLS24", 24, 1, 0, {}, 3, {1, 0, 0, 0, -1, 0, 0, 0, 1}, 1, false},
	{"KSS16", 16, 70, 25, {3125, 2398, 625, 0, 240, 152, 48, 0, 5, 2, 1}, 980, {625, 0, 0, 0, 48, 0, 0, 0, 1}, 61250, true},
	{"KSS18", 18, 42, 14, {2401, 1763, 343, 259, 188, 37, 7, 5, 1}, 21, {343, 0, 0, 37, 0, 0, 1}, 343, false},
	{"KSS36", 36, 777, 287, {823543, -386569, 117649, 0, 0, 0, 4781, -2510, 683, 0, 0, 0, 7, -4, 1}, 28749, {117649, 0, 0, 0, 0, 0, 683, 0, 0, 0, 0, 0, 1}, 161061481, false},
	{"KSS40", 40, 2370, 1205, {48828125, -13398638, 9765625, 0, 0, 0, 0, 0, 0, 0, 31160, -10568, 6232, 0, 0, 0, 0, 0, 0, 0, 5, -2, 1}, 1123380, {390625, 0, 125000, 0, 24375, 0, 2800, 0, -79, 0, 112, 0, 39, 0, 8, 0, 1}, 2437890625ull, true},
};
static GEN poly(const std::vector<long> &c, GEN n) { GEN r = gen_0; for (size_t i = c.size(); i-- > 0;) r = addis(mulii(r, n), c[i]); return r; }
// is z usable? then p and r
static bool usable(const Fam &f, GEN z, GEN &p, GEN &r) {
	GEN n = addis(mulis(z, f.nm), f.na), pn;
	r = poly(f.r, n); if (signe(remii(r, utoi(f.rd)))) return false; r = diviiexact(r, utoi(f.rd));
	if (f.pd == 3) { pn = addii(mulii(sqri(subis(n, 1)), r), mulis(n, 3)); } else pn = poly(f.p, n);
	if (signe(remii(pn, stoi(f.pd)))) return false;
	p = diviiexact(pn, stoi(f.pd));
	return cmpiu(p, 1) > 0 && cmpiu(r, 1) > 0 && BPSW_psp(p) && BPSW_psp(r);
}
static bool zof(const S &s, GEN &z) { bool neg = s[0] == '-'; S t = neg ? s.substr(1) : s; if (!hex2gen_ok(t)) return false; z = hex2gen(t); if (neg) z = negi(z); return true; }
static S judge(const Fam &f, const PC &x) {
	GEN z, p, r; if (!zof(x.seed, z)) return "unreadable seed " + x.seed;
	if (!usable(f, z, p, r)) return "z = " + S(GENtostr(z)) + " does not give prime p and r";
	if (!equalii(hex2gen(x.p), p)) return "field.p is not p(z) for z = " + S(GENtostr(z));
	GEN N = hex2gen(x.order);
	if (!dvdii(N, r)) return "r(z) does not divide the order, z = " + S(GENtostr(z));
	if (f.cm ? signe(hex2gen(x.b)) : signe(hex2gen(x.a))) return "the j-invariant is not the family's";
	if (cmpiu(r, f.k) > 0) { GEN q = modii(p, r), c = gen_1; for (int i = 1; i <= f.k; i++) { c = Fp_mul(c, q, r); if (equali1(c) != (i == f.k)) return fmt("the embedding degree is not %d", f.k); } }
	return "";
}
void mod_run() {
	struct W { int f; std::vector<S> z; std::vector<S> more; int opt; bool file; long bits; uint64_t seed; bool rnd; };
	std::vector<W> ws;
	auto add = [&](int f, std::vector<S> z, int opt, bool file, long bits) { W w; w.f = f; w.z = z; w.opt = opt; w.file = file; w.bits = bits; w.rnd = false; w.seed = ws.size(); ws.push_back(w); };
	// streams of every z of a range: the output must be exactly the usable ones, in order
	for (int f = 0; f < 7; f++) {
		long R = (f == 0 ? 120 : f == 1 ? 320 : f == 2 ? 180 : f == 3 ? 1400 : f == 4 ? 1000 : f == 5 ? 600 : 300) * (thorough ? 6 : f == 5 ? 1 : 2);
		long step = f < 3 ? 20 : 150; int opt = f;
		for (long lo = -R; lo < R; lo += step) { std::vector<S> z; for (long i = lo; i < lo + step; i++) z.push_back(fmt("%ld", i)); bool far = f > 2 && (lo < -R / 2 || lo >= R / 2); add(f, z, far ? opt % 2 : opt, opt & 1, 12 + (opt % 3) * 8); opt++; }
		// backwards, and the usable ones repeated
		std::vector<S> u; for (long i = R / 2; i > -R / 2; i--) { pari_sp av = avma; GEN p, r; if (usable(fams[f], stoi(i), p, r)) u.push_back(fmt("%ld", i)); avma = av; if (u.size() >= 4) break; }
		std::vector<S> d; for (auto &x : u) { d.push_back(x); d.push_back("0"); d.push_back(x); d.push_back(""); d.push_back("99999999"); } if (u.size()) add(f, d, 0, false, 16);
	}
	// KSS40: usable z, each amid unusable neighbours
	for (long z : {13269, -17077, 22534, -22645, -24481}) { std::vector<S> d; for (long i = -3; i < 2; i++) d.push_back(fmt("%ld", z + i)); d.push_back(fmt("%ld", -z)); add(6, d, z % 2 ? 1 : 0, z & 1, 16); }
	size_t streams = ws.size();
	for (int f = 0; f < 7; f++) for (long b : {2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 32}) for (int k = 0; k < (thorough ? 8 : 3); k++) {
		if ((f == 1 && b < 3) || (f == 2 && b < 4) || (f == 3 && b < 10) || (f == 4 && b < 7) || (f == 5 && b < 9) || (f == 6 && (b < 14 || b > 20))) continue;
		if ((b > 16 && f > 1 && f < 6 && (b > 20 || f != 4))) continue; // factoring the order takes too long for some
		if (f == 2 && b > 12) continue;
		if (!thorough && b > 16 && k) continue;
		if (!thorough && (f == 6 || (f == 5 && b > 10) || (f == 3 && (b > 14 || k)) || (f == 4 && b > 16))) continue;
		if (thorough && f == 5 && b > 12) continue;
		if (b <= 14) { bool any = false; for (long i = 1l << (b - 1); i <= 1l << b && !any; i++) for (int g = -1; g < 2; g += 2) { pari_sp av = avma; GEN p, r; any = any || usable(fams[f], stoi(i * g), p, r); avma = av; } if (!any) continue; }
		W w; w.f = f; w.rnd = true; w.bits = b; w.opt = k; w.seed = k * 1009 + b + f * 77; w.file = false; ws.push_back(w);
	}
	std::reverse(ws.begin(), ws.end());
	parallel(ws.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		W &w = ws[i]; const Fam &f = fams[w.f]; pari_sp av = avma;
		std::vector<GEN> want; std::vector<S> zs; GEN lim = int2n(w.bits);
		for (auto &s : w.z) { zs.push_back(s); if (s.empty()) continue; GEN z = strtoi(s[0] == '-' ? s.c_str() + 1 : s.c_str()), p, r; if (s[0] == '-') z = negi(z); if (abscmpii(z, lim) < 0 && usable(f, z, p, r)) want.push_back(z); }
		if (!w.rnd && want.empty()) { // all of them have to be refused, and the end of the input ends the run
			Case c; c.args = {"--fp", S("--family=") + f.name, fmt("%ld", w.bits)}; c.infile = w.file; for (auto &s : zs) c.in += s + (w.file ? "," : "\n"); c.tmo = 60;
			Res r = run_case(c); if (!r.clean() || r.code == 0 || r.out.find("\"a\"") != S::npos) violation("none " + c.show(), "no z of the input is usable, but the run ended with " + r.ending(), &c, &r); else ctx.count("streams_refused"); avma = av; return;
		}
		Case c; c.args = {"--fp", S(w.seed & 1 ? "--family=" : "-F") + f.name}; Expect x; x.seed = true; x.single_gen_ok = false; x.bits = w.bits; x.pts = PTS_PRIME;
		if (w.seed % 3 == 1) for (auto &ch : c.args[1]) if (w.seed & 1 ? &ch > &c.args[1][8] : &ch > &c.args[1][1]) ch = tolower(ch);
		if (w.opt % 3 == 1) { c.args.push_back("--points=none"); x.pts = PTS_NONE; }
		if (w.opt % 3 == 2) { c.args.push_back("--metadata"); x.meta = true; }
		if (w.rnd) { c.args.push_back("-r"); } else { c.args.push_back(fmt("-c%zu", want.size())); c.infile = w.file; for (auto &s : zs) c.in += s + (w.file ? "," : "\n"); }
		c.args.push_back(fmt("%ld", w.bits)); c.seed = w.seed; c.tmo = 200;
		Res r = run_case(c); std::vector<PC> rec; S e;
		e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != (w.rnd ? 1 : want.size())) e = fmt("%zu curves instead of %zu", rec.size(), w.rnd ? (size_t)1 : want.size());
		for (size_t j = 0; j < rec.size() && e.empty(); j++) {
			Expect y = x; GEN p = hex2gen(rec[j].p); y.bits = std::max<long>(expi(p) + 1, 1); if (y.what & W_CURVE) { // numbers are padded to the requested size, not p's
				y.bits = expi(p) + 1; }
			y.what = W_ALL & ~W_CURVE; e = check_record(rec[j], y);
			if (e.empty()) { BigEC E; S err; EC s; if (small_curve(rec[j], s, err)) { if (s.count() != itou(hex2gen(rec[j].order))) e = "wrong order"; } else if (!big_from(rec[j], E, err)) e = err; else if (!order_is_exactly(E, hex2gen(rec[j].order))) e = "wrong order"; }
			if (e.empty()) e = judge(f, rec[j]);
			GEN z; if (e.empty() && !w.rnd && (!zof(rec[j].seed, z) || !equalii(z, want[j]))) e = "printed z " + rec[j].seed + " is not the next usable one of the input, " + GENtostr(want[j]);
			if (e.empty() && w.rnd) { zof(rec[j].seed, z); if (expi(z) + 1 < w.bits || abscmpii(z, lim) > 0) e = fmt("random z %s is not one of %ld bits", GENtostr(z), w.bits); }
			if (!e.empty()) e += fmt(" (curve %zu: ", j + 1) + curve_id(rec[j]) + ", seed " + rec[j].seed + ")";
		}
		if (!e.empty()) violation("run " + c.show(), e, &c, &r); else { ctx.distinct += rec.size(); ctx.count(S("curves_") + f.name, rec.size()); if (ctx.samples.empty()) sample(c.show().substr(0, 200) + " -> " + fmt("%zu curves, first ", rec.size()) + curve_id(rec[0])); }
		avma = av;
	});
	bound(fmt("%zu input streams that together hold every z of a range around 0 for each of the 7 families, and random z of 2..32 bits", streams));
}
