// --hex-check: what is printed contains the digits, and no curve with the digits in its parameters is passed over.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution of ecgen's main per (field, option set, block of input curves, searched digits); distinct_nontrivial counts printed records whose every number was searched";
static S low(S s) { for (auto &c : s) c = tolower(c); return s; }
static bool has(const S &num, const S &h) { S t = low(num); return t.size() > 2 && t.find(h, t.substr(0, 2) == "0x" ? 2 : 0) != S::npos; }
static bool rec_has(const PC &p, const S &h) {
	for (const S *q : {&p.seed, &p.p, &p.a, &p.b, &p.order}) if (has(*q, h)) return true;
	for (auto &g : p.gens) { if (has(g.x, h) || has(g.y, h)) return true; for (auto &y : g.points) if (has(y.x, h) || has(y.y, h)) return true; }
	return false;
}
struct J { std::vector<Cand> in; Opts o; S h; unsigned bits; bool file; S form; };
static void run1(const J &j) {
	std::vector<Cand> use, want; std::vector<bool> must; size_t nm = 0; int dig = 2 * ((j.bits + 7) / 8); S h = low(j.h);
	for (auto &c : j.in) {
		bool dc, a = acceptable(c, j.o, dc); if (dc) continue; use.push_back(c); if (!a) continue; EC E = cand_ec(c); uint64_t N = E.count(); if (j.o.twist) N = 2 * E.f->q + 2 - N;
		bool m = (!c.bin && has(fmt("0x%0*llx", dig, (unsigned long long)c.p), h)) || has(fmt("0x%llx", (unsigned long long)N), h); if (!j.o.twist) m = m || has(fmt("0x%0*llx", dig, (unsigned long long)E.a), h) || has(fmt("0x%0*llx", dig, (unsigned long long)E.b), h);
		want.push_back(c); must.push_back(m); nm += m;
	}
	if (!nm) { ctx.count("digits_in_no_parameter"); return; }
	Case c; bool bin = use[0].bin; c.args = {bin ? "--f2m" : "--fp", "--hex-check=" + j.form + j.h}; for (auto &x : j.o.args()) c.args.push_back(x); c.args.push_back(fmt("-c%zu", nm)); c.args.push_back(fmt("%u", j.bits)); c.infile = j.file; for (auto &x : use) c.in += cand_text(x, false, j.file ? ',' : '\n'); c.tmo = 60;
	Res r = run_case(c); S e; std::vector<PC> rec; Expect x; x.bin = bin; x.bits = j.bits; j.o.expect(x);
	if (!r.ok()) e = fmt("%zu input curves have the digits in their parameters, but the run ended with ", nm) + r.ending(); else e = parse_output(r.out, rec);
	if (e.empty() && rec.size() != nm) e = fmt("%zu records, %zu requested", rec.size(), nm);
	size_t w = 0;
	for (size_t i = 0; i < rec.size() && e.empty(); i++) {
		e = check_record(rec[i], x); if (e.empty() && !rec_has(rec[i], h)) e = "no number in the record contains " + h; EC G; if (e.empty() && !j.o.twist && small_curve(rec[i], G, e)) { for (;; w++) { if (w == want.size()) { e = "not a later input curve"; break; } EC W = cand_ec(want[w]); if (W.f->q == G.f->q && W.f->poly == G.f->poly && W.a == G.a && W.b == G.b) { w++; break; } if (must[w]) { e = "the earlier input curve " + cand_id(want[w]) + " has the digits in its parameters and was passed over"; break; } } }
		if (!e.empty()) e = curve_id(rec[i]) + ": " + e;
	}
	if (!e.empty()) violation("hex " + j.h + j.o.name() + " " + cand_id(use[0]), e, &c, &r); else { ctx.distinct += rec.size(); ctx.count("records_searched", rec.size()); }
}
void mod_run() {
	std::vector<Opts> os; { Opts o; os.push_back(o); o.pts = PTS_ALL; os.push_back(o); o.pts = PTS_NONE; os.push_back(o); o = Opts(); o.pts = PTS_RANDOM; o.npts = 3; os.push_back(o); o = Opts(); o.pts = PTS_NONPRIME; o.meta = true; os.push_back(o); o = Opts(); o.twist = true; os.push_back(o); o = Opts(); o.cofactor = 2; os.push_back(o); o = Opts(); o.unique = true; o.pts = PTS_ALL; os.push_back(o); }
	std::vector<J> js; auto block = [&](std::vector<Cand> all, unsigned bits, uint64_t maxh) {
		for (size_t k = 0; k < os.size(); k++) for (uint64_t v = 0; v < maxh; v++) { if (!thorough && k && (v + k) % 5) continue; std::vector<S> hs = {fmt("%llx", (unsigned long long)v)}; if (thorough || v < 32) hs.push_back("0" + hs[0]); if (v < 16 && (thorough || bits > 8)) hs.push_back("00" + hs[0]); if (v % 5 == 0) hs.push_back(fmt("%llX", (unsigned long long)v)); for (size_t q = 0; q < hs.size(); q++) { size_t step = thorough ? 60 : 170, off = (v * 37 + k * 11) % all.size(); std::vector<Cand> in; for (size_t z = 0; z < (thorough ? 160 : 90); z++) in.push_back(all[(off + z * 7) % all.size()]); js.push_back({in, os[k], hs[q], bits, v % 3 == 0, v % 7 == 3 ? S("0x") : v % 7 == 5 ? S("0X") : S()}); } }
	};
	block(fp_all(29), 5, 0x40); block(fp_all(31), 9, thorough ? 0x40 : 0x20); block(fp_all(251), 8, thorough ? 0x200 : 0x100); block(f2m_all(5, 2, 0, 0), 5, 0x30); block(f2m_all(8, 4, 3, 1), 8, thorough ? 0x130 : 0x60);
	{ std::vector<Cand> c; for (uint64_t p : {65521ull, 40961ull, 4093ull, 257ull}) for (uint64_t a = 1; a < 40; a++) { Cand d; d.p = p; d.a = a * a * 31 % p; d.b = (a * 77773) % p; c.push_back(d); } block(c, 16, thorough ? 0x1000 : 0x80); }
	parallel(js.size(), [&](uint64_t i) { if (!out_of_time()) run1(js[i]); });
	bound(fmt("%zu runs: every search of up to two (three) hexadecimal digits, and leading zeros before them, with and without 0x, upper and lower case, x %zu option sets (in the quick run each search with the default and one or two others) x fields of 5, 8, 9, 16 bits and GF(2^5), GF(2^8)", js.size(), os.size()));
	{ Case c; c.args = {"--fp", "--hex-check=1f0", "16"}; sample(c.show()); }
}
