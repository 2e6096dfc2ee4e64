#include "streams.h"
unsigned bits_of(uint64_t v) { return v ? 64 - __builtin_clzll(v) : 0; }
std::vector<S> Opts::args() const {
	std::vector<S> r;
	static const char *n[] = {"prime", "nonprime", "all", "none", "random", ""};
	if (pts != PTS_PRIME || npts >= 0) r.push_back(npts >= 0 ? fmt("--points=%d%s", npts, n[pts]) : fmt("--points=%s", n[pts]));
	if (unique) r.push_back("-u");
	if (prime) r.push_back("-p");
	if (meta) r.push_back("--metadata");
	if (twist) r.push_back("--twist");
	if (cofactor) r.push_back(fmt("-k%llu", (unsigned long long)cofactor));
	if (smooth) r.push_back(fmt("-B%llu", (unsigned long long)smooth));
	if (koblitz >= 0) r.push_back(fmt("-K%d", koblitz));
	return r;
}
S Opts::name() const { S r; for (auto &x : args()) r += " " + x; return r; }
void Opts::expect(Expect &x) const { x.pts = pts; x.npts = npts > 0 ? npts : 0; x.unique = unique; x.prime = prime; x.meta = meta; x.cofactor = cofactor; x.smooth = smooth; x.koblitz = koblitz >= 0 && !twist; x.kob_a = koblitz; }
S cand_text(const Cand &c, bool fo, char d) {
	S r = c.bin ? fmt("%d%c%d%c%d%c%d%c", c.m, d, c.e1, d, c.e2, d, c.e3, d) : fmt("%llu%c", (unsigned long long)c.p, d);
	if (!fo) r += fmt("%llu%c%llu%c", (unsigned long long)c.a, d, (unsigned long long)c.b, d);
	return r;
}
std::vector<Cand> fp_all(uint64_t p) { std::vector<Cand> r; for (uint64_t a = 0; a < p; a++) for (uint64_t b = 0; b < p; b++) { Cand c; c.p = p; c.a = a; c.b = b; r.push_back(c); } return r; }
std::vector<Cand> f2m_all(int m, int e1, int e2, int e3) {
	std::vector<Cand> r;
	for (uint64_t a = 0; a < 1ull << m; a++) for (uint64_t b = 0; b < 1ull << m; b++) { Cand c; c.bin = true; c.m = m; c.e1 = e1; c.e2 = e2; c.e3 = e3; c.a = a; c.b = b; r.push_back(c); }
	return r;
}
std::vector<std::vector<int>> f2m_polys(int m) {
	std::vector<std::vector<int>> r;
	for (int e = 1; e < m; e++) if (irreducible2(1ull << m | 1ull << e | 1)) r.push_back({e, 0, 0});
	for (int x = m - 1; x > 0; x--) for (int y = x - 1; y > 0; y--) for (int z = y - 1; z > 0; z--) if (irreducible2(1ull << m | 1ull << x | 1ull << y | 1ull << z | 1)) r.push_back({x, y, z});
	return r;
}
EC cand_ec(const Cand &c) {
	EC E;
	if (c.bin) { uint64_t poly = 1ull << c.m | 1; for (int e : {c.e1, c.e2, c.e3}) if (e) poly |= 1ull << e; E.f = Fld::binary(c.m, poly); E.a = c.a % E.f->q; E.b = c.b % E.f->q; }
	else { E.f = Fld::prime(c.p); E.a = c.a % c.p; E.b = c.b % c.p; }
	return E;
}
S cand_id(const Cand &c) { return c.bin ? fmt("GF(2^%d):%d,%d,%d a=%llu b=%llu", c.m, c.e1, c.e2, c.e3, (unsigned long long)c.a, (unsigned long long)c.b) : fmt("p=%llu a=%llu b=%llu", (unsigned long long)c.p, (unsigned long long)c.a, (unsigned long long)c.b); }
bool acceptable(const Cand &c0, const Opts &o, bool &dc) {
	dc = false;
	Cand c = c0;
	if (o.koblitz >= 0) { c.a = o.koblitz; c.b = 1; }
	if (!c.bin && c.p == 2) return false;
	EC E = cand_ec(c);
	if (E.singular()) return false;
	uint64_t N = E.count();
	if (o.twist) N = 2 * E.f->q + 2 - N;
	if (N == 1 && (o.unique || o.cofactor || o.pts == PTS_RANDOM || o.prime)) { dc = true; return false; }
	if (o.prime && !is_prime64(N)) return false;
	if (o.cofactor && (N % o.cofactor || !is_prime64(N / o.cofactor))) return false;
	if (o.smooth) for (auto &f : factorize(N)) if (bits_of(f.first) > o.smooth) return false;
	if (o.unique) {
		uint64_t n1, n2;
		EC T = E;
		if (o.twist) { // a quadratic twist: any non-residue will do
			if (!c.bin) { uint64_t d = 2; while (d < c.p && E.f->pw(d, (c.p - 1) / 2) == 1) d++; T.a = E.f->mul(E.f->mul(d, d), E.a); T.b = E.f->mul(E.f->mul(E.f->mul(d, d), d), E.b); }
			else { uint64_t d = 1; while (!E.f->trc[d]) d++; T.a = E.a ^ d; }
		}
		T.group(N, n1, n2); if (n1 != 1) return false;
	}
	return true;
}
void run_stream(const Stream &s, unsigned what, bool seq, const std::function<S(const std::vector<PC> &, const Res &, const Case &)> &also) {
	std::vector<Cand> in, want;
	for (auto &c : s.in) { bool dc, a = acceptable(c, s.o, dc); if (dc) continue; in.push_back(c); if (a) want.push_back(c); }
	if (want.empty()) { ctx.count("streams_with_no_acceptable_curve"); return; }
	Case c;
	bool bin = in[0].bin;
	c.args = {bin ? "--f2m" : "--fp"};
	for (auto &x : s.o.args()) c.args.push_back(x);
	for (auto &x : s.more) c.args.push_back(x);
	c.args.push_back(fmt("-c%zu", want.size())); c.args.push_back(fmt("%u", s.bits));
	c.infile = s.infile;
	for (auto &x : in) c.in += cand_text(x, s.o.koblitz >= 0, s.infile ? ',' : '\n');
	c.tmo = 60;
	Res r = run_case(c);
	S name = s.o.name();
	S key = (bin ? S("f2m ") : S("fp ")) + name + ": " + cand_id(in[0]);
	if (!r.ok()) { violation("end " + key, "a run whose input contains exactly the requested number of acceptable curves ended with: " + r.ending(), &c, &r); return; }
	std::vector<PC> recs; S e = parse_output(r.out, recs);
	if (!e.empty()) { violation("json " + key, e, &c, &r); return; }
	Expect x; x.bin = bin; x.bits = s.bits; x.what = what; s.o.expect(x);
	if (seq && recs.size() != want.size()) { violation("count " + key, fmt("%zu curves printed, %zu requested", recs.size(), want.size()), &c, &r); return; }
	for (size_t i = 0; i < recs.size(); i++) {
		Cand w = i < want.size() ? want[i] : want[0];
		if (s.o.koblitz >= 0) { w.a = s.o.koblitz; w.b = 1; }
		if (seq && !s.o.twist) {
			EC G, W = cand_ec(w); S err;
			bool ok = small_curve(recs[i], G, err) && G.a == W.a && G.b == W.b && G.f->q == W.f->q && G.f->poly == W.f->poly;
			if (!ok) { violation("seq " + key + " #" + cand_id(w), fmt("curve %zu of the output is %s, the next acceptable input is ", i + 1, curve_id(recs[i]).c_str()) + cand_id(w), &c, &r); return; }
		}
		S er = check_record(recs[i], x);
		if (!er.empty()) { violation("rec " + name + ": " + curve_id(recs[i]), curve_id(recs[i]) + ": " + er, &c, &r); return; }
		ctx.count("curves_checked");
	}
	ctx.distinct += recs.size();
	if (also) { S er = also(recs, r, c); if (!er.empty()) violation("also " + key, er, &c, &r); }
	if (ctx.samples.size() < 1) sample(c.show().substr(0, 300) + " -> " + fmt("%zu records, first %s order %s", recs.size(), curve_id(recs[0]).c_str(), recs[0].order.c_str()));
}
