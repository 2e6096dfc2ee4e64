// The core generators: every curve over small fields given as input, every random
// answer on small fields, and a size ladder.  Serves C01..C05 with different claims judged.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution of ecgen's main per (field, option set, block of input curves / random answers); distinct_nontrivial counts distinct printed curves whose claims were judged by brute force";
static unsigned what; static bool seq;
static std::vector<Opts> optsets(bool full) {
	std::vector<Opts> r; Opts o;
	auto add = [&](std::function<void(Opts &)> f) { Opts x; f(x); r.push_back(x); };
	bool pts = prop == "C03", meta = prop == "C04", cons = prop == "C05", gens = prop == "C02";
	if (!meta && !cons) add([](Opts &x) {});
	if (pts || full) {
		add([](Opts &x) { x.pts = PTS_ALL; }); add([](Opts &x) { x.pts = PTS_NONPRIME; });
		if (pts) { add([](Opts &x) { x.pts = PTS_NONE; }); add([](Opts &x) { x.pts = PTS_RANDOM; }); add([](Opts &x) { x.pts = PTS_RANDOM; x.npts = 5; }); add([](Opts &x) { x.pts = PTS_ALL; x.unique = true; }); add([](Opts &x) { x.pts = PTS_RANDOM; x.npts = 2; x.prime = true; });
			add([](Opts &x) { x.pts = PTS_ALL; x.cofactor = 4; }); add([](Opts &x) { x.pts = PTS_PRIME; x.cofactor = 6; }); add([](Opts &x) { x.pts = PTS_NONPRIME; x.twist = true; }); add([](Opts &x) { x.pts = PTS_RANDOM; x.npts = 1; x.smooth = 3; }); }
	}
	if (meta || full) { add([](Opts &x) { x.meta = true; x.pts = PTS_NONE; }); if (meta) { add([](Opts &x) { x.meta = true; x.prime = true; }); add([](Opts &x) { x.meta = true; x.twist = true; x.pts = PTS_NONE; }); add([](Opts &x) { x.meta = true; x.unique = true; x.pts = PTS_ALL; }); add([](Opts &x) { x.meta = true; x.koblitz = 1; }); add([](Opts &x) { x.pts = PTS_NONE; }); add([](Opts &x) { x.meta = true; x.cofactor = 2; }); add([](Opts &x) { x.meta = true; x.smooth = 3; x.pts = PTS_NONE; }); } }
	if (cons || full) {
		add([](Opts &x) { x.unique = true; }); add([](Opts &x) { x.prime = true; });
		add([](Opts &x) { x.koblitz = 0; }); add([](Opts &x) { x.koblitz = 1; });
		add([](Opts &x) { x.cofactor = 2; }); add([](Opts &x) { x.cofactor = 4; }); add([](Opts &x) { x.cofactor = 3; });
		add([](Opts &x) { x.smooth = 2; }); add([](Opts &x) { x.smooth = 3; });
	}
	if (cons || gens) {
		add([](Opts &x) { x.unique = true; x.smooth = 4; x.pts = PTS_NONE; });
		for (int k : {1, 5, 6, 7, 8, 9, 12}) add([k](Opts &x) { x.cofactor = k; x.pts = PTS_NONE; });
		add([](Opts &x) { x.unique = true; x.cofactor = 4; x.pts = PTS_NONE; });
		add([](Opts &x) { x.prime = true; x.unique = true; x.pts = PTS_NONE; });
		add([](Opts &x) { x.koblitz = 1; x.unique = true; x.pts = PTS_NONE; }); add([](Opts &x) { x.koblitz = 0; x.cofactor = 4; x.pts = PTS_NONE; });
		for (int k : {1, 4, 5, 6}) add([k](Opts &x) { x.smooth = k; x.pts = PTS_NONE; });
	}
	return r;
}
static std::vector<Stream> streams() {
	std::vector<Stream> v;
	auto blocks = [&](const std::vector<Cand> &all, const Opts &o, unsigned bits, bool infile) {
		size_t n = 600;
		if (o.koblitz >= 0) { Stream s; s.in = {all[0]}; s.o = o; s.bits = bits; s.infile = infile; v.push_back(s); return; }
		for (size_t i = 0; i < all.size(); i += n) { Stream s; s.in.assign(all.begin() + i, all.begin() + std::min(all.size(), i + n)); s.o = o; s.bits = bits; s.infile = infile; v.push_back(s); }
	};
	uint64_t P = thorough ? 257 : prop == "C03" ? 79 : prop == "C01" ? 151 : 103; int M = thorough ? 7 : 6;
	for (uint64_t p = 2; p <= P; p++) if (is_prime64(p)) { auto all = fp_all(p); for (auto &o : optsets(p <= (thorough ? 61 : 31))) blocks(all, o, bits_of(p) < 2 ? 2 : bits_of(p), false); }
	for (int m = 2; m <= M; m++) { auto ps = f2m_polys(m); for (auto &q : ps) { if (m >= 6 && q != ps[0] && !thorough) continue; if (m == 7 && q != ps[0]) continue; auto all = f2m_all(m, q[0], q[1], q[2]); for (auto &o : optsets(m <= 5)) blocks(all, o, m, false); } }
	// a mixed stream (state carried between curves of one run, several fields)
	std::vector<uint64_t> pr = {251, 3, 31, 13, 7, 241, 11, 5, 127, 2, 101};
	for (auto &o : optsets(true)) {
		std::vector<Cand> in; for (uint64_t k = 0; k < 400; k++) { Cand c; c.p = pr[k % pr.size()]; c.a = (k * 7 + k / 11) % 256; c.b = (k * k + 3 * k + 1) % 256; in.push_back(c); }
		for (bool f : {false, true}) for (unsigned b : {8u, 9u, 16u, 20u, 64u}) { Stream s; s.in = in; s.o = o; s.bits = b; s.infile = f; if (o.koblitz >= 0) s.in.resize(pr.size()); v.push_back(s); }
		for (int m : {7, 8, 9, 10, 11, 12}) { auto ps = f2m_polys(m); std::vector<Cand> in; for (uint64_t k = 0; k < (o.koblitz >= 0 ? ps.size() : 120); k++) { auto &q = ps[k % ps.size()]; Cand c; c.bin = true; c.m = m; c.e1 = q[0]; c.e2 = q[1]; c.e3 = q[2]; c.a = (k * 37 + k / 3) % (1 << m); c.b = (k * k + 5 * k) % (1 << m); in.push_back(c); } Stream s; s.in = in; s.o = o; s.bits = m; s.infile = m & 1; v.push_back(s); }
	}
	return v;
}
// ---- random environments: all answers to the first K random requests ----
static void dfs_random(const Case &base, const Expect &x, size_t K, size_t fieldsz_cap) {
	std::vector<std::vector<uint64_t>> stack = {{}};
	while (!stack.empty()) {
		if (out_of_time()) return;
		std::vector<uint64_t> t = stack.back(); stack.pop_back();
		Case c = base; c.tape_on = true; c.tape = t;
		Res r = run_case(c);
		ctx.count("random_choice_nodes");
		if (!r.ok()) { violation("rnd-end " + c.show(), "random generation ended with: " + r.ending(), &c, &r); continue; }
		std::vector<PC> recs; S e = parse_output(r.out, recs);
		if (e.empty() && recs.size() != 1) e = "not exactly one curve printed";
		if (e.empty()) e = check_record(recs[0], x);
		if (!e.empty()) { violation("rnd " + c.show(), e, &c, &r); continue; }
		ctx.distinct++;
		if (t.size() < K && t.size() < r.reqs.size()) {
			uint64_t sz = r.reqs[t.size()].size;
			if (sz && sz <= fieldsz_cap) for (uint64_t v = sz; v-- > 0;) { auto u = t; u.push_back(v); stack.push_back(u); }
		}
	}
}
// ---- input curves of any wanted order shape: supersingular ones over p = k * q - 1 have k * q points ----
struct Sup { uint64_t k; long qbits; S p; int a, b; bool cyclic; };
static std::vector<Sup> sups(const std::vector<uint64_t> &ks, const std::vector<long> &qs) {
	std::vector<Sup> r;
	for (uint64_t k : ks) for (long qb : qs) {
		pari_sp av = avma; GEN q = addiu(int2n(qb - 1), (k % 7) * 3 + 1), P = NULL;
		if (qb < 8) q = int2n(qb - 1);
		while (true) { q = nextprime(addis(q, 1)); P = subis(mulii(utoi(k), q), 1); if (isprime(P) && (mod4(P) == 3 || umodiu(P, 3) == 2)) break; if (expi(q) >= qb) break; }
		if (expi(q) + 1 == qb && isprime(P)) {
			S ps = GENtostr(P); bool m4 = mod4(P) == 3;
			if (m4) { r.push_back({k, qb, ps, 1, 0, true}); r.push_back({k, qb, ps, -1, 0, false}); } else r.push_back({k, qb, ps, 0, 1, true});
		}
		avma = av;
	}
	return r;
}
static void orders_stage() {
	struct Run { std::vector<S> a; std::vector<Sup> in, want; Opts o; bool file; };
	std::vector<Run> rs;
	auto run = [&](const std::vector<Sup> &in, const Opts &o, const std::function<bool(const Sup &)> &acc, bool file) { Run r; r.in = in; r.o = o; r.file = file; for (auto &c : in) if (acc(c) && (!o.unique || c.cyclic)) r.want.push_back(c); if (r.want.size()) rs.push_back(r); };
	if (prop == "C05" || prop == "C02") {
		std::vector<uint64_t> ks = {4, 6, 8, 12, 16, 18, 20, 24, 30, 32, 36, 60, 64, 100, 128, 132, 196, 252, 256, 260, 300, 360, 512, 516, 1000, 1024, 4096, 65532, 65536, 65540, 1000000, 16777216, 2147483648ull, 4294967292ull, 4294967296ull, 4294967300ull, 1ull << 40, 1ull << 62};
		auto in = sups(ks, {9, 20, 33, 64}); std::vector<Sup> mix; for (size_t i = 0; i < in.size(); i++) mix.push_back(in[i * 37 % in.size()]);
		if (in.size() % 37 == 0) mix = in;
		int n = 0;
		for (uint64_t k : ks) { Opts o; o.cofactor = k; o.pts = n % 3 == 1 ? PTS_PRIME : PTS_NONE; o.unique = n % 5 == 2; n++; std::vector<Sup> part; for (size_t i = 0; i < mix.size(); i++) if (mix[i].k == k || (i + n) % 6 == 0) { bool amb = mix[i].k != k && (mix[i].qbits < 10 && k > 300); if (!amb) part.push_back(mix[i]); } run(part, o, [k](const Sup &c) { return c.k == k; }, n & 1); }
		auto in2 = sups({4, 12, 60, 30, 4096}, {7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 34, 40, 47, 48, 49, 62, 63, 64, 65, 66, 96});
		for (long B : {7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 34, 40, 48, 62, 63, 64, 65, 95, 96, 97, 1000}) { Opts o; o.smooth = B; o.pts = PTS_NONE; run(in2, o, [B](const Sup &c) { return c.qbits <= B; }, B & 1); }
	}
	if (prop == "C03" || prop == "C04" || prop == "C02") {
		auto in = sups({4, 8, 12, 24, 36, 60, 64, 180, 360, 840, 2520, 5040, 1024, 1296, 10000, 30030 * 2, 46656, 1ull << 14}, {3, 5, 9, 17, 32, 33, 64, 65});
		std::vector<Opts> os; for (PTS t : {PTS_ALL, PTS_NONPRIME, PTS_PRIME}) { Opts o; o.pts = t; os.push_back(o); }
		for (int n : {16, 17, 64, 100, 127, 128, 255, 256, 257, 300, 1000}) { Opts o; o.pts = PTS_RANDOM; o.npts = n; os.push_back(o); }
		if (prop == "C04") { os.clear(); Opts o; o.meta = true; o.pts = PTS_NONE; os.push_back(o); }
		if (prop == "C02") { os.resize(1); }
		for (auto &o : os) for (size_t i = 0; i < in.size(); i += 6) { std::vector<Sup> part(in.begin() + i, in.begin() + std::min(in.size(), i + 6)); if (o.npts > 20) part = {in[(i * 5 + o.npts) % in.size()]}; if (o.npts > 200 && i % 4) continue; run(part, o, [](const Sup &) { return true; }, i & 1); }
		for (S m : {"127", "8191", "131071"}) for (int a : {1, -1}) for (auto &o : os) if (o.npts < 20) run({{0, 0, m, a, 0, a == 1}}, o, [](const Sup &) { return true; }, false);
	}
	parallel(rs.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		Run &w = rs[i]; Case c; c.args = {"--fp"}; for (auto &y : w.o.args()) c.args.push_back(y); c.args.push_back(fmt("-c%zu", w.want.size())); c.args.push_back("170"); c.infile = w.file; c.tmo = 120;
		for (auto &y : w.in) c.in += y.p + fmt(w.file ? ",%d,%d," : "\n%d\n%d\n", y.a, y.b);
		Res r = run_case(c); std::vector<PC> recs; S e = r.ok() ? parse_output(r.out, recs) : "ended with " + r.ending();
		if (e.empty() && recs.size() != w.want.size()) e = fmt("%zu curves instead of %zu", recs.size(), w.want.size());
		Expect x; x.bits = 170; x.what = what; w.o.expect(x);
		for (size_t j = 0; j < recs.size() && e.empty(); j++) {
			pari_sp av = avma; GEN P = hex2gen(recs[j].p); auto &q = w.want[j];
			if (!equalii(P, strtoi(q.p.c_str())) || !equalii(hex2gen(recs[j].a), modii(stoi(q.a), P)) || !equalii(hex2gen(recs[j].b), stoi(q.b))) e = "it is not the next acceptable curve of the input, p = " + q.p + fmt(", a = %d, b = %d", q.a, q.b);
			if (e.empty()) e = check_record(recs[j], x);
			if (!e.empty()) e = fmt("curve %zu: ", j + 1) + curve_id(recs[j]) + ": " + e;
			avma = av;
		}
		if (!e.empty()) violation("orders " + c.show(), e, &c, &r); else { ctx.distinct += recs.size(); ctx.count("curves_of_chosen_order", recs.size()); }
	});
	if (rs.size()) bound(fmt("%zu streams of input curves with chosen orders k * q, q prime of up to 96 bits: cofactors to 2^62, smoothness bounds to 97 bits, orders with many divisors, up to 1000 random points", rs.size()));
}
// ---- long runs: hundreds of curves ----
static void long_stage() {
	struct Run { bool bin; int bits; Opts o; int n; }; std::vector<Run> rs; int k = 0;
	for (auto &o : optsets(false)) { if (o.twist || o.koblitz >= 0 || o.cofactor > 2 || o.cofactor == 1 || (o.smooth && o.smooth < 4)) continue; for (int bin = 0; bin < 2; bin++) { if (bin && (o.prime || o.cofactor)) continue; rs.push_back({(bool)bin, bin ? 7 : 8, o, k++ % 2 ? 300 : 140}); } }
	parallel(rs.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		auto &w = rs[i]; Case c; c.args = {w.bin ? "--f2m" : "--fp", "-r", fmt("-c%d", w.n)}; for (auto &y : w.o.args()) c.args.push_back(y); c.args.push_back(fmt("%d", w.bits)); c.seed = 5 + i; c.tmo = 120;
		Expect x; x.bin = w.bin; x.bits = w.bits; x.what = what; w.o.expect(x); x.field_bits_exact = true;
		Res r = run_case(c); std::vector<PC> recs; S e = r.ok() ? parse_output(r.out, recs) : "ended with " + r.ending();
		if (e.empty() && (int)recs.size() != w.n) e = fmt("%zu curves instead of %d", recs.size(), w.n);
		for (size_t j = 0; j < recs.size() && e.empty(); j++) { e = check_record(recs[j], x); if (!e.empty()) e = fmt("curve %zu: ", j + 1) + curve_id(recs[j]) + ": " + e; }
		if (!e.empty()) violation("long " + c.show(), e, &c, &r); else { ctx.distinct += recs.size(); ctx.count("curves_of_long_runs", recs.size()); }
	});
}
void mod_run() {
	what = prop == "C01" ? W_CURVE : prop == "C02" ? W_GENS : prop == "C03" ? W_PTS : prop == "C04" ? W_META : prop == "C05" ? W_OPTS : W_ALL;
	seq = prop == "C01" || prop == "C05";
	auto v = streams();
	parallel(v.size(), [&](uint64_t i) { run_stream(v[i], what, seq); });
	note("input_streams", fmt("%zu", v.size()));
	bound(fmt("every curve over every F_p, p <= %d, and every F_2^m, m <= %d, from input", (int)(thorough ? 257 : prop == "C03" ? 79 : prop == "C01" ? 151 : 103), thorough ? 7 : 6));
	orders_stage(); long_stage();
	// random environments
	struct R { std::vector<S> a; Expect x; size_t K; };
	std::vector<R> rs;
	for (auto &o : optsets(true)) {
		if (o.twist) continue;
		for (int bin = 0; bin < 2; bin++) for (int bits : bin ? std::vector<int>{3, 4} : std::vector<int>{3, 4, 5}) {
			R r; r.a = {bin ? "--f2m" : "--fp", "-r"}; for (auto &y : o.args()) r.a.push_back(y); r.a.push_back(fmt("%d", bits));
			if (o.cofactor > 4 || (bin && (o.prime || (o.cofactor & 1) || o.cofactor == 1)) || (o.smooth && o.smooth < 3)) continue; // may not exist over so small a field
			if (o.koblitz >= 0 && (o.cofactor || o.unique || o.smooth)) continue;
			r.x.bin = bin; r.x.bits = bits; r.x.what = what; o.expect(r.x); r.x.field_bits_exact = true; r.K = o.pts == PTS_RANDOM ? (bin ? 4 : 3) : 3;
			if (bin && bits == 4) r.K = std::min<size_t>(r.K, 2);
			if (!thorough && (bits == 5 || o.pts != PTS_RANDOM)) r.K = std::min<size_t>(r.K, bits == 3 ? 3 : 2);
			rs.push_back(r);
		}
	}
	parallel(rs.size(), [&](uint64_t i) { Case c; c.args = rs[i].a; c.seed = 7 + i; dfs_random(c, rs[i].x, rs[i].K, 64); });
	bound("random curves of 3..5 bits: every combination of answers to the first 3 random requests");
	// size ladder
	struct L { std::vector<S> a; Expect x; };
	std::vector<L> ls;
	auto add = [&](bool bin, unsigned bits, const Opts &o, int n) { L l; l.a = {bin ? "--f2m" : "--fp", "-r", fmt("-c%d", n)}; for (auto &y : o.args()) l.a.push_back(y); l.a.push_back(fmt("%u", bits)); l.x.bin = bin; l.x.bits = bits; l.x.what = what; o.expect(l.x); l.x.field_bits_exact = true; ls.push_back(l); };
	std::vector<unsigned> bl = {6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 47, 48, 49, 56, 60, 61, 62, 63, 64, 65, 66, 72, 80};
	if (thorough) for (unsigned b = 19; b < 96; b++) if (std::find(bl.begin(), bl.end(), b) == bl.end()) bl.push_back(b);
	unsigned rot = 0;
	for (unsigned b : bl) for (auto &o : optsets(true)) {
		if (!thorough && b > 12 && (rot++ + b) % 3) continue;
		for (int bin = 0; bin < 2; bin++) {
			if (o.koblitz >= 0 && (o.cofactor || o.smooth || o.unique)) continue;
			if (bin && b < 10 && (b == 8 ? false : false)) continue;
			if (o.smooth) { if (b > 24) continue; Opts q = o; q.smooth = b * 2 / 3 + 1; add(bin, b, q, 2); continue; }
			if ((o.prime || o.cofactor) && b > (thorough ? 66 : prop == "C05" ? 60 : 40)) continue;
			if (bin && (o.prime || o.cofactor == 1 || (o.cofactor & 1))) continue;
			if (o.cofactor > 4 && b < 8) continue;
			if (bin && o.cofactor == 0 && o.prime) continue;
			add(bin, b, o, o.koblitz >= 0 ? 1 : 3);
		}
	}
	Opts pr; pr.prime = true; pr.meta = prop == "C04"; Opts kb; Opts df; df.meta = prop == "C04"; Opts k2; k2.cofactor = 2; k2.meta = df.meta;
	bool own = prop == "C05" || thorough;
	for (unsigned b : {95u, 96u, 97u, 112u, 127u, 128u, 129u}) { if (own) add(false, b, pr, 1); add(false, b, df, 1); if (own) add(true, b, k2, 1); else add(true, b, df, 1); }
	if (own) for (unsigned b : {159u, 160u, 161u, 192u}) add(false, b, thorough ? pr : df, 1); else add(false, 160, df, 1);
	for (unsigned b : {101u, 103u, 107u, 109u, 113u, 131u}) for (int a : {0, 1}) { Opts o; o.koblitz = a; o.meta = df.meta; add(true, b, o, 1); }
	for (unsigned b : {101u, 103u, 107u, 109u, 113u}) for (int a : {0, 1}) { Opts o; o.koblitz = a; o.meta = df.meta; add(false, b, o, 1); }
	if (thorough) { for (unsigned b : {224u, 256u}) { Opts o = pr; add(false, b, o, 1); } for (unsigned b : {163u}) add(true, b, k2, 1); }
	std::reverse(ls.begin(), ls.end());
	parallel(ls.size(), [&](uint64_t i) {
		Case c; c.args = ls[i].a; c.seed = 1000 + i; c.tmo = 200;
		double t0 = now();
		Res r = run_case(c);
		if (getenv("MC_DEBUG") && now() - t0 > 3) fprintf(stderr, "%.1f s: %s\n", now() - t0, c.show().c_str());
		if (!r.ok()) { violation("ladder-end " + c.show(), "random generation ended with: " + r.ending(), &c, &r); return; }
		std::vector<PC> recs; S e = parse_output(r.out, recs);
		if (!e.empty()) { violation("ladder " + c.show(), e, &c, &r); return; }
		for (auto &p : recs) { e = check_record(p, ls[i].x); if (!e.empty()) { violation("ladder " + c.show(), curve_id(p) + ": " + e, &c, &r); return; } ctx.distinct++; ctx.count("ladder_curves"); }
		if (getenv("MC_DEBUG") && now() - t0 > 6) fprintf(stderr, "total %.1f s: %s\n", now() - t0, c.show().c_str());
	});
	bound("size ladder 6..192 bits (boundary widths 31/32/33, 63/64/65, 95/96/97, 127/128/129, 159/160/161), one determined random environment per size and option set");
}
