// ANSI X9.62 verifiably random curves (--ansi).
#include "streams.h"
#include "ansi_ref.h"
extern "C" {
#include "exhaustive/ansi.h"
#include "gen/field.h"
#include "gen/seed.h"
#include "io/output.h"
#include "math/poly.h"
#include "misc/config.h"
#include "util/bits.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (seed, field, environment); distinct_nontrivial counts curves whose coefficients were compared with an independent implementation of X9.62 A.3.3";
static bool usable(const S &seed, long t, bool bin, uint64_t p) {
	pari_sp av = avma; GEN r = ref_r(seed, t, bin); bool u = signe(r) != 0;
	if (!bin && p) u = umodiu(r, p) && umodiu(addis(mulis(r, 4), 27), p);
	avma = av; return u;
}
static std::vector<S> rawseeds() {
	std::vector<S> v;
	for (int L : {20, 21, 32, 20, 64, 128}) { v.push_back(S(L, (char)0xff)); v.push_back(S(L, 0)); S a(L, 0); a[0] = (char)0x80; v.push_back(a); a = S(L, (char)0xff); a[L - 1] = (char)0xfe; v.push_back(a); S c; for (int i = 0; i < L; i++) c += (char)(i * 37 + L * 5 + 1 + v.size()); v.push_back(c); }
	return v;
}
static std::vector<S> seeds() { std::vector<S> v; for (auto &s : rawseeds()) v.push_back(tohex(s)); size_t n = v.size(); for (size_t i = 0; i < n; i += 2) v.push_back(v[i] + fmt("%x", (int)i % 16)); return v; }
static S seedn(uint64_t k) { S s = sha(fmt("seed %llu", (unsigned long long)k)); if (k % 5 == 1) s = S(3, 0) + s.substr(3); if (k % 5 == 2) s += s.substr(0, 1 + k % 13); if (k % 7 == 3) s = S(18, (char)0xff) + s.substr(0, 2); s = tohex(s); if (k % 6 == 4) s += fmt("%x", (int)(k / 6 % 16)); return s; }
// everything printed for a run with one curve
static S check_run(const Case &c, const Res &r, const S &seed, bool bin, unsigned t, bool exact, const std::function<void(Expect &)> &tweak = nullptr, PC *out = nullptr) {
	if (!r.ok()) return "ended with " + r.ending();
	std::vector<PC> rec; S e = parse_output(r.out, rec); if (!e.empty()) return e;
	if (rec.size() != 1) return "not exactly one curve";
	PC &x = rec[0];
	S h = x.seed.size() > 2 && x.seed.substr(0, 2) == "0x" ? x.seed.substr(2) : "";
	if (h.size() < 40) return "printed seed " + x.seed + " is too short";
	S used = h;
	if (!seed.empty() && used != seed) return "printed seed " + x.seed + " is not the given one, " + seed;
	Expect E; E.bin = bin; E.bits = t; E.seed = true; E.field_bits_exact = exact; E.pts = PTS_PRIME;
	if (tweak) tweak(E);
	e = check_record(x, E); if (!e.empty()) return e;
	pari_sp av = avma; e = judge(h, t, bin, ref_r(used, t, bin), bin ? gen_2 : hex2gen(x.p), hex2gen(x.a), hex2gen(x.b)); avma = av;
	if (out) *out = x;
	return e.empty() ? e : e + " (seed " + x.seed + ", " + curve_id(x) + ")";
}
void mod_run() {
	// 1. derivation for every field size and awkward seeds, through the generator functions
	struct U { unsigned t; bool bin; }; std::vector<U> us;
	unsigned T = thorough ? 800 : 522;
	for (unsigned t = T; t >= 2; t--) { us.push_back({t, false}); if (poly_exists(t)) us.push_back({t, true}); }
	auto sd = seeds();
	parallel(us.size(), [&](uint64_t i) {
		U u = us[i];
		S e = unit_run([&] {
			err = stderr; cfg->bits = u.t; cfg->field = u.bin ? FIELD_BINARY : FIELD_PRIME; cfg->random = RANDOM_NONE;
			std::vector<S> ss = sd; for (int k = 0; k < 6; k++) ss.push_back(seedn(u.t * 6 + k));
			for (auto &s : ss) {
				pari_sp av = avma;
				S h = s; std::vector<char> hb(h.begin(), h.end()); hb.push_back(0);
				curve_t c; memset(&c, 0, sizeof c); cfg->seed = hb.data();
				c.field = u.bin ? poly_find_gen(u.t) : nextprime(addiu(int2n(u.t - 1), u.t > 4 ? 1 : 0));
				if (!usable(s, u.t, u.bin, 0)) continue;
				if (!u.bin) { GEN r = ref_r(s, u.t, false); if (dvdii(r, c.field) || dvdii(addis(mulis(r, 4), 27), c.field) || equaliu(c.field, 2)) continue; }
				if (ansi_gen_seed_argument(&c, NULL, OFFSET_SEED) != 1) { ufail("seed not accepted: " + h); return; }
				if (ansi_gen_equation(&c, NULL, OFFSET_B) != 1) { ufail(fmt("%u bits: no curve for seed ", u.t) + h); return; }
				GEN a = field_elementi(c.a), b = field_elementi(c.b);
				S w = judge(h, u.t, u.bin, ref_r(s, u.t, u.bin), u.bin ? gen_2 : c.field, a, b);
				char *p = bits_to_hex(c.seed->seed); if (h != (strlen(p) == h.size() + 1 && p[0] == '0' && h.size() % 2 ? p + 1 : p)) w = S("seed kept as ") + p;
				if (!w.empty()) { ufail(fmt("%s field of %u bits, seed %s: ", u.bin ? "binary" : "prime", u.t, h.c_str()) + w); return; }
				ucount(); shm->user[5]++;
				seed_free(&c.seed); avma = av;
			}
		}, 120);
		ctx.count("derivations", shm->user[5]);
		if (!e.empty()) violation(fmt("unit %d %u", u.bin, u.t), e);
	});
	bound(fmt("the derivation for every field size from 2 to %u bits, prime and binary, and 36 seeds of 160 to 1024 bits each (all ones, all zeros, wrap-arounds)", T));
	// 2. whole runs over small fields: every prime / polynomial, many seeds, every choice of a
	struct R { bool bin; unsigned t; uint64_t p; std::vector<int> q; uint64_t k; };
	std::vector<R> rs;
	for (unsigned t = 3; t <= (thorough ? 7u : 6u); t++) {
		for (uint64_t p = 1ull << (t - 1); p < 1ull << t; p++) if (is_prime64(p)) for (uint64_t k = 0; k < (thorough ? 24u : 8u); k++) rs.push_back({false, t, p, {}, k * 131 + p});
		if (t <= 5) for (auto &q : f2m_polys(t)) for (uint64_t k = 0; k < (thorough ? 12u : 4u); k++) rs.push_back({true, t, 0, q, k * 17 + t});
	}
	parallel(rs.size(), [&](uint64_t i) {
		R &x = rs[i]; S s = seedn(x.k); bool u = usable(s, x.t, x.bin, x.p), hopeless = !usable(s, x.t, x.bin, 0);
		Case b; b.args = {x.bin ? "--f2m" : "--fp", (x.k & 1 ? "-s" : "--ansi=0x") + s, fmt("%u", x.t)}; b.tape_on = true;
		b.in = x.bin ? fmt("%u\n%d\n%d\n%d\n", x.t, x.q[0], x.q[1], x.q[2]) : fmt("%llu\n", (unsigned long long)x.p);
		std::vector<std::vector<uint64_t>> st = {{}};
		while (!st.empty()) {
			if (out_of_time()) return;
			auto tp = st.back(); st.pop_back(); Case c = b; c.tape = tp; Res r = run_case(c);
			if (!u) { // no curve comes from this seed: it has to be refused, or the input runs out
				if (!r.clean() || r.code == 0 || r.out.find("\"a\"") != S::npos) { violation("bad-seed " + c.show(), "a seed that only gives singular curves " + S(r.clean() ? "was accepted" : r.ending()), &c, &r); return; }
				ctx.count(hopeless ? "refused_seeds" : "refused_seeds_of_field"); return;
			}
			PC rec; S e = check_run(c, r, s, x.bin, x.t, true, nullptr, &rec);
			if (!e.empty()) { violation("small " + c.show(), e, &c, &r); return; }
			ctx.distinct++; ctx.count("small_runs"); if (ctx.samples.empty()) sample(c.show() + " -> " + curve_id(rec) + " seed " + rec.seed);
			if (tp.size() < 1 && r.reqs.size() > tp.size()) { uint64_t n = r.reqs[tp.size()].size; for (uint64_t v = 0; v < std::min<uint64_t>(n, 140); v++) { auto y = tp; y.push_back(v); st.push_back(y); } }
		}
	});
	bound(fmt("whole runs: every prime of 3..%d bits and irreducible polynomial of degree 3..5, several seeds, every first choice of a", thorough ? 7 : 6));
	// 3. seeds from input (with rejected lines before), random seeds, constraints, several curves
	struct L { Case c; S seed; bool bin; unsigned t; std::function<void(Expect &)> tw; bool exact; };
	std::vector<L> ls; uint64_t k = 0;
	auto add = [&](bool bin, unsigned t, int how, std::vector<S> more, std::function<void(Expect &)> tw) {
		L l; l.bin = bin; l.t = t; l.tw = tw; l.exact = true; S s; do s = seedn(k++); while (!usable(s, t, bin, 0)); l.c.args = {bin ? "--f2m" : "--fp"}; l.c.seed = k; l.c.tmo = 120;
		if (how == 0) { l.c.args.push_back("--ansi=" + s); l.c.args.push_back("-r"); l.seed = s; }
		if (how == 1) { l.c.args.push_back("--ansi"); l.c.args.push_back("--random=field"); l.c.in = "abcdef\n\nnothex00000000000000000000000000000000000000000\n" + S(k & 1 ? "0x" : "") + s + "\n"; l.seed = s; }
		if (how == 2) { l.c.args.push_back("--ansi"); l.c.args.push_back("-r"); }
		if (how == 3) { l.c.args.push_back("-s"); l.c.args.push_back("--random=field,seed"); }
		if (how == 4) { l.c.args.push_back("--ansi"); l.c.args.push_back("--random=field"); l.c.infile = true; l.c.in = "abcd," + s + (k & 1 ? "," : k & 2 ? "\n" : ""); l.seed = s; }
		for (auto &m : more) l.c.args.push_back(m); l.c.args.push_back(fmt("%u", t)); ls.push_back(l);
	};
	for (unsigned t : {8u, 9u, 12u, 16u, 17u, 24u, 32u, 33u, 40u, 48u}) for (int bin = 0; bin < 2; bin++) for (int how = 0; how < 5; how++) {
		add(bin, t, how, {}, nullptr);
		if (how < 3) { add(bin, t, how, {"-u"}, [](Expect &e) { e.unique = true; }); if (!bin && t >= 8) { if (how != 1) add(bin, t, how, {"-p"}, [](Expect &e) { e.prime = true; }); } if (bin && how != 1) add(bin, t, how, {"--points=all", "--metadata"}, [](Expect &e) { e.pts = PTS_ALL; e.meta = true; }); }
		if (how == 2 && !bin) { add(bin, t, how, {"-k2"}, [](Expect &e) { e.cofactor = 2; }); }
	}
	for (unsigned t : {64u, 65u, 80u, 96u, 112u, 128u}) for (int bin = 0; bin < 2; bin++) for (int how : {0, 2}) add(bin, t, how, {"--points=none"}, [](Expect &e) { e.pts = PTS_NONE; });
	for (unsigned t : {159u, 160u, 161u, 162u, 163u, 192u}) for (int how : {0, 2}) { if (t > 161 && !thorough) continue; add(false, t, how, {"--points=none"}, [](Expect &e) { e.pts = PTS_NONE; }); }
	std::reverse(ls.begin(), ls.end());
	parallel(ls.size(), [&](uint64_t i) {
		Case c = ls[i].c; Res r = run_case(c); S e = check_run(c, r, ls[i].seed, ls[i].bin, ls[i].t, ls[i].exact, ls[i].tw);
		if (!e.empty()) violation("run " + c.show(), e, &c, &r); else { ctx.distinct++; ctx.count("ladder_runs"); }
	});
	bound("runs with the seed as argument, from input after rejected lines, from a file, and random, with constraints, 8..128 bits and 159..192 bits");
}
