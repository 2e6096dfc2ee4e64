// Brainpool curves (--brainpool, --brainpool-rfc): the whole run predicted from the seed.
#include "streams.h"
#include "bp_ref.h"
extern "C" {
#include "exhaustive/brainpool.h"
#include "exhaustive/brainpool_rfc.h"
#include "gen/field.h"
#include "gen/seed.h"
#include "io/output.h"
#include "misc/config.h"
#include "util/bits.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (procedure, size, seed, way to give it, choice of y); distinct_nontrivial counts curves compared with the one an independent implementation of the procedure derives";
void mod_run() {
	// 1. the stages, for every size and awkward seeds, through the generator functions
	long T = thorough ? 522 : 330;
	parallel(T - 4, [&](uint64_t i) {
		long L = T - i; if (!thorough && L > 165 && L % 6 && L != 319 && L != 320 && L != 321 && L != 322 && L != 323) return;
		S e = unit_run([&] {
			err = stderr; cfg->bits = L; cfg->field = FIELD_PRIME;
			for (uint64_t k = 0; k < (L < 40 || thorough && L < 260 ? 27u : L < 80 || thorough ? 9u : L < 165 ? 4u : 2u); k++) for (int rfc = 0; rfc < 2; rfc++) {
				pari_sp av = avma; S s = seedn(L * 31 + k); std::vector<char> hb(s.begin(), s.end()); hb.push_back(0);
				curve_t c; memset(&c, 0, sizeof c); cfg->seed = hb.data();
				if ((rfc ? brainpool_rfc_gen_seed_argument : brainpool_gen_seed_argument)(&c, NULL, OFFSET_SEED) != 1) { ufail("seed not accepted: " + s); return; }
				S w = low(s); uint64_t n = 0; GEN a, b, p;
				S where = fmt("%s, %ld bits, seed ", rfc ? "RFC" : "Brainpool", L) + s;
				for (int round = 0; round < (L < 80 || thorough ? 3 : 2); round++) {
					bits_t *h = brainpool_hash(c.seed->seed, c.seed->brainpool.w, c.seed->brainpool.v); S hb2(h->bitlen, '0'); for (size_t q = 0; q < h->bitlen; q++) if (GET_BIT(h->bits, q)) hb2[q] = '1'; bits_free(&h);
					if (hb2 != seed_bits(w, c.seed->brainpool.w, c.seed->brainpool.v)) { ufail(where + ": wrong hash bits"); return; }
					if (round) w = addseed(w, 1);
					p = field_from(w, L, n, 100000); if (!p) break;
					if (brainpool_gen_field(&c, NULL, OFFSET_FIELD) != 1) { ufail(where + ": no field"); return; }
					if (!equalii(c.field, p)) { ufail(where + fmt(": field %s instead of %s", GENtostr(c.field), GENtostr(p))); return; }
					w = addseed(w, 1);
					if (L < 8) { S t = w; uint64_t n2 = 0; if (!equation_from(t, L, rfc, p, a, b, n2, 2000)) break; }
					if (!equation_from(w, L, rfc, p, a, b, n, 100000)) break;
					if ((rfc ? brainpool_rfc_gen_equation : brainpool_gen_equation)(&c, NULL, OFFSET_B) != 1) { ufail(where + ": no equation"); return; }
					if (!equalii(field_elementi(c.a), a) || !equalii(field_elementi(c.b), b)) { ufail(where + fmt(": a, b = %s, %s instead of %s, %s", GENtostr(field_elementi(c.a)), GENtostr(field_elementi(c.b)), GENtostr(a), GENtostr(b))); return; }
					char *x = bits_to_hex(c.seed->seed); if (w != x) { ufail(where + ": the seed is " + x + " after the equation, should be " + w); return; }
					shm->user[5]++; ucount();
				}
				seed_free(&c.seed); avma = av;
			}
		}, 200);
		ctx.count("derivations", shm->user[5]); ctx.distinct += shm->user[5];
		if (!e.empty()) violation(fmt("unit %ld", L), e);
	});
	bound(fmt("the hash expansion, field and equation of both procedures for every size from 5 to %ld bits (quick: every sixth size above 165), 2 to 27 seeds each (zeros, ones, wrap-around), up to three rounds", T));
	struct W { long L; bool rfc; uint64_t k; int how; std::vector<S> more; };
	std::vector<W> ws;
	int N = thorough ? 90 : 27;
	for (int rfc = 0; rfc < 2; rfc++) {
		for (long L = 4; L <= 16; L++) for (int k = 0; k < N * (L < 12 ? 3 : 1); k++) ws.push_back({L, !!rfc, (uint64_t)(L * 1000 + k), k % 5, {}});
		for (long L : {17, 18, 20, 24, 28, 31, 32, 33, 40, 48, 56, 62, 63, 64, 65, 66}) for (int k = 0; k < (thorough ? 27 : L < 60 ? 9 : 2); k++) ws.push_back({L, !!rfc, (uint64_t)(L * 1000 + k), k % 5, {}});
		for (long L : {80, 96, 112, 127, 128, 129}) for (int k = 0; k < (thorough ? 3 : L < 80 + 17 * rfc); k++) ws.push_back({L, !!rfc, (uint64_t)(L * 1000 + k), 0, {"--points=none"}});
		for (long L : {159, 161, 162}) for (int k = 0; k < thorough; k++) ws.push_back({L, !!rfc, (uint64_t)(L * 1000 + k), 0, {"--points=none"}});
	}
	std::stable_sort(ws.begin(), ws.end(), [](const W &a, const W &b) { return a.L > b.L; });
	parallel(ws.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		W &w = ws[i]; pari_sp av = avma; S s = seedn(w.k);
		if (w.how == 3) { // a random seed: take it from the run
			s = "";
		}
		Ref R; uint64_t limit = w.L < 17 ? 4000 : 100000000;
		if (!s.empty()) { R = reference(s, w.L, w.rfc, limit); if (R.none) { ctx.count("seeds_without_a_curve_in_reach"); avma = av; return; } }
		S opt = w.rfc ? "--brainpool-rfc" : "--brainpool";
		Case c; c.args = {"--fp"}; c.seed = w.k; c.tmo = 300; c.tape_on = true;
		if (w.how == 0) c.args.push_back(opt + "=" + s);
		if (w.how == 1) c.args.push_back(opt + "=0x" + s);
		if (w.how == 2) { c.args.push_back(opt); c.in = "00\n" + s + "0\n\n" + s.substr(1) + "g\n" + (w.k & 1 ? "0x" : "") + s + "\n"; }
		if (w.how == 4) { c.args.push_back(opt); c.infile = true; c.in = "abc," + s + ","; }
		if (w.how == 3) { c.args.push_back(opt); c.args.push_back("-r"); if (w.L < 8) { avma = av; return; } }
		for (auto &m : w.more) c.args.push_back(m);
		c.args.push_back(fmt("%ld", w.L));
		std::set<int> ys;
		for (int bit = 0; bit < 2; bit++) {
			Case d = c; Res r;
			if (w.how == 3) { if (bit) break; r = run_case(d); }
			else { if (bit && w.L > 60) break; d.tape = std::vector<uint64_t>(12, bit); r = run_case(d); }
			S e; std::vector<PC> rec;
			if (!r.ok()) e = "ended with " + r.ending(); else e = parse_output(r.out, rec);
			if (e.empty() && rec.size() != 1) e = "not one curve";
			if (e.empty()) { Expect x; x.bits = w.L; x.field_bits_exact = true; x.seed = true; x.prime = true; x.unique = true; x.pts = w.more.empty() ? PTS_PRIME : PTS_NONE; e = check_record(rec[0], x); }
			int ysel = -1;
			if (e.empty() && w.how == 3) {
				// the seed drawn is at most a few thousand steps before the printed one: find a start whose run ends there
				S ps = low(rec[0].seed); if (ps.size() != 42) e = "printed seed " + ps + " is not 160 bits"; else {
					ps = ps.substr(2); GEN p = hex2gen(rec[0].p), a = hex2gen(rec[0].a), b = hex2gen(rec[0].b);
					auto back = [&](uint64_t n) { S z = ps; S one(40, 'f'); for (uint64_t j = 0; j < n; j++) { // subtract 1
						for (size_t q = 40; q-- > 0;) { if (z[q] == '0') { z[q] = 'f'; continue; } z[q] = z[q] == 'a' ? '9' : z[q] - 1; break; } } return z; };
					bool okb = equalii(hashv(back(1), w.L, 0), b), oka = false, okp = false; uint64_t at = 2;
					for (; at < 4000 && !oka; at++) oka = equalii(hashv(back(at), w.L, 0), a), oka = oka && (w.rfc || at == 2);
					for (; at < 4000 && !okp; at++) { Ref Q; S z = back(at); GEN q = addiu(hashv(z, w.L, 1), 1); if (cmpiu(q, 3) < 0) q = utoi(3); while (mod4(q) != 3 || !isprime(q)) q = addiu(q, 1); if (equalii(q, p)) { Q = reference(z, w.L, w.rfc, 8000); okp = !Q.none && compare(rec[0], Q, nullptr).empty(); } }
					if (!okb) e = "b is not derived from the printed seed's predecessor"; else if (!oka) e = "a is not derived from a seed before b's"; else if (!okp) e = "no earlier seed derives this curve";
				}
			} else if (e.empty()) e = compare(rec[0], R, &ysel);
			if (!e.empty()) { violation("run " + d.show(), e, &d, &r); break; }
			ys.insert(ysel); ctx.distinct++; ctx.count(w.rfc ? "rfc_curves" : "brainpool_curves"); ctx.count("seeds_walked", R.steps);
			if (ctx.samples.empty()) sample(d.show() + " -> " + curve_id(rec[0]) + fmt(" after %llu seeds", (unsigned long long)R.steps));
			if (bit && ys.size() != 2 && cmpiu(R.n, 2) > 0) { violation("y " + d.show(), "both values of the random bit give the same y", &d, &r); break; }
		}
		avma = av;
	});
	bound(fmt("both procedures, every size 4..16 bits with %d or %d seeds and 17..162 bits with fewer, the seed as argument, prefixed, from input after rejected lines, from a file, or random; both values of y", N, 3 * N));
}
