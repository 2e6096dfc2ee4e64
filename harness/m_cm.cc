// Curves of prescribed order: --order (C07), --supersingular (C08), --anomalous (C09).
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution per (request, options, random answers); distinct_nontrivial counts printed curves whose order was recounted";
static void c07() {
	struct W { S order, value; unsigned bits; std::vector<S> more; Expect x; size_t n; double tmo; };
	std::vector<W> ws;
	auto add = [&](S order, S value, unsigned bits, int opt, double tmo) {
		W w; w.order = order; w.value = value; w.bits = bits; w.n = 1; w.tmo = tmo; w.x.bits = bits; w.x.what = W_GENS | W_PTS | W_META | W_OPTS;
		pari_sp av = avma; GEN N = strtoi(value.c_str()); bool sqf = issquarefree(N), small = expi(N) < 20; avma = av;
		switch (opt % 8) {
			case 1: w.more = {"--points=none"}; w.x.pts = PTS_NONE; break;
			case 2: w.more = {"--points=all"}; w.x.pts = PTS_ALL; if (!small) w.more = {"--points=none"}, w.x.pts = PTS_NONE; break;
			case 3: w.more = {"--metadata"}; w.x.meta = true; break;
			case 4: w.more = {"--points=3random"}; w.x.pts = PTS_RANDOM; w.x.npts = 3; break;
			case 5: w.more = {"-c2", "--points=nonprime"}; w.n = 2; w.x.pts = PTS_NONPRIME; if (!small) w.more = {"-c2", "--points=none"}, w.x.pts = PTS_NONE; break;
			case 6: if (sqf) { w.more = {"-u"}; w.x.unique = true; } break;
			case 7: w.more = {"--points=random"}; w.x.pts = PTS_RANDOM; break;
		}
		ws.push_back(w);
	};
	uint64_t M = thorough ? 9000 : 1300;
	for (uint64_t N = 3; N <= M; N++) { if (N == 4) continue; S v = fmt("%llu", (unsigned long long)N), o = v; if (N % 5 == 1) o = fmt("0x%llx", (unsigned long long)N); if (N % 5 == 2) o = fmt("0X%llX", (unsigned long long)N);
		if (N % 5 == 3) { o = ""; for (auto &f : factorize(N)) for (int k = 0; k < f.second; k++) o += (o.empty() ? "" : ",") + (k & 1 ? fmt("0x%llx", (unsigned long long)f.first) : fmt("%llu", (unsigned long long)f.first)); }
		if (N % 5 == 4) { auto d = divisors(N); uint64_t q = d[d.size() / 2]; o = fmt("%llu,%llu", (unsigned long long)q, (unsigned long long)(N / q)); }
		add(o, v, 12 + N % 9 + (N > 4000) * 2, N / 5 + N, 60); }
	size_t smalls = ws.size();
	// larger orders: the search may take arbitrarily long for some of them, so only a run that ends is judged
	const char *ext[] = {"46874566546", "2147483723", "123456789012345678901234568197", "1000003", "16777259", "4294967311", "1099511627791", "65537,65539", "3,5,7,11,13,17,19,23", "0x10000000f", "1024", "4096", "65536", "1048576", "16777216", "4294967296"};
	for (const char *x : ext) { pari_sp av = avma; GEN N = gen_1; for (auto &f : split(x, ',')) N = mulii(N, f.compare(0, 2, "0x") ? strtoi(f.c_str()) : hex2gen(f)); S v = GENtostr(N); unsigned b = expi(N) + 2; avma = av; for (int k = 0; k < (thorough ? 8 : 2); k++) add(x, v, b, k ? k : 1, -15); }
	for (unsigned b = 14; b <= (thorough ? 64u : 34u); b += 2) for (int k = 0; k < (thorough ? 6 : 2); k++) { pari_sp av = avma; GEN p = nextprime(addiu(int2n(b - 1), 1000003ull * (k + 1) % (1ull << std::min(b - 2, 20u)))); S v = GENtostr(p); avma = av; add(v, v, b + 1, k * 3 + b, thorough ? -25 : -8); }
	std::reverse(ws.begin(), ws.end());
	parallel(ws.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		W &w = ws[i]; Case c; c.args = {"--fp", "--order=" + w.order}; for (auto &m : w.more) c.args.push_back(m); c.args.push_back(fmt("%u", w.bits)); c.seed = i * 31 + 5; c.tmo = fabs(w.tmo); c.once = w.tmo < 0;
		Res r = run_case(c); if (r.hang && w.tmo < 0) { ctx.count("search_not_finished"); return; } std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != w.n) e = fmt("%zu curves instead of %zu", rec.size(), w.n);
		pari_sp av = avma; GEN N = strtoi(w.value.c_str());
		for (auto &x : rec) { if (!e.empty()) break;
			if (!equalii(hex2gen(x.order), N)) e = "printed order " + x.order + " is not the requested " + w.value;
			else if (!BPSW_psp(hex2gen(x.p))) e = "field.p is not prime";
			else { EC s; S err; if (small_curve(x, s, err)) { if (s.singular()) e = "the curve is singular"; else if (s.count() != itou(N)) e = fmt("the curve has %llu points", (unsigned long long)s.count()); }
				else { BigEC E; if (!big_from(x, E, err)) e = err; else if (!order_is_exactly(E, N)) e = "the curve does not have the printed order"; } }
			if (e.empty()) e = check_record(x, w.x);
			if (!e.empty()) e += " (" + curve_id(x) + ")"; }
		avma = av;
		if (!e.empty()) violation("order " + c.show(), e, &c, &r); else { ctx.distinct += rec.size(); ctx.count("curves", rec.size()); if (ctx.samples.empty()) sample(c.show() + " -> " + curve_id(rec[0])); }
	}, 1);
	// requests that have to be refused
	struct F { S o; unsigned bits; }; std::vector<F> fs;
	for (unsigned b = 2; b <= 40; b++) for (int k = 0; k < 4; k++) { fs.push_back({fmt("%llu", (1ull << b) + k * 3), b}); fs.push_back({fmt("0x%llx", 1ull << (b + k)), b}); if (b > 4) fs.push_back({fmt("%llu,%d", 1ull << (b - 2), 4 + k), b}); }
	fs.push_back({"0", 16}); fs.push_back({"0,5", 16}); fs.push_back({"7,0", 16}); fs.push_back({"0x0", 16}); fs.push_back({"not_a_number", 16}); fs.push_back({"", 16}); fs.push_back({"-5", 16});
	fs.pop_back(); // the sign is skipped by the option's pattern; see DESIGN
	parallel(fs.size(), [&](uint64_t i) { Case c; c.args = {"--fp", "--order=" + fs[i].o, fmt("%u", fs[i].bits)}; c.tmo = 10; Res r = run_case(c); if (!r.clean() || r.code == 0 || r.out.find("\"a\"") != S::npos) violation("refuse " + c.show(), "an order that is zero or does not fit the size was not refused: " + r.ending(), &c, &r); else ctx.count("refused"); }, 4);
	bound(fmt("every order from 3 to %llu except 4 (%zu runs; decimal, hexadecimal, factor lists) in eight option sets; larger primes, products and powers of two (to 97 bits, judged when the search ends); 2..40 bits of orders that do not fit", (unsigned long long)M, smalls));
}
static void c08() {
	struct W { std::vector<uint64_t> in; std::vector<S> more; Expect x; unsigned bits; bool file; }; std::vector<W> ws;
	uint64_t M = thorough ? 1 << 15 : 1 << 13;
	std::vector<uint64_t> ps; for (uint64_t p = 2; p < M; p++) if (is_prime64(p)) ps.push_back(p);
	for (size_t i = 0, k = 0; i < ps.size(); i += 12, k++) {
		W w; w.bits = bits_of(ps[std::min(i + 11, ps.size() - 1)]); w.file = k % 3 == 2; w.x.bits = w.bits;
		for (size_t j = i; j < i + 12 && j < ps.size(); j++) { w.in.push_back(ps[j]); if (j % 5 == 0) w.in.push_back(ps[j] + (ps[j] > 2)); if (j % 7 == 0) w.in.push_back(2); if (j % 11 == 0) w.in.push_back(1); }
		int o = k % 6; if (ps[i] > 2048 && (o == 2 || o == 4)) o = 1;
		if (o == 1) { w.more = {"--points=none"}; w.x.pts = PTS_NONE; } if (o == 2) { w.more = {"--points=all"}; w.x.pts = PTS_ALL; } if (o == 3) { w.more = {"--metadata"}; w.x.meta = true; } if (o == 4) { w.more = {"--points=2random"}; w.x.pts = PTS_RANDOM; w.x.npts = 2; } if (o == 5) { w.more = {"-u"}; w.x.unique = true; }
		ws.push_back(w);
	}
	size_t n = ws.size(); std::reverse(ws.begin(), ws.end());
	parallel(n, [&](uint64_t i) {
		W &w = ws[i]; std::vector<uint64_t> want;
		for (uint64_t p : w.in) { if (!is_prime64(p) || p == 2 || bits_of(p) > w.bits) continue; if (w.x.unique) { // only a cyclic group has a single generator
				EC E; E.f = Fld::prime(p); bool cyc = true; if (p % 4 == 3) cyc = false; // y^2 = x^3 - x has full 2-torsion
				else cyc = true; // p + 1 = 2 mod 4: the 2-part is cyclic, other full torsion needs p = 1 mod l
				if (!cyc) continue; } want.push_back(p); }
		if (want.empty()) return;
		Case c; c.args = {"--fp", "--supersingular"}; for (auto &m : w.more) c.args.push_back(m); c.args.push_back(fmt("-c%zu", want.size())); c.args.push_back(fmt("%u", w.bits)); c.infile = w.file; for (uint64_t p : w.in) c.in += fmt("%llu%c", (unsigned long long)p, w.file ? ',' : '\n'); c.tmo = 60;
		Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != want.size()) e = fmt("%zu curves instead of %zu", rec.size(), want.size());
		for (size_t j = 0; j < rec.size() && e.empty(); j++) { uint64_t p = 0, o = 0; if (!hex2u(rec[j].p, p) || p != want[j]) e = "field.p is not the next prime of the input"; else if (!hex2u(rec[j].order, o) || o != p + 1) e = "printed order is not p + 1"; else e = check_record(rec[j], w.x); if (!e.empty()) e += " (" + curve_id(rec[j]) + ")"; }
		if (!e.empty()) violation("stream " + c.show(), e, &c, &r); else { ctx.distinct += rec.size(); ctx.count("curves", rec.size()); if (ctx.samples.empty()) sample(c.show().substr(0, 200) + " -> " + curve_id(rec[0])); }
	});
	bound(fmt("every prime field of 3 <= p < %llu (with 2, 1 and composites mixed in), six option sets", (unsigned long long)M));
	struct L { unsigned b; uint64_t s; int o; }; std::vector<L> ls;
	for (unsigned b = 2; b <= 96; b += b < 34 ? 1 : 7) for (int k = 0; k < (thorough ? 40 : 14); k++) { if (b > 40 && k % 7 > (thorough ? 3 : 1)) continue; ls.push_back({b, b * 100ull + k, k}); }
	for (unsigned b : {112u, 128u}) for (int k = 0; k < 5; k++) ls.push_back({b, (uint64_t)b * 100 + k, 1});
	std::reverse(ls.begin(), ls.end());
	parallel(ls.size(), [&](uint64_t i) {
		if (out_of_time()) return;
		L l = ls[i]; Expect x; x.bits = l.b; x.field_bits_exact = true; Case c; c.args = {"--fp", "--supersingular", "-r"}; if (l.o & 1 || l.b > 64) { c.args.push_back("--points=none"); x.pts = PTS_NONE; } c.args.push_back(fmt("%u", l.b)); c.seed = l.s; c.tmo = 240;
		Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != 1) e = "not one curve";
		if (e.empty() && !equalii(hex2gen(rec[0].order), addiu(hex2gen(rec[0].p), 1))) e = "printed order is not p + 1";
		if (e.empty()) e = check_record(rec[0], x);
		if (!e.empty()) violation("random " + c.show(), e, &c, &r); else { ctx.distinct++; ctx.count("random_curves"); }
	});
	bound("random fields of 2..128 bits, several seeds each");
}
static void c09() {
	struct W { unsigned b; std::vector<uint64_t> tape; int o; uint64_t seed; }; std::vector<W> ws;
	auto size_ok = [](unsigned b) { for (uint64_t n = 0;; n++) { uint64_t p = 163 * n * (n + 1) + 41; if (p >= 1ull << b) return false; if (p >= 1ull << (b - 1) && is_prime64(p)) return true; } };
	for (unsigned b = 1; b <= 40; b++) {
		if (!size_ok(b)) { // 1..40: has to be refused
			bool empty = true; for (uint64_t n = 0; ; n++) { uint64_t p = 163 * n * (n + 1) + 41; if (p >= 1ull << b) break; if (p >= 1ull << (b - 1)) empty = false; }
			if (!empty) continue;
			Case c; c.args = {"--fp", "--anomalous", "-r", fmt("%u", b)}; c.tmo = 10; Res r = run_case(c); if (!r.clean() || r.code == 0 || r.out.find("\"a\"") != S::npos) violation("refuse " + c.show(), "there is no anomalous curve of this form and size, but the run ended with " + r.ending(), &c, &r); else ctx.count("refused");
		} else for (int k = 0; k < (thorough ? 24 : 8); k++) ws.push_back({b, {}, k % 7, b * 1000ull + k});
	}
	for (unsigned b : {44u, 48u, 52u, 56u, 60u, 63u, 64u, 65u, 72u, 80u, 96u, 112u, 127u, 128u, 129u, 160u, 192u, 224u, 256u, 384u, 521u}) for (int k = 0; k < (thorough ? 20 : 5); k++) ws.push_back({b, {}, k % 2 ? 1 : 3, b * 1000ull + k});
	std::reverse(ws.begin(), ws.end());
	auto one = [&](const W &w, Res &r) {
		Expect x; x.bits = w.b; x.field_bits_exact = true; Case c; c.args = {"--fp", "--anomalous", "-r"}; x.pts = PTS_PRIME;
		if (w.o == 1) { c.args.push_back("--points=none"); x.pts = PTS_NONE; } if (w.o == 2) { c.args.push_back("--points=all"); x.pts = PTS_ALL; } if (w.o == 3) { c.args.push_back("--metadata"); x.meta = true; } if (w.o == 4) { c.args.push_back("-u"); x.unique = true; } if (w.o == 5) { c.args.push_back("--points=random"); x.pts = PTS_RANDOM; } if (w.o == 6) c.args.push_back("-c3");
		c.args.push_back(fmt("%u", w.b)); c.seed = w.seed; c.tape_on = true; c.tape = w.tape; c.tmo = 120;
		r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && rec.size() != (w.o == 6 ? 3 : 1)) e = "wrong number of curves";
		for (auto &y : rec) { if (!e.empty()) break; pari_sp av = avma; if (!equalii(hex2gen(y.order), hex2gen(y.p))) e = "printed order is not p"; else e = check_record(y, x); avma = av; if (!e.empty()) e += " (" + curve_id(y) + ")"; }
		if (!e.empty()) { violation("run " + c.show(), e, &c, &r); return false; }
		ctx.distinct += rec.size(); ctx.count("curves", rec.size()); if (ctx.samples.empty()) sample(c.show() + " -> " + curve_id(rec[0])); return true;
	};
	parallel(ws.size(), [&](uint64_t i) { if (out_of_time()) return; Res r; one(ws[i], r); });
	bound("random anomalous curves of every size 6..40 bits and larger sizes to 521 bits, several seeds and option sets; sizes without such a field refused");
	// every answer to the first random requests (b of the field, then c of the twist) for small fields
	std::vector<unsigned> bs; for (unsigned b = 6; b <= (thorough ? 15u : 13u); b++) if (size_ok(b)) bs.push_back(b);
	std::vector<W> t; for (unsigned b : bs) { W w{b, {}, 1, 7}; Res r; if (!one(w, r)) continue; uint64_t n = r.reqs.empty() ? 0 : r.reqs[0].size; for (uint64_t v = 0; v < n; v++) t.push_back({b, {v}, 1, 7 + v}); }
	parallel(t.size(), [&](uint64_t i) {
		W w = t[i]; Res r; if (!one(w, r) || r.reqs.size() < 2) return; uint64_t n = r.reqs[1].size;
		for (uint64_t v = 0; v < n && v < (thorough ? 3000u : 400u); v++) { if (out_of_time()) return; W y = w; y.tape = {w.tape[0], v}; Res q; if (!one(y, q)) return; ctx.count("answers_enumerated"); }
	});
	bound(fmt("every first and second random answer (field parameter, then twist factor) for sizes 6..%d bits", thorough ? 15 : 13));
}
void mod_run() { if (prop == "C07") c07(); else if (prop == "C08") c08(); else c09(); }
