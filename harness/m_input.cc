// Interactive input: every sequence of answers up to a length, against a reference state machine.
#include "streams.h"
const char *MOD_LEVEL = "model_checking";
const char *MOD_RULE = "states: (question being asked, answers given so far) pairs of the reference dialogue; transitions: answers; traces_validated_against_impl: complete dialogues replayed on the real program, each compared on questions asked, curves printed and exit status";
typedef long long ll;
struct Dlg { bool bin = false; int bits = 4, K = 1; bool kob = false, ra = false, rb = false, twist = false; std::vector<S> args; };
struct Out { std::vector<S> asked; std::vector<EC> got; bool done = false; size_t used = 0; };
// an answer to a numeric question
static bool num(const S &t, int bits, ll &v) {
	size_t f = t.find_first_not_of(" \t\r\n"), l = t.find_last_not_of(" \t\r\n"); if (f == S::npos) return false; S u = t.substr(f, l - f + 1); bool neg = u[0] == '-'; u = u.substr(neg); int base = 10;
	if (u.size() > 1 && u[0] == '0' && strchr("xXbB", u[1])) { base = strchr("xX", u[1]) ? 16 : 2; u = u.substr(2); }
	if (u.empty()) return false; v = 0; // anything but digits of the base is no number: asked again
	for (char c : u) { int x = isdigit((unsigned char)c) ? c - '0' : isxdigit((unsigned char)c) ? tolower(c) - 'a' + 10 : 99; if (x >= base) return false; v = v >= 1ll << 40 ? v : v * base + x; }
	bool ok = v < (1ll << bits); if (neg) v = -v; return ok;
}
static Out model(const Dlg &d, const std::vector<S> &t, const std::vector<uint64_t> &rnd) {
	Out o; size_t i = 0, ri = 0; ll v; auto ask = [&](const char *q) { o.asked.push_back(q); return i < t.size(); };
	while ((int)o.got.size() < d.K) {
		EC E; ll a, b;
		if (!d.bin) { if (!ask("p:")) break; if (!num(t[i++], d.bits, v) || v < 2 || !is_prime64(v)) continue; E.f = Fld::prime(v); }
		else {
			if (!ask("m:")) break; if (!num(t[i++], 16, v) || v != d.bits) continue; ll e[3]; bool bad = false, eof = false;
			for (int k = 0; k < 3 && !bad && !eof; k++) { static const char *q[] = {"e1:", "e2:", "e3:"}; if (!ask(q[k])) { eof = true; break; } if (!num(t[i++], 16, e[k]) || e[k] == -1 || e[k] > d.bits) bad = true; }
			if (eof) break; if (bad || (!e[0] && !e[1] && !e[2])) continue;
			uint64_t poly = 1ull << d.bits | 1; for (int k = 0; k < 3; k++) if (e[k] > 0) poly |= 1ull << e[k]; if (!irreducible2(poly)) continue; E.f = Fld::binary(d.bits, poly);
		}
		auto el = [&](ll x) -> uint64_t { if (d.bin) return llabs(x); ll r = x % (ll)E.f->p; return r < 0 ? r + E.f->p : r; };
		auto coef = [&](const char *q, bool random, uint64_t &c) { if (random) { c = ri < rnd.size() ? rnd[ri++] : 0; return true; } for (;;) { if (!ask(q)) return false; if (num(t[i++], d.bits, v)) { c = el(v); return true; } } };
		if (d.kob) { E.a = 1; E.b = 1; } else { if (!coef("a:", d.ra, E.a)) break; if (!coef("b:", d.rb, E.b)) break; }
		if (!d.bin && E.f->p == 2) continue;
		if (E.singular()) continue;
		o.got.push_back(E);
	}
	o.done = (int)o.got.size() == d.K; o.used = i; return o;
}
static std::vector<S> prompts(const S &err) {
	static const std::vector<S> q = {"p:", "m:", "e1:", "e2:", "e3:", "a:", "b:", "seed:", "z:"}; std::vector<S> r;
	for (size_t i = 0; i < err.size();) { bool hit = false; if (i == 0 || err[i - 1] == ' ' || err[i - 1] == '\n') for (auto &x : q) if (err.compare(i, x.size() + 1, x + " ") == 0) { r.push_back(x); i += x.size() + 1; hit = true; break; } if (!hit) i++; }
	return r;
}
static S join(const std::vector<S> &v) { S r; for (auto &x : v) r += x + " "; return r; }
static bool run1(const Dlg &d, const std::vector<S> &t, bool open_end, bool file) {
	Case c; c.args = {d.bin ? "--f2m" : "--fp"}; for (auto &x : d.args) c.args.push_back(x); c.args.push_back(fmt("-c%d", d.K)); c.args.push_back(fmt("%d", d.bits)); c.infile = file;
	for (size_t i = 0; i < t.size(); i++) { c.in += t[i]; if (i + 1 < t.size() || !open_end) c.in += file ? ',' : '\n'; }
	std::vector<S> u = t; if (open_end && !u.empty() && u.back().empty()) u.pop_back(); // nothing after the last separator is no answer
	if (d.ra || d.rb) { c.tape_on = true; c.tape = {3, 1, 5, 2, 0, 4}; }
	Res r = run_case(c); std::vector<uint64_t> rnd; for (auto &x : r.reqs) rnd.push_back(x.got);
	Out o = model(d, u, rnd); S e; std::vector<PC> rec;
	if (!r.clean()) e = "ended with " + r.ending();
	else if (o.done && r.code) e = "the answers are enough, but the run failed: " + r.ending();
	else if (!o.done && !r.code) e = "success although the input ended early";
	else if (!file && prompts(r.err) != o.asked) e = "asked " + join(prompts(r.err)) + "where " + join(o.asked) + "was to be asked";
	if (e.empty()) e = parse_output(r.out, rec);
	if (e.empty() && rec.size() != o.got.size()) e = fmt("%zu curves printed, the answers give %zu", rec.size(), o.got.size());
	for (size_t i = 0; i < rec.size() && e.empty(); i++) { EC G; const EC &W = o.got[i]; if (!small_curve(rec[i], G, e)) break; if (G.f->q != W.f->q || G.f->poly != W.f->poly || (!d.twist && (G.a != W.a || G.b != W.b))) e = fmt("curve %zu is ", i + 1) + curve_id(rec[i]) + fmt(", the answers give q=%llu a=%llu b=%llu", (unsigned long long)W.f->q, (unsigned long long)W.a, (unsigned long long)W.b); }
	if (!e.empty()) { violation(join(d.args) + fmt("%d%d ", d.bin, d.K) + c.in, e, &c, &r); return false; }
	ctx.distinct++; ctx.count(o.done ? "dialogues_completed" : "dialogues_cut_short"); ctx.count("states", o.asked.size()); ctx.count("transitions", o.used); ctx.count("traces_validated_against_impl"); return true;
}
// every sequence of at most depth answers from the alphabet (nothing follows a completed dialogue but one stray answer)
static void all(const Dlg &d, const std::vector<S> &al, int depth, bool rnd) {
	size_t n = al.size(); uint64_t first = n * n * n;
	parallel(first, [&](uint64_t w) {
		std::vector<S> t = {al[w % n], al[w / n % n], al[w / n / n]}; int k = 0;
		if (w == 0) { run1(d, {}, false, false); for (auto &x : al) { run1(d, {x}, false, false); run1(d, {x}, true, false); for (auto &y : al) { run1(d, {x, y}, false, false); run1(d, {x, y}, true, false); } } }
		std::function<bool(bool)> go = [&](bool stop) -> bool {
			if (out_of_time()) return false;
			if (!run1(d, t, (t.size() + k++) % 3 == 0, k % 5 == 0)) return false;
			if (stop || (int)t.size() >= depth) return true;
			bool fin = !rnd && model(d, t, {}).done;
			for (auto &x : al) { t.push_back(x); bool r = go(fin); t.pop_back(); if (!r) return false; if (fin) break; }
			return true;
		};
		if (!rnd) { std::vector<S> p(t.begin(), t.begin() + 2); if (model(d, p, {}).done && w / n / n) return; }
		go(false);
	});
	bound((d.bin ? S("--f2m ") : S("--fp ")) + join(d.args) + fmt("-c%d %d: every sequence of up to %d answers from {", d.K, d.bits, depth) + join(al) + "}, with and without a final separator, from stdin or a file");
}
static const S V1 = "00112233445566778899aabbccddeeff00112233", V2 = "5b1f6c7a0e2d4839aa5566778899001122334455";
static void seeds() {
	struct D { std::vector<S> args; int kind; }; std::vector<D> ds = {{{"--fp", "--ansi", "-rfield"}, 0}, {{"--f2m", "--ansi", "-rfield"}, 0}, {{"--fp", "--brainpool"}, 1}, {{"--fp", "--brainpool-rfc"}, 1}};
	std::vector<S> al = {"", V1, "0x" + V2, V1.substr(1), "g" + V1.substr(1), V1 + "ab"}; size_t n = al.size(); int depth = thorough ? 5 : 4; uint64_t tot = 0; std::vector<std::vector<S>> seqs = {{}};
	for (size_t i = 0; i < seqs.size(); i++) if ((int)seqs[i].size() < depth) for (auto &x : al) { auto s = seqs[i]; s.push_back(x); seqs.push_back(s); }
	parallel(seqs.size() * ds.size(), [&](uint64_t q) {
		const D &d = ds[q % ds.size()]; auto t = seqs[q / ds.size()]; bool open = q % 7 == 0; if (out_of_time()) return;
		Case c; c.args = d.args; c.args.push_back(d.kind ? "-c1" : "-c2"); c.args.push_back("14"); for (size_t i = 0; i < t.size(); i++) { c.in += t[i]; if (i + 1 < t.size() || !open) c.in += '\n'; }
		std::vector<S> u = t; if (open && !u.empty() && u.back().empty()) u.pop_back();
		size_t asked = 0, i = 0, want = d.kind ? 1 : 2; std::vector<S> used; auto ok = [&](const S &s) { S h = s.substr(0, 2) == "0x" ? s.substr(2) : s; for (char ch : h) if (!isxdigit(ch)) return false; return d.kind ? h.size() == 40 : h.size() >= 40; };
		while (used.size() < want) { asked++; if (i >= u.size()) break; if (ok(u[i++])) used.push_back(u[i - 1]); }
		// a dialogue that ends without the last seed ends by itself; after an unterminated bad seed there is no further question
		bool done = used.size() == want; Res r = run_case(c); S e; std::vector<PC> rec; size_t pr = prompts(r.err).size();
		if (!r.clean()) e = "ended with " + r.ending(); else if (done != (r.code == 0)) e = done ? "valid seeds were given, but the run failed" : "success without a valid seed";
		else if (pr != asked && !(!done && pr + 1 == asked && open)) e = fmt("asked for a seed %zu times, expected %zu", pr, asked);
		if (e.empty()) e = parse_output(r.out, rec);
		if (e.empty() && done) { if (rec.size() != want) e = "wrong number of curves"; for (size_t k = 0; k < rec.size() && e.empty() && !d.kind; k++) { S s = used[k].substr(0, 2) == "0x" ? used[k] : "0x" + used[k]; if (rec[k].seed != s) e = "curve from seed " + rec[k].seed + ", next valid seed given " + s; } }
		if (!e.empty()) violation("seed " + join(d.args) + c.in, e, &c, &r); else { ctx.distinct++; ctx.count("traces_validated_against_impl"); ctx.count("seed_dialogues"); ctx.count("states", asked); ctx.count("transitions", i); }
	});
	bound(fmt("seed questions of --ansi (both fields), --brainpool, --brainpool-rfc: every sequence of up to %d answers from a valid seed, one with 0x, one too short, one with a wrong digit, one too long, an empty line", depth));
}
void mod_run() {
	Dlg fp; std::vector<S> A = {"", "7", "0xB", "4", "0", "16", "-2"}, B = {"7", "4", "0", "", "-1"};
	all(fp, A, thorough ? 6 : 5, false);
	{ Dlg d = fp; d.K = 2; all(d, B, thorough ? 8 : 6, false); } { Dlg d = fp; d.args = {"-K1"}; d.kob = true; d.K = 2; all(d, A, 5, false); }
	{ Dlg d = fp; d.args = {"--twist"}; d.twist = true; all(d, B, thorough ? 7 : 5, false); }
	{ Dlg d = fp; d.args = {"-ra"}; d.ra = true; all(d, A, thorough ? 5 : 4, true); } { Dlg d = fp; d.args = {"-rb"}; d.rb = true; all(d, A, thorough ? 5 : 4, true); }
	Dlg f2; f2.bin = true; std::vector<S> F = {"4", "1", "0", "5", ""}; all(f2, F, thorough ? 8 : 6, false);
	if (thorough) { all(f2, {"4", "1", "0", "3", "-1", "16", "0x4"}, 6, false); } { Dlg d = f2; d.bits = 3; d.kob = true; d.args = {"-K1"}; d.K = 2; all(d, {"3", "1", "0", ""}, thorough ? 9 : 7, false); }
	// answers in every notation, and those that are none
	std::vector<S> N = {"7", "4", "7x", "x", "-", "0x", " 5 ", "0b101", "+3", "1e1"}; all(fp, N, thorough ? 5 : 4, false); all(f2, {"4", "1", "0", "q", "0x", " 1"}, thorough ? 7 : 5, false);
	// answers of every length: leading zeros, and numbers far too large
	{ std::vector<size_t> ks; for (size_t k = 1; k <= 130; k++) ks.push_back(k); for (size_t k : {199, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000}) ks.push_back(k);
		parallel(ks.size(), [&](uint64_t w) { size_t k = ks[w]; for (auto &pre : {S(""), S("0x"), S("0b"), S("-"), S("-0x"), S(" ")}) for (char z : {'0', '1', 'x', ' '}) for (int at = 0; at < 3 && !out_of_time(); at++) { S x = pre + S(k, z) + (z == '0' ? "1" : z == ' ' ? "1" : ""); std::vector<S> t = {"7", "4", "1"}; t.insert(t.begin() + at, x); for (int f = 0; f < 2; f++) run1(fp, t, false, f); } });
		bound(fmt("--fp: answers of %zu lengths up to 20000 characters (leading zeros or blanks, numbers too large, no numbers) in each notation, to each question", ks.size())); }
	seeds();
	sample("printf '\\n4\\n7\\n16\\n0\\n4\\n' | ecgen --fp 4: asks p: p: p: a: a: b:");
}
