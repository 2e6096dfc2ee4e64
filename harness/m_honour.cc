// Every constraint or display option is met by what is printed, or named in a warning.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution of ecgen's main per (method, field kind, set of at most two (three) options); distinct_nontrivial counts executions that ended with success and whose every record was judged against every option not named in a warning";
struct M { S name; std::vector<S> args; unsigned bits; bool bin = false, invalid = false, family = false, ok1 = false, seed = false; int n = 2; S in; };
struct O { S arg, warn; int group; std::function<void(Expect &)> set; int kob = -1; S hex; };
static uint64_t U(const S &h) { uint64_t v = 0; hex2u(h, v); return v; }
void mod_run() {
	std::vector<M> ms; auto add = [&](S n, std::vector<S> a, unsigned bits) -> M & { M m; m.name = n; m.args = a; m.bits = bits; m.bin = a[0] == "--f2m"; ms.push_back(m); return ms.back(); };
	add("random", {"--fp", "-r"}, 10); add("random f2m", {"--f2m", "-r"}, 7); add("twist", {"--fp", "--twist", "-r"}, 10); add("twist f2m", {"--f2m", "--twist", "-r"}, 7);
	add("ansi", {"--fp", "--ansi", "-r"}, 11).seed = true; add("ansi f2m", {"--f2m", "--ansi", "-r"}, 7).seed = true;
	add("brainpool", {"--fp", "--brainpool", "-r"}, 12).seed = true; ms.back().n = 1; add("brainpool-rfc", {"--fp", "--brainpool-rfc", "-r"}, 12).seed = true; ms.back().n = 1; add("brainpool seed", {"--fp", "--brainpool=5b1f6c7a0e2d4839aa5566778899001122334455"}, 12).seed = true; ms.back().n = 1;
	add("nums", {"--fp", "--nums"}, 10).n = 1; for (auto o : {"60", "101", "96", "2,7,7", "64"}) { add(S("order ") + o, {"--fp", S("--order=") + o}, 9).ok1 = true; }
	add("anomalous", {"--fp", "--anomalous", "-r"}, 12); add("supersingular", {"--fp", "--supersingular", "-r"}, 9); add("supersingular input", {"--fp", "--supersingular"}, 6).in = "23\n31\n47\n59\n61\n";
	add("family", {"--fp", "--family=BN", "-r"}, 4).family = true; ms.back().n = 1; add("invalid", {"--fp", "--invalid=2-5", "-r"}, 9).invalid = true; add("invalid f2m", {"--f2m", "--invalid=2-5", "-r"}, 7).invalid = true; add("invalid default", {"--fp", "--invalid", "-r"}, 8).invalid = true;
	S mix; for (auto &c : {std::vector<int>{31, 8, 9}, {29, 9, 4}, {31, 0, 1}, {23, 6, 10}, {31, 4, 14}, {17, 12, 0}, {29, 1, 6}, {19, 8, 6}, {31, 21, 25}, {23, 15, 9}, {31, 1, 8}, {31, 1, 1}, {29, 1, 1}, {23, 1, 1}, {19, 1, 1}, {29, 0, 1}, {31, 3, 4}, {31, 12, 20}, {31, 6, 12}, {31, 8, 26}}) mix += fmt("%d\n%d\n%d\n", c[0], c[1], c[2]);
	add("input", {"--fp"}, 5).in = mix; ms.back().n = 1; add("input seed", {"--fp", "--ansi", "-rfield"}, 11).in = "00112233445566778899aabbccddeeff00112233\n5b1f6c7a0e2d4839aa5566778899001122334455\n"; ms.back().n = 1; ms.back().seed = true;
	std::vector<O> os; auto opt = [&](S a, S w, int g, std::function<void(Expect &)> s) -> O & { O o; o.arg = a; o.warn = w; o.group = g; o.set = s; os.push_back(o); return os.back(); };
	opt("-p", "prime (", 1, [](Expect &x) { x.prime = true; }); for (int k : {1, 2, 3, 4, 6}) opt(fmt("-k%d", k), "cofactor (", 1, [k](Expect &x) { x.cofactor = k; }); for (int b : {3, 5}) opt(fmt("-B%d", b), "smooth (", 1, [b](Expect &x) { x.smooth = b; });
	for (int a = 0; a < 2; a++) opt(fmt("-K%d", a), "koblitz (", 2, [a](Expect &x) { x.koblitz = true; x.kob_a = a; }).kob = a; opt("-u", "unique (", 3, [](Expect &x) { x.unique = true; });
	static const char *pn[] = {"prime", "nonprime", "all", "none", "random"}; for (int p = 0; p < 5; p++) opt(fmt("--points=%s", pn[p]), "points (", 4, [p](Expect &x) { x.pts = (PTS)p; }); opt("--points=3random", "points (", 4, [](Expect &x) { x.pts = PTS_RANDOM; x.npts = 3; });
	opt("--metadata", "metadata (", 5, [](Expect &x) { x.meta = true; x.what |= W_META; }); for (auto h : {"1", "0xa", "3C"}) { S hh = h; opt("--hex-check=" + hh, "hex_check (", 6, [](Expect &) {}).hex = hh.substr(0, 2) == "0x" ? hh.substr(2) : hh; }
	struct J { size_t m; std::vector<size_t> o; }; std::vector<J> js;
	for (size_t m = 0; m < ms.size(); m++) { js.push_back({m, {}}); for (size_t a = 0; a < os.size(); a++) { js.push_back({m, {a}}); for (size_t b = a + 1; b < os.size(); b++) if (os[a].group != os[b].group) { js.push_back({m, {a, b}}); if (thorough) for (size_t c = b + 1; c < os.size(); c++) if (os[c].group != os[b].group && os[c].group != os[a].group) js.push_back({m, {a, b, c}}); } } }
	parallel(js.size(), [&](uint64_t i) {
		if (out_of_time()) return; const M &m = ms[js[i].m]; Case c; c.args = m.args; for (size_t o : js[i].o) c.args.push_back(os[o].arg); if (!m.invalid) c.args.push_back(fmt("-c%d", m.n)); c.args.push_back(fmt("%u", m.bits)); c.in = m.in; c.tmo = 1; c.once = true; c.seed = 7;
		Res r = run_case(c); if (r.hang) { ctx.count("searches_not_ended_within_a_second"); return; } if (r.clean() && r.code) { if (m.in.empty()) ctx.count("runs_refused_or_failed"); else ctx.count("runs_out_of_input"); return; }
		S e; std::vector<PC> rec; if (!r.ok()) e = "ended with " + r.ending(); else e = parse_output(r.out, rec);
		// warnings name options that were given, and plain generation ignores none
		static const std::vector<std::pair<S, std::vector<S>>> WN = {{"random", {"-r"}}, {"count", {"-c"}}, {"cm_order", {"--order"}}, {"prime", {"-p"}}, {"koblitz", {"-K"}}, {"koblitz_value", {"-K"}}, {"smooth", {"-B"}}, {"cofactor", {"-k"}}, {"invalid_primes", {"--invalid"}}, {"seed_algo", {"--ansi", "--brainpool"}}, {"seed", {"--ansi", "--brainpool"}}, {"unique", {"-u"}}, {"hex_check", {"--hex-check"}}, {"points", {"--points"}}, {"metadata", {"--metadata"}}};
		for (auto &l : split(r.err, '\n')) { size_t q = l.find("Ignored command-line argument "); if (q == S::npos) continue; S w = l.substr(q + 30); w = w.substr(0, w.find(' ')); for (auto &k : WN) if (k.first == w) { bool given = false; for (auto &a : c.args) for (auto &g : k.second) if (a.compare(0, g.size(), g) == 0 && (g[1] == '-' || a[1] != '-')) given = true; if (!given && e.empty()) e = "a warning says that " + w + " is ignored, which was not given"; if (given && e.empty() && (m.name == "random" || m.name == "random f2m" || m.name == "input")) e = "a warning says that " + w + " is ignored"; ctx.count("warnings_judged"); } }
		Expect x; x.bin = m.bin; x.bits = m.bits; x.what = W_CURVE | W_GENS | W_PTS | W_OPTS; x.pts = PTS_PRIME; x.single_gen_ok = m.ok1; x.seed = m.seed; if (m.invalid) { x.pts = PTS_FREE; }
		bool points = false; std::vector<S> hex; int kob = -1; S on;
		for (size_t o : js[i].o) { if (r.err.find("Ignored command-line argument " + os[o].warn) != S::npos) { ctx.count("options_named_in_a_warning"); continue; } os[o].set(x); if (os[o].group == 4) points = true; if (!os[o].hex.empty()) hex.push_back(os[o].hex); if (os[o].kob >= 0) kob = os[o].kob; on += os[o].arg + " "; ctx.count("options_judged"); }
		if (m.invalid) { if (!points) x.pts = PTS_FREE; }
		bool twist = m.name.find("twist") == 0; if (twist) x.koblitz = false;
		if (e.empty() && rec.empty()) e = "success without a record";
		for (size_t k = 0; k < rec.size() && e.empty(); k++) {
			const PC &p = rec[k]; if (m.invalid && k) { if (points) e = check_record(p, x); break; } // the original curve is the one the options speak of
			if (m.family) { uint64_t n = U(p.order); if (x.prime && !is_prime64(n)) e = "the order is not prime"; if (x.cofactor && (n % x.cofactor || !is_prime64(n / x.cofactor))) e = "the cofactor is not the one asked for"; if (x.smooth) for (auto &f : factorize(n)) if (bits_of(f.first) > x.smooth) e = "the order is not smooth"; if (x.koblitz && (U(p.b) != 1 || (int)U(p.a) != x.kob_a)) e = "not a Koblitz curve"; if (x.unique && p.gens.size() != 1) e = "not one generator"; if (x.meta && !p.has_meta) e = "no metadata"; }
			else e = check_record(p, x);
			for (auto &h : hex) { S low = h; for (auto &ch : low) ch = tolower(ch); bool f = false; for (const S *q : {&p.seed, &p.p, &p.m, &p.e1, &p.e2, &p.e3, &p.a, &p.b, &p.order}) { S t = *q; for (auto &ch : t) ch = tolower(ch); if (t.size() > 2 && t.find(low, t.substr(0, 2) == "0x" ? 2 : 0) != S::npos) f = true; } for (auto &g : p.gens) { auto pt = [&](const PP &y) { for (const S *q : {&y.x, &y.y, &y.order, &y.cofactor}) { S t = *q; for (auto &ch : t) ch = tolower(ch); if (t.size() > 2 && t.find(low, 2) != S::npos) f = true; } }; pt(g); for (auto &y : g.points) pt(y); } if (!f && e.empty()) e = "no printed number contains " + h; }
			if (!e.empty()) e = curve_id(p) + ": " + e;
		}
		if (!e.empty()) violation(m.name + ": " + on, "neither met nor named in a warning: " + on + "- " + e, &c, &r); else { ctx.distinct++; ctx.count("records_judged", rec.size()); }
	});
	bound(fmt("%zu methods and ways to give input x every set of at most %d of %zu options (constraints, points, metadata, hex-check; contradictory sets apart)", ms.size(), thorough ? 3 : 2, os.size()));
	{ Case c; c.args = {"--fp", "--nums", "-k2", "10"}; sample(c.show()); }
}
