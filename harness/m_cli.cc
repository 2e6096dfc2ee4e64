// The command line: every combination of fields, methods and constraints, and every kind of value.
#include "streams.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "one execution of ecgen's main per command line; distinct_nontrivial counts command lines judged as accepted or refused, or whose value took the documented effect";
struct Meth { S arg, name; bool primeonly; int seed; };
// refused: a failure exit with a message, and nothing at all on standard output
static S judge(const Case &c, Res &r, bool refuse, bool hang_ok = true) {
	if (r.hang) return refuse ? "not refused: it started a search" : hang_ok ? "" : "did not end";
	if (!r.clean()) return "ended with " + r.ending();
	bool ref = r.code != 0 && r.out.empty() && r.err.find("Reached EOF") == S::npos; // a search that started and ran out of input was accepted
	if (refuse && !ref) return "not refused: " + r.ending();
	if (refuse && r.err.empty()) return "refused without a message";
	if (!refuse && ref) return "refused: " + r.err.substr(0, 200);
	return "";
}
static void values();
void mod_run() {
	std::vector<Meth> me = {{"--order=101", "order", true, 0}, {"--supersingular", "supersingular", true, 0}, {"--anomalous", "anomalous", true, 0}, {"--ansi", "ansi", false, 1}, {"--ansi=00112233445566778899aabbccddeeff00112233", "ansi", false, 1}, {"--brainpool", "brainpool", true, 2}, {"--brainpool-rfc", "brainpool-rfc", true, 3}, {"--nums", "nums", true, 4}, {"--invalid", "invalid", false, 0}, {"--invalid=2-5", "invalid", false, 0}, {"--twist", "twist", false, 0}, {"--family=BN", "family", true, 0}};
	std::vector<std::vector<S>> fields = {{}, {"--fp"}, {"--f2m"}, {"--fp", "--f2m"}, {"--f2m", "--fp"}, {"--fp", "--fp"}};
	std::vector<std::vector<int>> sets = {{}}; for (int i = 0; i < (int)me.size(); i++) { sets.push_back({i}); for (int j = 0; j < (int)me.size(); j++) if (i != j) { sets.push_back({i, j}); if (thorough) for (int k = j + 1; k < (int)me.size(); k++) if (k != i) sets.push_back({i, j, k}); } }
	std::vector<S> rnd = {"", "-r", "-rfield", "-rseed,field", "-requation"}, cons = {"-p", "-k2", "-B4"};
	struct J { int f; std::vector<int> m; int r, k, order; }; std::vector<J> js;
	for (int f = 0; f < (int)fields.size(); f++) for (auto &m : sets) for (int r = 0; r < (int)rnd.size(); r++) { if (r > 1 && m.size() > 1 && !thorough) continue; for (int k = 0; k < 8; k++) { if (!thorough && m.size() > 1 && k != 0 && k != 3) continue; js.push_back({f, m, r, k, (int)(js.size() % 3)}); } }
	parallel(js.size(), [&](uint64_t i) {
		if (out_of_time()) return; const J &j = js[i]; std::vector<S> a, b; for (auto &x : fields[j.f]) a.push_back(x); for (int x : j.m) a.push_back(me[x].arg); if (!rnd[j.r].empty()) a.push_back(rnd[j.r]); for (int x = 0; x < 3; x++) if (j.k >> x & 1) a.push_back(cons[x]);
		if (j.order == 1) std::reverse(a.begin(), a.end()); Case c; c.args = a; if (j.order == 2) c.args.insert(c.args.begin(), "12"); else c.args.push_back("12"); c.tmo = 0.5; c.once = true;
		std::set<S> fs(fields[j.f].begin(), fields[j.f].end()), ms; for (int x : j.m) ms.insert(me[x].name); bool refuse = fs.size() != 1 || ms.size() > 1 || __builtin_popcount(j.k) > 1;
		if (!refuse && fs.count("--f2m")) for (int x : j.m) if (me[x].primeonly) refuse = true;
		if (!refuse && ms.count("nums") && j.r) refuse = true; if (!refuse && ms.count("anomalous") && !j.r) refuse = true;
		// an order or a size that does not suit the method is another matter
		c.tmo = refuse ? 20 : 0.5; Res r = run_case(c); S e = judge(c, r, refuse); if (!e.empty()) { S k; for (auto &x : c.args) k += x + " "; violation("combination " + k, e, &c, &r); } else { ctx.distinct++; ctx.count(refuse ? "combinations_refused" : r.hang ? "combinations_accepted_search_cut" : "combinations_accepted"); }
	});
	bound(fmt("%zu combinations of field options, at most %d methods out of %zu, -r and subsets of -p, -k, -B, in several orders", js.size(), thorough ? 3 : 2, me.size()));
	values();
}
static void values() {
	struct V { std::vector<S> args; bool refuse; S in; std::function<S(const Res &)> more; }; std::vector<V> vs;
	auto bad = [&](std::vector<S> a) { vs.push_back({a, true, "", nullptr}); }; const S curve = "31\n8\n9\n";
	auto good = [&](std::vector<S> a, std::function<S(const Res &)> m = nullptr, S in = "31\n8\n9\n") { vs.push_back({a, false, in, m}); };
	auto f = [](std::vector<S> a, S bits = "5") { std::vector<S> r = {"--fp"}; for (auto &x : a) r.push_back(x); if (!bits.empty()) r.push_back(bits); return r; };
	// sizes
	bad(f({}, "")); bad(f({}, "x")); bad(f({}, "5x")); bad(f({"5"}, "6")); bad({}); bad(f({}, "0")); bad(f({}, "00")); bad(f({"-r"}, "0")); good(f({}, "5")); bad(f({}, "5.5")); bad(f({}, "0x5"));
	for (S o : {"--bogus", "-z", "--fp=3", "--order", "--family", "--cofactor", "--smooth", "--points", "--threads", "--timeout", "--memory", "--count", "--input", "--output", "--hex-check"}) { bad({"--fp", "5", o}); if (o == "--bogus" || o == "-z" || o == "--fp=3") bad({o, "--fp", "5"}); }
	// values of options
	for (S k : {"2", "-1", "3", "10"}) bad(f({"-K" + k})); good(f({"-K0"})); good(f({"-K1"})); good(f({"-K"})); good(f({"--koblitz"})); good(f({"--koblitz=1"}));
	for (S x : {"foo", "a,foo", "field;a", "A", "fields", "seed,x"}) bad(f({"-r" + x})); for (S x : {"a", "b", "field", "seed", "equation", "a,b", "field,equation", "seed,field,a,b", "a,a"}) good(f({"-r" + x}));
	for (S x : {"foo", "", "3", "3foo", "Prime", "x3random"}) bad(f({"--points=" + x})); for (S x : {"prime", "all", "none", "nonprime", "random", "3random"}) good(f({"--points=" + x}));
	for (S x : {"foo", "", "BN1", "BLS"}) bad(f({"--family=" + x})); for (S x : {"BN", "bn", "bLs12", "BLS24", "KSS16", "kss18", "KSS36", "KSS40"}) good(f({"--family=" + x}), nullptr, "");
	for (S x : {"abc", "2-x", "2,5", "2 5", "+3"}) bad(f({"--invalid=" + x})); for (S x : {"2-5", "3"}) good(f({"--invalid=" + x}));
	for (S x : {"abc", "", ",", "x5", "5x", "5,", ",5", "-5", "5, 7", "0x", "5,0x"}) bad(f({"--order=" + x}, "8")); for (S x : {"101", "0x65", "0X65", "2,3,7", "0x2,3,0X7"}) good(f({"--order=" + x}, "8"), nullptr, "");
	for (S x : {"g", "0xg", "1 2", "-1", "12z", "0x0x1", "x1"}) bad(f({"--hex-check=" + x})); for (S x : {"1f", "0x1F", "0X1f", "1"}) good(f({"--hex-check=" + x}));
	const S s40 = "00112233445566778899aabbccddeeff00112233";
	for (S m : {"--ansi", "--brainpool", "--brainpool-rfc"}) { bad(f({m + "=" + s40.substr(1)}, "12")); bad(f({m + "=0x" + s40.substr(1)}, "12")); bad(f({m + "=g" + s40.substr(1)}, "12")); bad(f({m + "=" + s40.substr(2) + "0x"}, "12")); if (m != "--ansi") { bad(f({m + "=" + s40 + "0"}, "12")); bad(f({m + "=0x" + s40 + "ab"}, "12")); } else { good(f({m + "=" + s40 + "0", "-r"}, "12")); } good(f({m + "=" + s40, "-r"}, "12")); good(f({m + "=0x" + s40, "-r"}, "12")); good(f({m + "=0X" + s40, "-r"}, "12")); }
	for (S x : {"0", "x", "-", "k"}) bad(f({"--threads=" + x})); for (S x : {"1", "2", "auto", "AUTO"}) good(f({"--threads=" + x}));
	for (S x : {"x", "k", "", "s"}) { bad(f({"--memory=" + x})); bad(f({"--thread-stack=" + x})); bad(f({"--timeout=" + x})); }
	for (S x : {"0", "-1", "x", "2x", "99999999999999999999"}) { bad(f({"-k" + x})); bad(f({"--cofactor=" + x})); bad(f({"-B" + x})); bad(f({"--smooth=" + x})); } bad(f({"--cofactor="})); bad(f({"--smooth="}));
	for (S x : {"-1", "x", "2x", "", "99999999999999999999"}) bad(f({"--count=" + x})); for (S x : {"-1random", "-3random", "-1all"}) bad(f({"--points=" + x})); for (S x : {"x", "1x"}) bad(f({"-K" + x})); bad(f({"--koblitz="}));
	// documented effects of suffixes
	struct U { S s; uint64_t m; }; for (auto &u : std::vector<U>{{"", 1}, {"k", 1000}, {"K", 1000}, {"m", 1000000}, {"M", 1000000}, {"g", 1000000000}, {"G", 1000000000}}) for (uint64_t n : {1ull, 3ull, 64ull, 1500ull}) { if (n * u.m > 64000000000ull) continue; uint64_t want = n * u.m; good(f({"--memory=" + fmt("%llu", (unsigned long long)n) + u.s}), [want](const Res &) { return shm->user[60] == want ? S() : fmt("a PARI stack of %llu bytes instead of %llu", (unsigned long long)shm->user[60], (unsigned long long)want); }); }
	for (auto &u : std::vector<U>{{"", 1}, {"s", 1}, {"S", 1}, {"m", 60}, {"M", 60}, {"h", 3600}, {"H", 3600}, {"d", 86400}, {"D", 86400}}) for (uint64_t n : {1ull, 7ull, 90ull}) { uint64_t want = n * u.m; good(f({"--timeout=" + fmt("%llu", (unsigned long long)n) + u.s}), [want](const Res &r) { return r.timers_made && shm->user[61] == want ? S() : fmt("the timer was set to %llu seconds instead of %llu", (unsigned long long)shm->user[61], (unsigned long long)want); }); }
	good(f({}), [](const Res &r) { return r.timers_made ? "a timer was started without --timeout" : shm->user[60] == 1000000000 ? S() : fmt("default PARI stack of %llu bytes", (unsigned long long)shm->user[60]); });
	// synonyms: long and short names, abbreviations, option order, = and separate values
	struct Y { std::vector<S> a, b; }; std::vector<Y> ys = {{{"-p"}, {"--prime"}}, {{"-k2"}, {"--cofactor=2"}}, {{"-k2"}, {"-k", "2"}}, {{"-k2"}, {"--cofactor", "2"}}, {{"-B4"}, {"--smooth=4"}}, {{"-K1"}, {"--koblitz=1"}}, {{"-K"}, {"-K0"}}, {{"-u"}, {"--unique"}}, {{"-c2"}, {"--count=2"}}, {{"-r"}, {"--random"}}, {{"-ra"}, {"--random=a"}}, {{"-requation"}, {"-ra,b"}}, {{"-rfield"}, {"--random=field"}}, {{"--order=42"}, {"-n42"}}, {{"--order=42"}, {"--order=0x2a"}}, {{"--order=42"}, {"--order=2,3,7"}}, {{"--invalid=2-5"}, {"-i2-5"}}, {{"--hex-check=a"}, {"--hex-check=0xA"}}, {{"--family=bn"}, {"--family=BN"}}, {{"-rb", "-ra"}, {"-requation"}}, {{"-p", "-u"}, {"-u", "-p"}}, {{"-c0"}, {}}, {{"--threads=1"}, {}}, {{"--points=prime"}, {}}, {{"--memory=1g"}, {}}};
	S lots; for (int i = 0; i < 40; i++) lots += fmt("31\n%d\n%d\n", (i * 7 + 3) % 31, (i * i + 5) % 31);
	parallel(ys.size() * 2, [&](uint64_t i) { const Y &y = ys[i / 2]; Case a, b; a.args = b.args = {"--fp"}; for (auto &x : y.a) a.args.push_back(x); for (auto &x : y.b) b.args.push_back(x); S bits = y.a.size() && y.a[0].find("order") != S::npos ? "8" : y.a.size() && y.a[0].find("family") != S::npos ? "6" : "5"; a.args.push_back(bits); b.args.push_back(bits); a.in = b.in = bits == "6" ? S("1\n-1\n2\n3\n-4\n5\n-6\n") : lots; a.infile = b.infile = i & 1; if (i & 1) { for (auto &ch : a.in) if (ch == '\n') ch = ','; b.in = a.in; } Res r = run_case(a), s = run_case(b); S e; if (!r.ok()) e = "ended with " + r.ending(); else if (r.code != s.code || r.out != s.out) e = "differs from what the equivalent " + b.show().substr(0, 60) + " prints"; if (!e.empty()) violation("synonym " + a.show(), e, &a, &r); else { ctx.distinct++; ctx.count("equivalent_command_lines"); } });
	parallel(vs.size(), [&](uint64_t i) {
		const V &v = vs[i]; Case c; c.args = v.args; c.in = v.in; c.vtimer = true; c.tmo = v.refuse ? 20 : 3; c.once = true; Res r = run_case(c); S e = judge(c, r, v.refuse); if (e.empty() && v.more && !r.hang) e = v.more(r);
		if (!e.empty()) { S k; for (auto &x : c.args) k += x + " "; violation("value " + k, e, &c, &r); } else { ctx.distinct++; ctx.count(v.refuse ? "values_refused" : "values_accepted"); }
	});
	bound(fmt("%zu values of options and sizes, well-formed and not; %zu pairs of equivalent command lines", vs.size(), ys.size()));
	{ Case c; c.args = {"--fp", "--ansi", "--brainpool", "12"}; sample(c.show()); }
}
