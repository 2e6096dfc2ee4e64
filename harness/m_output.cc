// What goes where: one JSON array of exactly COUNT records, on exactly one channel, whatever
// the channel, the logging, the way the input arrives, and wherever the input ends.
#include "streams.h"
#include <sys/stat.h>
const char *MOD_LEVEL = "fault_enumeration";
const char *MOD_RULE = "one execution of ecgen's main per (method, count, channel combination, failing file) and per (method, point at which the input ends); distinct_nontrivial counts executions whose whole output was judged";
struct Base { std::vector<S> args; S in; int n = 1; bool bin = false; unsigned bits = 0; bool rnd = false; bool invalid = false; unsigned what = W_CURVE | W_GENS | W_PTS; bool meta = false; PTS pts = PTS_PRIME; };
static std::vector<Base> bases() {
	std::vector<Base> r;
	auto add = [&](std::vector<S> a, S in, int n, unsigned bits, unsigned what = W_CURVE | W_GENS | W_PTS) -> Base & { Base b; b.args = a; b.in = in; b.n = n; b.bits = bits; b.bin = a[0] == "--f2m"; b.what = what; r.push_back(b); return r.back(); };
	const unsigned CG = W_CURVE | W_GENS;
	add({"--fp"}, "31\n3\n4\n31\n0\n1\n29\n9\n5\n", 3, 5); add({"--fp"}, "7\n1\n1\n", 1, 3); add({"--fp", "--points=all"}, "7\n1\n1\n11\n1\n6\n", 2, 4).pts = PTS_ALL;
	add({"--fp", "--points=none", "--metadata"}, "7\n1\n1\n11\n1\n6\n", 2, 4, CG | W_META).meta = true; r.back().pts = PTS_NONE;
	add({"--f2m"}, "4\n1\n0\n0\n3\n7\n4\n1\n0\n0\n5\n1\n", 2, 4); add({"--f2m", "--metadata"}, "5\n2\n0\n0\n3\n7\n", 1, 5, CG | W_META).meta = true;
	add({"--fp", "--twist"}, "31\n3\n4\n31\n0\n1\n", 2, 5); add({"--fp", "-K1"}, "23\n29\n", 2, 5); add({"--f2m", "-K0"}, "5\n2\n0\n0\n", 1, 5); add({"--fp", "--supersingular"}, "11\n23\n", 2, 5, W_CURVE | W_GENS);
	add({"--fp", "-r"}, "", 3, 20).rnd = true; add({"--f2m", "-r"}, "", 2, 17).rnd = true; add({"--fp", "-r", "-p"}, "", 2, 30).rnd = true; add({"--fp", "-rfield"}, "3\n4\n5\n6\n", 2, 9); add({"--fp", "-ra"}, "31\n4\n31\n6\n", 2, 5); add({"--fp", "-requation"}, "31\n29\n", 2, 5);
	add({"--fp", "--order=1009", "--points=none"}, "", 2, 10, CG).pts = PTS_NONE; add({"--fp", "--order=2,3,5,7", "--points=none"}, "", 1, 10, CG).pts = PTS_NONE;
	add({"--fp", "--anomalous", "-r"}, "", 2, 30, CG).rnd = true; add({"--fp", "--supersingular", "-r"}, "", 2, 20, CG).rnd = true;
	add({"--fp", "--ansi", "-r"}, "", 2, 40, CG); add({"--fp", "--ansi=00112233445566778899aabbccddeeff00112233", "-r"}, "", 1, 40, CG); add({"--fp", "--ansi"}, "00112233445566778899aabbccddeeff00112233\n1000003\n", 1, 20, CG);
	add({"--fp", "--brainpool=5b1f6c7a0e2d4839aa5566778899001122334455"}, "", 1, 30, CG); add({"--fp", "--brainpool-rfc=5b1f6c7a0e2d4839aa5566778899001122334455"}, "", 1, 30, CG); add({"--fp", "--brainpool", "-r"}, "", 2, 30, CG);
	add({"--fp", "--nums"}, "", 1, 28, CG); add({"--fp", "--family=BN", "-r"}, "", 2, 32, CG);
	add({"--fp", "--invalid=2-7"}, "31\n3\n4\n", 1, 5, 0).invalid = true; add({"--f2m", "--invalid=2-5"}, "5\n2\n0\n0\n3\n7\n", 1, 5, 0).invalid = true; add({"--fp", "--invalid=2-7", "--threads=2"}, "31\n3\n4\n", 1, 5, 0).invalid = true;
	add({"--fp", "--timeout=3600"}, "31\n3\n4\n31\n0\n1\n", 2, 5); add({"--fp", "--hex-check=1"}, "31\n17\n4\n31\n16\n1\n", 2, 5);
	return r;
}
static S judge_recs(const Base &b, const std::vector<PC> &rec, size_t from = 0) {
	for (auto &a : b.args) if (a.find("--family") == 0) return ""; // judged by C13
	Expect x; x.bin = b.bin; x.bits = b.bits; x.what = b.what; x.pts = b.invalid ? PTS_FREE : (b.what & W_PTS) || b.pts == PTS_NONE ? b.pts : PTS_ANY; x.meta = b.meta; if (b.invalid) x.what = W_CURVE | W_GENS;
	bool ok1 = false; for (auto &a : b.args) if (a.find("--order") == 0 || a.find("--brainpool") == 0 || a.find("--nums") == 0 || a == "--anomalous") ok1 = true;
	if (ok1) x.single_gen_ok = true;
	for (auto &a : b.args) if (a.find("--ansi") == 0 || a.find("--brainpool") == 0 || a.find("--family") == 0) x.seed = true;
	for (size_t i = from; i < rec.size(); i++) { S e = check_record(rec[i], x); if (!e.empty()) return fmt("record %zu: ", i + 1) + e; }
	return "";
}
static Case mk(const Base &b) { Case c; c.args = b.args; c.args.push_back(fmt("-c%d", b.n)); c.args.push_back(fmt("%u", b.bits)); c.in = b.in; c.tmo = 60; return c; }
static S commas(S s) { for (auto &c : s) if (c == '\n') c = ','; return s; }
// outcome of a complete run: where did the text go?
struct Var { S name; bool infile = false, outfile = false, append = false, badout = false, badin = false, badv = false; int v = 0; bool vfile = false; S pre; bool sep = false; };
// the output of the plain run; where threads decide the order of the output there is nothing to compare
static void parallel_fill(const std::vector<Base> &bs, std::vector<S> &t) { for (size_t i = 0; i < bs.size(); i++) { bool th = false; for (auto &a : bs[i].args) if (a.find("--threads") == 0) th = true; if (!th) t[i] = run_case(mk(bs[i])).out; } }
void mod_run() {
	auto bs = bases();
	std::vector<Var> vs;
	for (int inf = 0; inf < 2; inf++) for (int o = 0; o < 6; o++) for (int v = 0; v < 5; v++) {
		Var x; x.infile = inf; x.outfile = o >= 1 && o <= 4; x.pre = o == 2 || o == 4 ? S("[\n{\"old\": 1}]\n") : o == 3 ? "" : ""; x.append = o == 3 || o == 4; x.badout = o == 5; x.v = v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 2 : 0; x.vfile = v == 3; x.badv = v == 4;
		x.name = fmt("%s output=%s verbose=%s", inf ? "input file," : "stdin,", o == 0 ? "stdout" : o == 1 ? "new file" : o == 2 ? "existing file" : o == 3 ? "append to empty" : o == 4 ? "append to existing" : "file that cannot be opened", v == 0 ? "no" : v == 1 ? "once" : v == 2 ? "twice" : v == 3 ? "file" : "file that cannot be opened"); vs.push_back(x);
	}
	for (int o = 0; o < 3; o++) { Var x; x.badin = true; x.outfile = o == 1; x.badout = o == 2; x.name = "input file that cannot be opened"; vs.push_back(x); }
	struct J { size_t b, v; }; std::vector<J> js;
	for (size_t b = 0; b < bs.size(); b++) for (size_t v = 0; v < vs.size(); v++) { if (vs[v].infile && bs[b].in.empty()) continue; js.push_back({b, v}); }
	std::vector<S> plain(bs.size()); parallel_fill(bs, plain);
	parallel(js.size(), [&](uint64_t i) {
		const Base &b = bs[js[i].b]; const Var &v = vs[js[i].v]; Case c = mk(b);
		c.infile = v.infile; if (v.infile) c.in = commas(c.in);
		c.outfile = v.outfile; c.outpre = v.pre; c.verbosefile = v.vfile;
		auto ins = [&](const S &s) { c.args.insert(c.args.end() - 1, s); };
		if (v.append) ins("--append"); if (v.badout) ins("--output=/proc/self/none/x"); if (v.badin) ins("--input=/proc/self/none/x"); if (v.badv) ins("--verbose=/proc/self/none/x"); for (int k = 0; k < v.v; k++) ins("-v");
		Res r = run_case(c); S e; S key = fmt("%zu ", js[i].b) + c.show().substr(0, 200) + v.name;
		if (v.badin) {
			if (!r.clean() || r.code == 0) e = "an input file that cannot be opened did not end the run with a failure but: " + r.ending();
			else if (!r.out.empty()) e = "printed something although the input could not be opened";
		} else {
			if (!r.ok()) e = "ended with " + r.ending();
			S text = v.outfile ? r.file : r.out;
			if (e.empty() && v.outfile && !r.out.empty()) e = "wrote to stdout although --output was given";
			if (e.empty() && v.append) { if (text.compare(0, v.pre.size(), v.pre)) e = "--append did not keep what the file held"; else text = text.substr(v.pre.size()); }
			if (e.empty() && !plain[js[i].b].empty() && text != plain[js[i].b]) e = "the output differs from that of the same run on the plain channels";
			if (e.empty() && v.badout && r.err.empty()) e = "no message about the output file";
			std::vector<PC> rec; if (e.empty()) e = parse_output(text, rec);
			if (e.empty() && (b.invalid ? rec.size() < 2 : (int)rec.size() != b.n)) e = fmt("%zu records, %d requested", rec.size(), b.n);
			if (e.empty()) e = judge_recs(b, rec);
			if (e.empty() && (v.v || v.vfile || v.badv)) { const S &lg = v.vfile ? r.vfile : r.err; if (std::count(lg.begin(), lg.end(), '+') < b.n) e = "the verbose log lacks the steps of the search"; }
			if (e.empty() && v.vfile && r.err.find("+++") != S::npos) e = "the verbose log went to stderr although a file was given";
		}
		if (!e.empty()) violation("channel " + key, v.name + ": " + e, &c, &r); else { ctx.distinct++; ctx.count("channel_runs"); }
	});
	bound(fmt("%zu methods and option sets x %zu combinations of input source, output (stdout, new, overwritten, appended, unopenable), verbose log and unopenable files", bs.size(), vs.size()));
	// counts: exactly COUNT records, 1..N
	std::vector<std::pair<size_t, int>> cn; for (size_t b = 0; b < bs.size(); b++) if (!bs[b].invalid && bs[b].args.size() > 1) for (int n : {0, 1, 2, 4, 7, 16, 33, 130, 257, 300}) { if (n > 7 && (bs[b].bits > 32 || !bs[b].rnd)) continue; if (!bs[b].in.empty() || S(bs[b].args[1]).find("--nums") == 0) continue; bool fixedseed = false; for (auto &a : bs[b].args) if (a.find("pool") != S::npos && a.find("=") != S::npos) fixedseed = true; if (fixedseed) continue; cn.push_back({b, n}); }
	parallel(cn.size(), [&](uint64_t i) {
		Base b = bs[cn[i].first]; b.n = cn[i].second; Case c = mk(b); c.seed = 40 + i; Res r = run_case(c); std::vector<PC> rec; S e = r.ok() ? parse_output(r.out, rec) : "ended with " + r.ending();
		if (e.empty() && (int)rec.size() != std::max(1, b.n)) e = fmt("%zu records, %d requested", rec.size(), b.n);
		if (e.empty()) e = judge_recs(b, rec);
		if (!e.empty()) violation("count " + c.show(), e, &c, &r); else { ctx.distinct++; ctx.count("count_runs"); }
	});
	bound("counts 0 (meaning one), 1, 2, 4, 7 (16, 33, 130, 257, 300 where small curves are random) for every method that needs no input");
	// the input ends after every byte
	struct T { size_t b, len; bool f, of; int more; }; std::vector<T> ts;
	for (size_t b = 0; b < bs.size(); b++) if (!bs[b].in.empty()) for (size_t l = 0; l <= bs[b].in.size(); l++) for (int k = 0; k < 3; k++) ts.push_back({b, l, k == 1, k == 2, (int)(l % 3)});
	for (size_t b = 0; b < bs.size(); b++) if (bs[b].in.empty() && !bs[b].rnd) ts.push_back({b, 0, false, false, 0});
	parallel(ts.size(), [&](uint64_t i) {
		Base b = bs[ts[i].b]; if (b.in.empty()) return; int want = b.n; b.n += ts[i].more; if (b.invalid) b.n = 1; Case c = mk(b); c.in = b.in.substr(0, ts[i].len); if (ts[i].f) { c.infile = true; c.in = commas(c.in); } c.outfile = ts[i].of;
		Res r = run_case(c); const S &text = ts[i].of ? r.file : r.out; S e;
		bool whole = ts[i].len + 1 >= b.in.size() && (b.invalid || b.n == want);
		std::vector<PC> rec;
		if (!r.clean()) e = "ended with " + r.ending();
		else if (whole && r.code) e = "the input is complete, but the run failed";
		else if (r.code && text.empty()) ;
		else { e = parse_output(text, rec); if (e.empty() && !b.invalid && (r.code == 0 ? (int)rec.size() != b.n : (int)rec.size() >= b.n)) e = fmt("%zu of %d records printed, and exit status %d", rec.size(), b.n, r.code); if (e.empty() && b.invalid && r.code == 0 && rec.size() < 2) e = "no invalid curves, but success"; if (e.empty()) { Base q = b; if (!whole) q.meta = b.meta; e = judge_recs(q, rec); } }
		if (!e.empty()) violation(fmt("end-of-input %zu %zu ", ts[i].b, ts[i].len) + c.show().substr(0, 100), e, &c, &r); else { ctx.distinct++; ctx.count(r.code ? "truncated_runs_failed" : "truncated_runs_complete"); }
	});
	bound("for every method with interactive input, the input ending after every byte, on stdin, in a file and with --output, asking for 0 to 2 curves more than given");
	sample(mk(bs[0]).show());
}
