// No run touches memory it does not own or does what C leaves undefined.
#include "cases.h"
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "executions of ecgen's main built with AddressSanitizer and UndefinedBehaviorSanitizer; distinct_nontrivial counts executions that ran to their end with none of their reports";
void mod_run() {
	std::vector<Case> cs = broad_cases();
	parallel(cs.size(), [&](uint64_t i) {
		Case c = cs[i]; c.tmo = 3; c.verbosefile = false; Res r = run_case(c); S e; size_t p;
		for (auto *w : {"ERROR: AddressSanitizer", "runtime error:"}) if ((p = r.err.find(w)) != S::npos) e = r.err.substr(p, 160);
		if (e.empty() && !r.hang && r.sig) e = "ended with " + r.ending();
		if (!e.empty()) { S k; for (auto &x : c.args) k += x + " "; violation("safety " + k + c.in.substr(0, 40), e, &c, &r); return; }
		if (r.hang) { ctx.count("searches_not_ended_in_time"); return; }
		ctx.distinct++; ctx.count(r.ok() ? "runs_that_succeed" : "runs_that_fail");
	});
	bound(fmt("%zu runs: 36 method variants with sets of at most two of 19 options, dialogues of three answers of 15 kinds, option values of 0..48 characters", cs.size()));
	sample(cs[5].show());
}
