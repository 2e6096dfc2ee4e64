// What is printed depends on nothing but arguments, input and random answers: released and uninitialised memory is painted.
#include "cases.h"
#include <malloc.h>
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "executions of ecgen's main, each run once as it is and again with all released or uninitialised memory painted in two patterns at every entry and exit of an ecgen function; distinct_nontrivial counts cases whose three runs agreed in output, messages and exit status";
static int paint; // 0: none; otherwise the byte
static thread_local bool inside;
static __attribute__((noinline, no_instrument_function)) void stack_paint() { volatile char b[6000]; memset((void *)b, paint, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static __attribute__((no_instrument_function)) void hook() {
	if (!paint || inside || !pari_mainstack || !pari_mainstack->size) return; inside = true;
	size_t left = avma - pari_mainstack->bot, n = std::min<size_t>(left, 1 << 15); if (avma > pari_mainstack->bot && avma <= pari_mainstack->top) memset((void *)(avma - n), paint, n);
	stack_paint(); shm->user[50]++; inside = false;
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *, void *) { hook(); }
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) { hook(); }
extern "C" void mc_child_start() { if (paint) mallopt(M_PERTURB, paint); }
void mod_run() {
	std::vector<Case> cs = broad_cases();
	parallel(cs.size(), [&](uint64_t i) {
		Case c = cs[i]; Res r[3]; static const int pat[3] = {0, 0xa5, 0x2a}; S e;
		for (int k = 0; k < 3 && e.empty(); k++) {
			if (k && r[0].hang) { ctx.count("searches_not_ended_in_time"); return; }
			if (k) { c.tmo = 20; c.once = false; } paint = pat[k]; r[k] = run_case(c); paint = 0; if (!k) continue;
			ctx.count("paintings", shm->user[50]);
			S how = fmt("with released and uninitialised memory filled with 0x%02x, the run ", pat[k]);
			if (r[k].hang) e = how + "does not end"; else if (r[k].exited != r[0].exited || r[k].code != r[0].code || r[k].sig != r[0].sig) e = how + "ended with " + r[k].ending() + ", otherwise with " + r[0].ending();
			else if (r[k].out != r[0].out || r[k].file != r[0].file) e = how + "prints something else"; else if (r[k].err != r[0].err && r[k].err.find("0x7f") == S::npos) e = how + "has other messages"; else if (r[k].vfile != r[0].vfile) e = how + "logs something else";
			if (!e.empty()) { S k2; for (auto &x : c.args) k2 += x + " "; violation("paint " + k2 + c.in.substr(0, 40), e, &c, &r[k], "--- unpainted stdout\n" + r[0].out.substr(0, 3000) + "\n--- unpainted stderr\n" + r[0].err.substr(0, 1500)); return; }
		}
		ctx.distinct++; ctx.count(r[0].ok() ? "runs_that_succeed" : "runs_that_fail");
	});
	bound(fmt("%zu runs: 36 method variants with sets of at most two of 19 options, dialogues of three answers of 15 kinds, option values of 0..48 characters; two patterns; PARI stack (32 KB below its top), heap, and C stack", cs.size()));
	sample(cs[5].show());
}
