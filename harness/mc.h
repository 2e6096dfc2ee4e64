// Common harness: a fork server that executes the real ecgen main() on fully
// determined environments (argv, input bytes, random choices, timer expiries,
// file-system answers) and hands what it printed to an oracle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <atomic>
#include <algorithm>
#include <mutex>
extern "C" {
#include <pari/pari.h>
}
typedef std::string S;

// ---------- one execution of ecgen ----------
struct Case {
	std::vector<S> args;          // argv[1..]
	S in;                         // stdin, or the contents of the --input file
	bool infile = false;          // give `in` through --input=FILE instead of stdin
	bool outfile = false;         // add --output=FILE
	bool verbosefile = false;     // add --verbose=FILE
	S outpre;                     // what FILE held before
	uint64_t seed = 1;            // PARI generator seed
	std::vector<uint64_t> tape;   // answers to ecgen's own random requests, in order (then the seeded default)
	bool tape_on = false;
	std::vector<long> fire;       // timeouts: fire at these timer points
	bool vtimer = false;          // virtual timers
	int fopen_fail = -1;          // fail the n-th fopen
	double tmo = 20;              // seconds
	bool once = false;            // do not run again with more time when slow
	size_t memlimit = 0;
	S show() const;               // a shell-like rendering
	S json() const;
};
struct RandReq { char kind; uint64_t size; uint64_t got; }; // kind, number of values (0: huge), value chosen
struct Res {
	bool exited = false; int code = -1; int sig = 0; bool hang = false;
	S out, err, file, vfile;
	std::vector<RandReq> reqs;    // the random requests it made
	long timer_points = 0, timers_made = 0, timers_deleted = 0, fired = 0;
	long fopens = 0;
	bool paribug() const { return err.find("***") != S::npos; }
	bool ok() const { return exited && code == 0 && !hang && !paribug(); }
	bool clean() const { return exited && !hang && sig == 0 && !paribug(); } // ended by itself
	S ending() const;
};
Res run_case(const Case &c);            // forks
// Run a function of the checker in a forked child (isolation for unit-level drivers). ret: its report text
Res run_fn(const std::function<void()> &f, double tmo);

// unit-level drivers: f runs in a forked child, calls the real functions, and reports with ufail();
// ucount(k) counts work items. Returns "" if all was well.
S unit_run(const std::function<void()> &f, double tmo = 120, uint64_t *n = nullptr);
void ufail(const S &what);
void ucount(uint64_t n = 1);

// shared between a child and the harness
struct Shared {
	uint64_t nreq; RandReq reqs[4096];
	long timer_points, timers_made, timers_deleted, fired, fopens;
	uint64_t user[64];
	size_t ulen; char ubuf[1 << 20];
};
extern Shared *shm;                     // of this worker

// ---------- exploration ----------
struct Ctx {                            // one per worker process
	uint64_t evaluations = 0, distinct = 0;
	std::map<S, uint64_t> cnt;
	std::vector<S> samples;
	std::vector<S> viol;              // rendered violations ("what\n" + case json)
	void count(const S &k, uint64_t n = 1) { cnt[k] += n; }
};
extern Ctx ctx;
extern bool thorough; extern uint64_t vseed; extern S prop, verifdir; extern int njobs;
extern double t_start, t_budget;
double now();
bool out_of_time();

// report a violation of the property by this case
void violation(const S &key, const S &what, const Case *c = nullptr, const Res *r = nullptr, const S &extra = "");
void sample(const S &s);
// run items 0..n-1 over all workers; f(i) runs in a worker process
void parallel(uint64_t n, const std::function<void(uint64_t)> &f, uint64_t chunk = 1);
void note(const S &k, const S &v);      // evidence explanation entry
void bound(const S &s);                 // describe a completed bound

// to be supplied by the module
extern const char *MOD_LEVEL;           // exploration | model_checking | fault_enumeration
extern const char *MOD_RULE;
void mod_run();
void mod_replay(const S &text);          // optional
S fmt(const char *f, ...);
S hexs(uint64_t v);
std::vector<S> split(const S &s, char d);
// ecgen's own main
extern "C" int ecgen_main(int, char **);
