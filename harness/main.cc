#include "mc.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <fstream>
#include <sstream>

bool thorough; uint64_t vseed = 1; S prop, verifdir; int njobs = 8;
double t_start, t_budget;
static std::map<S, S> notes; static std::vector<S> bounds;
static S tmpdir;
static int phase;
static std::atomic<uint64_t> *next_item; static std::atomic<int> *nviol; static std::atomic<int> *capped;
static bool in_worker; extern std::atomic<double> *t_viol;
static const int MAXV = getenv("MC_FAST") ? 1 : 25;
static std::map<S, S> known;   // key -> text
static std::set<S> known_hit;

void note(const S &k, const S &v) { notes[k] = v; }
void bound(const S &s) { bounds.push_back(s); }
void sample(const S &s) { if (ctx.samples.size() < 4) ctx.samples.push_back(s.size() > 600 ? s.substr(0, 600) + "..." : s); }
void violation(const S &key, const S &what, const Case *c, const Res *r, const S &extra) {
	if (getenv("MC_ALL")) { fprintf(stderr, "ALL %s: %s\n", key.c_str(), what.c_str()); return; }
	S t = key + "\x01" + what;
	t += "\x01";
	if (c) t += "command: " + c->show() + "\n\ncase: " + c->json() + "\n";
	if (r) t += "\nended: " + r->ending() + "\n--- stdout\n" + r->out.substr(0, 6000) + "\n--- stderr\n" + r->err.substr(0, 3000) + (r->file.empty() ? "" : "\n--- output file\n" + r->file.substr(0, 4000)) + "\n";
	if (!extra.empty()) t += "\n" + extra + "\n";
	if (!known.count(key)) { (*nviol)++; if (!t_viol->load()) t_viol->store(now()); }
	if (ctx.viol.size() < 200) ctx.viol.push_back(t);
}
static S jesc(const S &s) {
	S r;
	for (unsigned char c : s) {
		if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c;
	}
	return r;
}
static void put(std::ostream &o, const S &s) { o << s.size() << "\n" << s << "\n"; }
static S get(std::istream &i) { size_t n; i >> n; i.get(); S s(n, 0); i.read(&s[0], n); i.get(); return s; }
static void dump(const S &path) {
	std::ofstream o(path + ".t");
	o << ctx.evaluations << " " << ctx.distinct << "\n" << ctx.cnt.size() << "\n";
	for (auto &k : ctx.cnt) { put(o, k.first); o << k.second << "\n"; }
	o << ctx.samples.size() << "\n"; for (auto &s : ctx.samples) put(o, s);
	o << ctx.viol.size() << "\n"; for (auto &s : ctx.viol) put(o, s);
	o.close(); rename((path + ".t").c_str(), path.c_str());
}
static bool load(const S &path) {
	std::ifstream i(path); if (!i) return false;
	uint64_t a, b; size_t n; i >> a >> b; ctx.evaluations += a; ctx.distinct += b;
	i >> n; for (size_t k = 0; k < n; k++) { S s = get(i); uint64_t v; i >> v; ctx.cnt[s] += v; }
	i >> n; for (size_t k = 0; k < n; k++) { S s = get(i); if (ctx.samples.size() < 6) ctx.samples.push_back(s); }
	i >> n; for (size_t k = 0; k < n; k++) ctx.viol.push_back(get(i));
	return (bool)i;
}
void parallel(uint64_t n, const std::function<void(uint64_t)> &f, uint64_t chunk) {
	if (in_worker) { for (uint64_t i = 0; i < n; i++) f(i); return; }
	if (*nviol >= MAXV) return;
	phase++;
	*next_item = 0;
	int W = (int)std::min<uint64_t>(njobs, (n + chunk - 1) / chunk);
	uint64_t *curitem = (uint64_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pids;
	auto worker = [&](int w) {
		in_worker = true;
		ctx = Ctx();
		shm = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		double last = now();
		while (true) {
			uint64_t i = next_item->fetch_add(chunk);
			if (i >= n) break;
			if (*nviol >= MAXV) break;
			for (uint64_t j = i; j < n && j < i + chunk; j++) {
				if (out_of_time()) { (*capped)++; break; }
				curitem[w] = j + 1;
				pari_sp av = avma;
				f(j);
				avma = av;
				if (now() - last > 2) { last = now(); }
			}
		}
		curitem[w] = 0;
		dump(tmpdir + fmt("/w%d.%d", phase, w));
		_exit(0);
	};
	fflush(NULL);
	for (int w = 0; w < W; w++) { pid_t p = fork(); if (!p) worker(w); pids.push_back(p); }
	for (int w = 0; w < W; w++) {
		int st; waitpid(pids[w], &st, 0);
		bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0 && load(tmpdir + fmt("/w%d.%d", phase, w));
		if (!good) {
			uint64_t item = curitem[w];
			// The oracle itself did not survive this item. Re-run it alone: if it fails again the output could not be interpreted.
			pid_t p = fork();
			if (!p) { njobs = 1; in_worker = true; ctx = Ctx(); shm = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (item) f(item - 1); _exit(0); }
			int st2; waitpid(p, &st2, 0);
			if (item && !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0))
				violation(fmt("uninterpretable:%d:%llu", phase, (unsigned long long)item), fmt("work item %llu of phase %d produced output the oracle cannot evaluate (oracle process ended with status %d, twice)", (unsigned long long)item - 1, phase, st2));
			else { fprintf(stderr, "harness error: worker %d ended with status %d and could not be reproduced\n", w, st); exit(3); }
		}
	}
	munmap(curitem, 4096);
}
static S readfile(const S &p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main(int argc, char **argv) {
	prop = argc > 1 ? argv[1] : "C00";
	verifdir = argc > 2 ? argv[2] : "/verif";
	tmpdir = argc > 3 ? argv[3] : "/tmp";
	if (chdir(tmpdir.c_str())) return 2; // files that a run names relatively
	const char *e = getenv("VERIF_TIER"); thorough = e && !strcmp(e, "thorough");
	e = getenv("VERIF_SEED"); if (e) vseed = strtoull(e, 0, 10);
	e = getenv("MC_JOBS"); if (e) njobs = atoi(e);
	t_start = now(); t_budget = thorough ? 780 : 330;
	e = getenv("MC_BUDGET"); if (e) t_budget = atof(e);
	void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	next_item = new (m) std::atomic<uint64_t>(0); nviol = new ((char *)m + 64) std::atomic<int>(0); capped = new ((char *)m + 128) std::atomic<int>(0); t_viol = new ((char *)m + 192) std::atomic<double>(0);
	shm = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	{ // known findings: lines "KNOWN property=<id> key=<key> :: <text>"
		std::ifstream k(verifdir + "/known_findings.txt"); S l;
		while (std::getline(k, l)) {
			S pre = "known: property=" + prop + " key=";
			if (l.compare(0, pre.size(), pre)) continue;
			S rest = l.substr(pre.size()); size_t q = rest.find(" :: ");
			if (q != S::npos) known[rest.substr(0, q)] = rest.substr(q + 4);
		}
	}
	pari_init(1000000000, 1000000);
	default0("nbthreads", "1");
	{ pari_sp av = avma; ellmodulareqn(2, -1, -1); isprime(stoi(1)); avma = av; }
	mod_run();
	double wall = now() - t_start;
	// verdict
	std::map<S, S> uniq; int nv = 0;
	for (auto &v : ctx.viol) { S key = v.substr(0, v.find('\x01')); if (known.count(key)) { known_hit.insert(key); continue; } if (!uniq.count(key)) { uniq[key] = v; nv++; } }
	for (auto &k : known_hit) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known[k].c_str());
	int shown = 0;
	for (auto &u : uniq) {
		if (shown >= 5) break;
		S v = u.second; size_t p = v.find('\x01'), q = v.find('\x01', p + 1);
		S what = v.substr(p + 1, q - p - 1), body = v.substr(q + 1);
		S dir = verifdir + "/build/replay"; mkdir((verifdir + "/build").c_str(), 0755); mkdir(dir.c_str(), 0755);
		S file = dir + fmt("/%s-%d.txt", prop.c_str(), shown);
		std::ofstream o(file); o << "property " << prop << "\nkey " << u.first << "\n" << what << "\n\n" << body; o.close();
		printf("VIOLATION property=%s replay=%s\n  %s\n", prop.c_str(), file.c_str(), what.substr(0, 1500).c_str());
		shown++;
	}
	// evidence
	S lvl = MOD_LEVEL, j = "{\n";
	j += fmt(" \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\", \"wall_s\": %.2f, \"violations\": %d,\n", prop.c_str(), thorough ? "thorough" : "quick", (unsigned long long)vseed, lvl.c_str(), wall, nv);
	j += " \"coverage\": {\n";
	if (lvl == "model_checking") {
		for (const char *k : {"states", "transitions", "traces_validated_against_impl"}) if (!ctx.cnt.count(k)) ctx.cnt[k] = 0;
	} else {
		j += fmt("  \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n", (unsigned long long)ctx.evaluations, (unsigned long long)ctx.distinct);
	}
	j += "  \"rule\": \"" + jesc(MOD_RULE) + "\",\n";
	for (auto &k : ctx.cnt) { S kk = k.first; for (char &c : kk) if (!isalnum((unsigned char)c)) c = '_'; j += "  \"" + kk + fmt("\": %llu,\n", (unsigned long long)k.second); }
	j += fmt("  \"caps_hit\": %d,\n  \"exhaustive\": %s,\n", (int)*capped, *capped || nv ? "false" : "true");
	j += "  \"bounds_completed\": ["; for (size_t i = 0; i < bounds.size(); i++) j += (i ? ", \"" : "\"") + jesc(bounds[i]) + "\""; j += "],\n";
	for (auto &k : notes) j += "  \"" + k.first + "\": \"" + jesc(k.second) + "\",\n";
	j += "  \"samples\": ["; for (size_t i = 0; i < ctx.samples.size(); i++) j += (i ? ",\n    \"" : "\n    \"") + jesc(ctx.samples[i]) + "\""; j += "]\n },\n";
	j += " \"assumptions\": [\"PARI/GP, libc and the compiler are trusted\", \"randomness reaches ecgen only through the intercepted PARI calls and setrand\"]\n}\n";
	mkdir((verifdir + "/evidence").c_str(), 0755);
	std::ofstream o(verifdir + "/evidence/" + prop + ".json"); o << j; o.close();
	printf("%s: %llu executions, %llu distinct non-trivial, %d violation(s), %.1f s%s\n", prop.c_str(), (unsigned long long)ctx.evaluations, (unsigned long long)ctx.distinct, nv, wall, *capped ? " (TIME CAP HIT)" : "");
	for (auto &k : ctx.cnt) printf("   %-40s %llu\n", k.first.c_str(), (unsigned long long)k.second);
	fflush(stdout);
	_exit(nv ? 1 : 0);
}
