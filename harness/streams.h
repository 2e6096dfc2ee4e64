// Interactive-input runs over whole families of small curves, with a reference
// prediction of exactly which curves ecgen has to print, in which order.
#pragma once
#include "oracle.h"
struct Cand { bool bin = false; uint64_t p = 0; int m = 0, e1 = 0, e2 = 0, e3 = 0; uint64_t a = 0, b = 0; };
struct Opts {
	PTS pts = PTS_PRIME; int npts = -1;     // random with a count: npts >= 0
	bool unique = false, prime = false, meta = false, twist = false; uint64_t cofactor = 0, smooth = 0; int koblitz = -1;
	std::vector<S> args() const;
	void expect(Expect &x) const;
	S name() const;
};
S cand_text(const Cand &c, bool fieldonly, char d);
std::vector<Cand> fp_all(uint64_t p);                  // every (a,b)
std::vector<Cand> f2m_all(int m, int e1, int e2, int e3);
std::vector<std::vector<int>> f2m_polys(int m);        // irreducible tri- and pentanomials {e1,e2,e3}
EC cand_ec(const Cand &c);
// does the candidate give a printable curve? (dontcare: the statement leaves it open)
bool acceptable(const Cand &c, const Opts &o, bool &dontcare);
S cand_id(const Cand &c);
struct Stream { std::vector<Cand> in; Opts o; unsigned bits; bool infile = false; std::vector<S> more; };
// runs it, checks the printed sequence (seq) and every record under `what`
void run_stream(const Stream &s, unsigned what, bool seq, const std::function<S(const std::vector<PC> &, const Res &, const Case &)> &also = nullptr);
unsigned bits_of(uint64_t v);
