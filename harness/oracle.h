// Independent oracle: own JSON reader, own field and curve arithmetic, brute-force point counting.
#pragma once
#include "mc.h"
#include <memory>
typedef unsigned __int128 u128;

struct JV {
	char t = 0; // o a s n b 0
	S s; std::vector<JV> a; std::vector<std::pair<S, JV>> o;
	const JV *get(const S &k) const { for (auto &x : o) if (x.first == k) return &x.second; return nullptr; }
};
// strict RFC 8259: the whole text is one value
bool json_parse(const S &t, JV &v, S &err);

// ---- small fields ----
struct Fld {
	bool bin = false; uint64_t p = 0; int m = 0; uint64_t poly = 0, q = 0;
	std::vector<uint32_t> lg, ex;              // log tables (q <= 2^17)
	static std::shared_ptr<Fld> prime(uint64_t p);
	static std::shared_ptr<Fld> binary(int m, uint64_t poly);
	uint64_t add(uint64_t a, uint64_t b) const { if (bin) return a ^ b; uint64_t r = a + b; return r >= p ? r - p : r; }
	uint64_t neg(uint64_t a) const { return bin || !a ? a : p - a; }
	uint64_t sub(uint64_t a, uint64_t b) const { return add(a, neg(b)); }
	uint64_t mul(uint64_t a, uint64_t b) const;
	uint64_t pw(uint64_t a, u128 e) const;
	uint64_t inv(uint64_t a) const;
	uint64_t imm(long k) const { if (bin) return k & 1; long r = k % (long)p; if (r < 0) r += p; return r; }
	std::vector<int8_t> sqc;                   // number of square roots (odd p)
	std::vector<uint8_t> trc;                  // trace (binary)
	void tables();
};
struct Pt { bool inf = true; uint64_t x = 0, y = 0; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
struct EC {
	std::shared_ptr<Fld> f; uint64_t a = 0, b = 0;
	bool singular() const;
	bool on(const Pt &P) const;
	Pt neg(const Pt &P) const;
	Pt add(const Pt &P, const Pt &Q) const;
	Pt mul(const Pt &P, uint64_t k) const;
	uint64_t count() const;                    // exact number of points, by enumeration
	uint64_t order(const Pt &P, uint64_t N) const; // exact order of P given that N*P = O
	std::vector<Pt> points() const;            // all affine points
	void group(uint64_t N, uint64_t &n1, uint64_t &n2) const; // Z/n1 x Z/n2, n1 | n2 (by brute force over all points)
	uint64_t j() const, disc() const;
};
std::vector<std::pair<uint64_t, int>> factorize(uint64_t n);
std::vector<uint64_t> divisors(uint64_t n);
bool is_prime64(uint64_t n);
bool irreducible2(uint64_t poly);              // over GF(2), degree < 64

// ---- printed records ----
struct PP { S x, y, order, cofactor; bool has_points = false; std::vector<PP> points; };
struct PC {
	bool bin = false; S p, m, e1, e2, e3, seed, a, b, order; bool has_seed = false, has_subgroups = false, has_meta = false;
	std::vector<PP> gens; std::map<S, S> meta;
};
// Parses what ecgen printed: a JSON array of curve records with exactly the documented members. "" if fine.
S parse_output(const S &out, std::vector<PC> &recs);
S parse_record(const JV &v, PC &c);
bool hex2gen_ok(const S &s);
GEN hex2gen(const S &s);                       // on the PARI stack
bool hex2u(const S &s, uint64_t &v);           // false if not 0x.. or does not fit in 63 bits

enum PTS { PTS_PRIME, PTS_NONPRIME, PTS_ALL, PTS_NONE, PTS_RANDOM, PTS_ANY, PTS_FREE };
enum { W_CURVE = 1, W_GENS = 2, W_PTS = 4, W_META = 8, W_OPTS = 16, W_ALL = 31 };
struct Expect {
	unsigned what = W_ALL;                      // which claims to judge
	bool bin = false; unsigned bits = 0;
	bool field_bits_exact = false;              // p must have exactly `bits` bits (random fields)
	bool unique = false; uint64_t cofactor = 0; // options in force
	bool prime = false; uint64_t smooth = 0; bool koblitz = false; int kob_a = 0;
	bool meta = false;
	PTS pts = PTS_PRIME; uint64_t npts = 0;     // npts: for random (0: exactly one)
	bool gens = true;                           // generators must generate everything
	bool single_gen_ok = false;                 // a single generator of a (possibly proper) subgroup is allowed
	bool seed = false;
};
// Everything a printed record claims, checked from first principles. "" if all of it is true.
S check_record(const PC &c, const Expect &e);
S check_small(const PC &c, const Expect &e);
S check_large(const PC &c, const Expect &e);
bool small_curve(const PC &c, EC &ec, S &err);  // fields up to 2^17
S curve_id(const PC &c);
// helpers on larger curves, PARI integer arithmetic only
struct BigEC {
	bool bin; GEN p, a, b, T; long m;
	bool on(GEN x, GEN y);
	// points as t_VEC [x,y] or gen_0 (infinity)
	GEN add(GEN P, GEN Q), neg(GEN P), mul(GEN P, GEN k);
	GEN f_mul(GEN, GEN), f_add(GEN, GEN), f_inv(GEN), f_sub(GEN, GEN);
};
bool order_is_exactly(BigEC &E, GEN N);         // verified with group elements and the Hasse bound
bool big_from(const PC &c, BigEC &E, S &err);
