// Independent implementation of the X9.62 derivation.
#pragma once
#include "oracle.h"
#include "sha.h"
// the r (prime fields) or b (binary fields) the standard derives
static GEN ref_r(const S &seed, long t, bool bin) {
	long s = (t - 1) / 160, h = t - 160 * s;
	S b = seed_bits(seed, h, s);
	if (!bin) b[0] = '0';
	return bin2gen(b);
}
static S judge(const S &seedhex, long t, bool bin, GEN r, GEN p, GEN a, GEN b) {
	if (bin) return equalii(b, r) ? "" : "b is not the value SEED determines";
	if (cmpii(a, p) >= 0 || cmpii(b, p) >= 0 || signe(a) < 0) return "a or b is not reduced";
	return equalii(Fp_mul(r, Fp_sqr(b, p), p), Fp_powu(a, 3, p)) ? "" : "r * b^2 is not a^3 for the r SEED determines";
}
