// Independent SHA-1, and the seed arithmetic shared by the seeded methods' references.
#pragma once
#include "mc.h"
static void rsha(const S &m, unsigned char out[20]) {
	uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; S d = m; d += (char)0x80; while (d.size() % 64 != 56) d += (char)0; uint64_t L = m.size() * 8; for (int i = 7; i >= 0; i--) d += (char)(L >> (8 * i));
	auto rl = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
	for (size_t o = 0; o < d.size(); o += 64) {
		uint32_t w[80]; for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] = w[i] << 8 | (unsigned char)d[o + i * 4 + j]; } for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], e = h[3], g = h[4];
		for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) f = (b & c) | (~b & e), k = 0x5A827999; else if (i < 40) f = b ^ c ^ e, k = 0x6ED9EBA1; else if (i < 60) f = (b & c) | (b & e) | (c & e), k = 0x8F1BBCDC; else f = b ^ c ^ e, k = 0xCA62C1D6; uint32_t t = rl(a, 5) + f + g + k + w[i]; g = e; e = c; c = rl(b, 30); b = a; a = t; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g;
	}
	for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
// seeds are strings of hex digits
static S unhex(S h) { if (h.size() & 1) h += "0"; S r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtoul(h.substr(i, 2).c_str(), 0, 16); return r; }
static S tohex(const S &b) { S r; for (unsigned char c : b) r += fmt("%02x", c); return r; }
// (s + k) mod 16^|s|
static S addseed(S s, uint64_t k) { unsigned long long c = k; for (size_t i = s.size(); i-- > 0 && c;) { c += isdigit(s[i]) ? s[i] - '0' : tolower(s[i]) - 'a' + 10; s[i] = "0123456789abcdef"[c & 15]; c >>= 4; } return s; }
static S sha(const S &m) { unsigned char o[20]; rsha(m, o); return S((char *)o, 20); }
static S tobin(const S &b) { S r; for (unsigned char c : b) for (int i = 7; i >= 0; i--) r += (char)('0' + (c >> i & 1)); return r; }
// the w rightmost bits of SHA1(s), then SHA1(s+1), ..., SHA1(s+v), as a binary string
static S seed_bits(const S &s, long w, long v) { S h = tobin(sha(unhex(s))), r = h.substr(160 - w); for (long i = 1; i <= v; i++) r += tobin(sha(unhex(addseed(s, i)))); return r; }
static GEN bin2gen(const S &b) { GEN r = gen_0; for (size_t i = 0; i < b.size(); i += 32) { S c = b.substr(i, 32); r = addiu(shifti(r, c.size()), strtoull(c.c_str(), 0, 2)); } return r; }
