// Bit strings (C21) and SHA-1 (C26): the real functions on every operand up to a length bound and
// every operation sequence up to a depth, against a reference model.
#include "mc.h"
#include "sha.h"
extern "C" {
#include "util/bits.h"
#include "util/memory.h"
#include "sha1/sha1.h"
}
const char *MOD_LEVEL = "exploration";
const char *MOD_RULE = "evaluations: operations applied to the real implementation and compared with the reference model (each on a distinct operand tuple or operation sequence)";
struct B { S s; bool sign = false; };
static B of(const bits_t *b) { B r; r.sign = b->sign; for (size_t i = 0; i < b->bitlen; i++) r.s += (b->bits[i / 8] >> (7 - i % 8)) & 1 ? '1' : '0'; return r; }
static bits_t *mk(const S &s, bool sign = false) { bits_t *b = bits_from_bin(s.c_str()); b->sign = sign; return b; }
static S str(const B &b) { return (b.sign ? "-" : "") + b.s; }
static bool same(const bits_t *b, const S &want, bool sign, const S &ctxt) {
	B g = of(b); ucount();
	if (g.s != want || g.sign != sign) { ufail(ctxt + ": got '" + str(g) + "', should be '" + (sign ? "-" : "") + want + "'"); return false; }
	if (b->allocated < BYTE_LEN(b->bitlen)) { ufail(ctxt + ": bit string longer than its allocation"); return false; }
	return true;
}
static S all(int len, uint64_t v) { S r; for (int i = len - 1; i >= 0; i--) r += (v >> i) & 1 ? '1' : '0'; return r; }
static uint64_t val(const S &s) { uint64_t v = 0; for (char c : s) v = v * 2 + (c == '1'); return v; }
static bool nz(const S &s) { return s.find('1') != S::npos; }
static S refhex(const S &s) { S t = s; while (t.size() % 8) t = "0" + t; S r; for (size_t i = 0; i < t.size(); i += 4) r += fmt("%x", (int)val(t.substr(i, 4))); return r; }
static S shift(const S &s, long k) { S r; for (long i = 0; i < (long)s.size(); i++) { long j = i + k; r += j >= 0 && j < (long)s.size() ? s[j] : '0'; } return r; }
static S rotl(const S &s, long k) { S r; long n = s.size(); for (long i = 0; i < n; i++) { long j = ((i + k) % n + n) % n; r += s[j]; } return r; }
// conversions of one string
static void conv(const S &s) {
	bits_t *b = mk(s);
	if (!same(b, s, false, "bits_from_bin(" + s + ")")) return;
	for (int sg = 0; sg < 2; sg++) {
		b->sign = sg;
		char *h = bits_to_hex(b); S w = (sg ? "-" : "") + refhex(s); ucount(); if (w != h) { ufail("bits_to_hex(" + s + fmt(") sign %d: got ", sg) + h + ", should be " + w); return; } try_free(h);
		h = bits_to_bin(b); w = (sg ? "-" : "") + s; ucount(); if (w != h) { ufail("bits_to_bin(" + s + "): got " + S(h)); return; } try_free(h);
		if (nz(s) || !sg) { GEN i = bits_to_i(b); GEN v = s.size() <= 62 ? stoi(val(s)) : NULL; if (!v) { v = gen_0; for (char c : s) v = addis(shifti(v, 1), c == '1'); } if (sg) v = negi(v); ucount(); if (!equalii(i, v)) { ufail("bits_to_i(" + s + "): got " + GENtostr(i)); return; }
			bits_t *f = bits_from_i(v); S m = s; while (m.size() && m[0] == '0') m.erase(0, 1); if (!nz(s)) m = of(f).s.size() <= 1 && !val(of(f).s) ? of(f).s : ""; if (!same(f, m, sg && nz(s), "bits_from_i(" + S(GENtostr(v)) + ")")) return; bits_free(&f);
			for (size_t L : {s.size(), s.size() + 1, s.size() + 7, s.size() + 8, s.size() + 13}) { f = bits_from_i_len(v, L); if (!same(f, S(L - s.size(), '0') + s, sg && nz(s), fmt("bits_from_i_len(%s, %zu)", GENtostr(v), L))) return; bits_free(&f); } }
		bits_t *c = bits_copy(b); if (!same(c, s, sg, "bits_copy(" + s + ")")) return; ucount(); if (!bits_eq(c, b)) { ufail("bits_eq false for equal strings " + s); return; } bits_free(&c); if (c) { ufail("bits_free does not clear the pointer"); return; }
	}
	b->sign = false;
	GEN v = bits_to_bitvec(b); ucount(); if (!s.empty() && glength(v) != (long)s.size()) { ufail("bits_to_bitvec length of " + s); return; }
	for (size_t i = 0; i < s.size(); i++) if (v[i + 1] != (s[i] == '1')) { ufail("bits_to_bitvec(" + s + ") differs"); return; }
	bits_t *c = s.empty() ? bits_new(0) : bits_from_bitvec(v); if (!same(c, s, false, "bits_from_bitvec of " + s)) return; bits_free(&c);
	ucount(); if (bits_to_rawlen(b) != (s.size() + 7) / 8) { ufail("bits_to_rawlen of " + s); return; }
	unsigned char *raw = bits_to_raw(b); c = s.empty() ? bits_new(0) : bits_from_raw(raw, s.size()); if (!same(c, s, false, "bits_from_raw(bits_to_raw) of " + s)) return; bits_free(&c); if (raw) try_free(raw);
	if (s.size() % 4 == 0) { S hx; for (size_t i = 0; i < s.size(); i += 4) hx += fmt((i / 4) & 1 ? "%X" : "%x", (int)val(s.substr(i, 4))); c = bits_from_hex(hx.c_str()); if (!same(c, s, false, "bits_from_hex(" + hx + ")")) return; bits_free(&c); }
	bits_free(&b);
}
// one operation of the alphabet: applies it to b in place, returns the model result
struct Op { S name; std::function<bool(const S &)> en; std::function<void(bits_t *)> z; std::function<bits_t *(const bits_t *)> pure; std::function<S(const S &)> ref; };
static std::vector<Op> ops_at(long k) {
	std::vector<Op> r; auto yes = [](const S &) { return true; };

		r.push_back({fmt("shift(%ld)", k), yes, [k](bits_t *b) { bits_shiftz(b, k); }, [k](const bits_t *b) { return bits_shift(b, k); }, [k](const S &s) { return shift(s, k); }});
		r.push_back({fmt("shiftr(%ld)", k), [](const S &s) { return !s.empty(); }, [k](bits_t *b) { bits_shiftrz(b, k); }, [k](const bits_t *b) { return bits_shiftr(b, k); }, [k](const S &s) { return rotl(s, k); }});
		r.push_back({fmt("lengthen(%ld)", k), yes, [k](bits_t *b) { bits_lengthenz(b, k); }, [k](const bits_t *b) { return bits_lengthen(b, k); }, [k](const S &s) { return k > 0 ? S(k, '0') + s : s + S(-k, '0'); }});
		r.push_back({fmt("shorten(%ld)", k), [k](const S &s) { return labs(k) <= (long)s.size(); }, [k](bits_t *b) { bits_shortenz(b, k); }, [k](const bits_t *b) { return bits_shorten(b, k); }, [k](const S &s) { return k > 0 ? s.substr(k) : s.substr(0, s.size() + k); }});
		r.push_back({fmt("shifti(%ld)", k), [k](const S &s) { return k >= 0 || -k <= (long)s.size(); }, [k](bits_t *b) { bits_shiftiz(b, k); }, [k](const bits_t *b) { return bits_shifti(b, k); }, [k](const S &s) { return k > 0 ? s + S(k, '0') : s.substr(0, s.size() + k); }});
		return r;
}
static std::vector<Op> ops(int maxam) {
	std::vector<Op> r;
	auto yes = [](const S &) { return true; };
	r.push_back({"not", yes, bits_notz, bits_not, [](const S &s) { S t = s; for (char &c : t) c ^= 1; return t; }});
	r.push_back({"rot", yes, bits_rotz, bits_rot, [](const S &s) { return S(s.rbegin(), s.rend()); }});
	for (long k = -maxam; k <= maxam; k++) { auto v = ops_at(k); r.insert(r.end(), v.begin(), v.end()); }
	for (S t : {S(""), S("1"), S("01"), S("1010110"), S("11111111"), S("100000001")}) r.push_back({"concat(" + t + ")", yes, [t](bits_t *b) { bits_t *o = mk(t); bits_concatz(b, o, NULL); bits_free(&o); }, [t](const bits_t *b) { bits_t *o = mk(t), *r = bits_concat(b, o, NULL); bits_free(&o); return r; }, [t](const S &s) { return s + t; }});
	return r;
}
static std::vector<Op> OPS;
static size_t LIM = 24; // longest string a sequence goes on from
static void one(const S &s, const Op &o, const S &hist) {
	if (!o.en(s)) return;
	bits_t *b = mk(s); bits_t *r = o.pure(b);
	S w = o.ref(s);
	if (same(r, w, false, o.name + " of '" + s + "'" + hist)) same(b, s, false, o.name + " changed its operand '" + s + "'");
	bits_free(&r); o.z(b); same(b, w, false, o.name + " in place of '" + s + "'" + hist); bits_free(&b);
}
static void seqs_on(bits_t *b0, const S &s0, int depth, const S &h0) {
	// depth-first over all operation sequences on one live object (allocation histories matter)
	std::function<void(bits_t *, const S &, int, const S &)> rec = [&](bits_t *b, const S &s, int d, const S &h) {
		for (auto &o : OPS) {
			if (!o.en(s) || shm->ulen) continue;
			bits_t *c = bits_copy(b); o.z(c); S w = o.ref(s);
			if (!same(c, w, false, h + ", then " + o.name)) return;
			char *hx = bits_to_hex(c); if (refhex(w) != hx) { ufail(h + ", then " + o.name + ": bits_to_hex gives " + hx + " for " + w); return; } try_free(hx);
			if (d > 1 && w.size() <= LIM) rec(c, w, d - 1, h + ", then " + o.name);
			// a copy over a differently sized target
			if (d == 1) { bits_t *t = mk("1101101101101"); bits_cpy(t, c); if (!same(t, w.empty() ? S("1101101101101") : w, false, h + ", then " + o.name + ", bits_cpy over a 13-bit string")) return; bits_free(&t); }
			bits_free(&c);
		}
	};
	rec(b0, s0, depth, h0);
}
static void seqs(const S &s0, int depth) { bits_t *b = mk(s0); seqs_on(b, s0, depth, "'" + s0 + "'"); bits_free(&b); }
static void pair(const S &a, const S &b) {
	bits_t *x = mk(a), *y = mk(b);
	size_t n = std::max(a.size(), b.size()); S p = S(n - a.size(), '0') + a, q = S(n - b.size(), '0') + b, o, d;
	for (size_t i = 0; i < n; i++) { o += p[i] == '1' || q[i] == '1' ? '1' : '0'; d += p[i] == '1' && q[i] == '1' ? '1' : '0'; }
	bits_t *r = bits_or(x, y); same(r, o, false, "bits_or(" + a + ", " + b + ")"); bits_free(&r);
	r = bits_and(x, y); same(r, d, false, "bits_and(" + a + ", " + b + ")"); bits_free(&r);
	ucount(); if (bits_eq(x, y) != (a == b)) ufail("bits_eq(" + a + ", " + b + ") is wrong");
	r = bits_concat(x, y, x, NULL); same(r, a + b + a, false, "bits_concat(" + a + ", " + b + ", " + a + ")"); bits_free(&r);
	bits_cpy(x, y); same(x, b.empty() ? a : b, false, "bits_cpy over '" + a + "' from '" + b + "'");
	bits_free(&x); bits_free(&y);
}
// ---- SHA-1 reference ----
static S msg(size_t len, int pat) { S m; for (size_t i = 0; i < len; i++) m += (char)(pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 37 + len : pat == 3 ? (i == 0 ? 0x80 : 0) : pat == 4 ? (i + 1 == len ? 1 : 0) : (i * i * 7 + i + pat * 41)); return m; }
static S hx(const unsigned char *p) { S r; for (int i = 0; i < 20; i++) r += fmt("%02x", p[i]); return r; }
static void sha_one(const S &m, const S &name) {
	unsigned char a[20], b[20]; rsha(m, a);
	bits_t *x = m.empty() ? bits_new(0) : bits_from_raw((const unsigned char *)m.data(), m.size() * 8); bits_sha1(x, b); bits_free(&x); ucount();
	if (memcmp(a, b, 20)) ufail("SHA-1 of " + name + " is " + hx(b) + ", should be " + hx(a));
}
static void sha_split(const S &m, std::vector<size_t> cuts, const S &name) {
	unsigned char a[20], b[20]; rsha(m, a); SHA_CTX c; SHA1_Init(&c); size_t o = 0; for (size_t k : cuts) { SHA1_Update(&c, m.data() + o, (int)(k - o)); o = k; } SHA1_Update(&c, m.data() + o, (int)(m.size() - o)); SHA1_Final(b, &c); ucount();
	if (memcmp(a, b, 20)) ufail("SHA-1 of " + name + " in parts is " + hx(b) + ", should be " + hx(a));
}
void mod_run() {
	struct It { S name; std::function<void()> f; };
	std::vector<It> it;
	if (prop == "C26") {
		{ unsigned char t[20]; rsha("abc", t); if (hx(t) != "a9993e364706816aba3e25717850c26c9cd0d89d") { fprintf(stderr, "reference SHA-1 broken\n"); exit(3); } }
		for (int p = 0; p < 8; p++) it.push_back({fmt("lengths, pattern %d", p), [p] { for (size_t n = 0; n <= (thorough ? 2100 : 520); n++) sha_one(msg(n, p), fmt("%zu bytes of pattern %d", n, p)); for (size_t n : {1000, 4095, 4096, 65535, 65536, 70000}) sha_one(msg(n, p), fmt("%zu bytes of pattern %d", n, p)); }});
		size_t LN = thorough ? 40000 : 16000; // every length, then all those near powers of two
		for (size_t lo = 0; lo < LN; lo += 250) for (int p : {2, 5}) it.push_back({fmt("lengths %zu to %zu, pattern %d", lo, lo + 249, p), [lo, p] { for (size_t n = lo; n < lo + 250; n++) sha_one(msg(n, p), fmt("%zu bytes of pattern %d", n, p)); }});
		for (int k = 14; k <= (thorough ? 22 : 20); k++) it.push_back({fmt("lengths near 2^%d", k), [k] { for (long d = k < 18 ? -70 : -9; d <= (k < 18 ? 70 : 1); d++) { size_t n = (1l << k) + d; sha_one(msg(n, 5), fmt("%zu bytes of pattern 5", n)); } }});
		for (int n : {191, 192, 193, 255, 256, 300, 640, 1000}) it.push_back({fmt("splits of %d bytes", n), [n] { S m = msg(n, 5); std::vector<size_t> at; for (int i = 0; i <= n; i++) if (i % 64 < 2 || i % 64 == 63 || i % 64 == 55) at.push_back(i); for (size_t a : at) for (size_t b : at) if (b >= a) { sha_split(m, {a, b}, fmt("%d bytes cut at %zu and %zu", n, a, b)); if (n < 400) for (size_t c : at) if (c >= b) sha_split(m, {a, b, c}, fmt("%d bytes cut at %zu, %zu and %zu", n, a, b, c)); } }});
		for (int h = 0; h < 16; h++) it.push_back({fmt("all 1- and 2-byte messages, part %d", h), [h] { for (int v = 0; v < 256; v++) sha_one(S(1, (char)v), fmt("byte %02x", v)); for (int v = h * 4096; v < (h + 1) * 4096; v++) sha_one(S{(char)(v >> 8), (char)v}, fmt("bytes %04x", v)); }});
		it.push_back({"every one-bit 20-, 55-, 56-, 64-byte message", [] { for (size_t n : {20, 21, 55, 56, 63, 64, 65, 119, 120}) for (size_t b = 0; b < n * 8; b++) { S m(n, 0); m[b / 8] = 1 << (b % 8); sha_one(m, fmt("%zu bytes, only bit %zu set", n, b)); } }});
		int L = thorough ? 200 : 130;
		for (int n = 0; n <= L; n++) it.push_back({fmt("splits of %d bytes", n), [n] { S m = msg(n, 5); for (int i = 0; i <= n; i++) { sha_split(m, {(size_t)i}, fmt("%d bytes cut at %d", n, i)); if (n % 5 == 0 || thorough) for (int j = i; j <= n; j += thorough ? 1 : 3) sha_split(m, {(size_t)i, (size_t)j}, fmt("%d bytes cut at %d and %d", n, i, j)); } }});
		bound(fmt("all 1- and 2-byte messages, all lengths 0..%d in 8 patterns, 0..%zu in two, and those near 2^14 to 2^20, every split of messages up to %d bytes and splits near block borders of longer ones", thorough ? 2100 : 520, LN, L));
	} else {
		int N = thorough ? 13 : 10;
		for (int n = 0; n <= N; n++) it.push_back({fmt("conversions of all %d-bit strings", n), [n] { for (uint64_t v = 0; v < 1ull << n; v++) conv(all(n, v)); }});
		it.push_back({"conversions of long strings", [] { for (int n = 14; n <= 300; n++) for (uint64_t k = 0; k < 6; k++) { S s; for (int i = 0; i < n; i++) s += k == 0 ? '1' : k == 1 ? "10"[i % 2] : k == 2 ? (i ? '0' : '1') : k == 3 ? (i == n - 1 ? '1' : '0') : "01"[(i * i + k * i + n) / 3 % 2]; conv(s); } }});
		OPS = ops(N + 4);
		for (int n = 0; n <= N; n++) for (size_t o = 0; o < OPS.size(); o += 8) it.push_back({fmt("operations on all %d-bit strings", n), [n, o] { for (size_t k = o; k < o + 8 && k < OPS.size(); k++) for (uint64_t v = 0; v < 1ull << n; v++) one(all(n, v), OPS[k], ""); }});
		int M = thorough ? 7 : 6;
		for (int n = 0; n <= M; n++) for (int m = 0; m <= M; m++) it.push_back({fmt("pairs %d,%d", n, m), [n, m] { for (uint64_t u = 0; u < 1ull << n; u++) for (uint64_t v = 0; v < 1ull << m; v++) pair(all(n, u), all(m, v)); }});
		it.push_back({"long pairs", [] { for (int n : {7, 8, 9, 15, 16, 17, 31, 33, 64, 65}) for (int m : {0, 1, 7, 8, 9, 16, 17, 63, 64}) { S a, b; for (int i = 0; i < n; i++) a += "0110101"[(i * 5 + n) % 7]; for (int i = 0; i < m; i++) b += "1001110"[(i * 3 + m) % 7]; pair(a, b); } }});
		// operations on long strings, amounts around bytes, words and the length
		for (int n : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 159, 160, 161, 255, 256, 257, 320, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4099}) it.push_back({fmt("operations on %d-bit strings", n), [n] {
			std::set<long> am; for (long k : {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n / 2, n - 9, n - 8, n - 1, n, n + 1, n + 8}) am.insert(k);
			std::vector<Op> v; for (long k : am) { auto w = ops_at(k); v.insert(v.end(), w.begin(), w.end()); w = ops_at(-k); v.insert(v.end(), w.begin(), w.end()); }
			for (auto &o : ops(0)) if (o.name.find("(0)") == S::npos) v.push_back(o);
			for (int k = 0; k < 5; k++) { S s; for (int i = 0; i < n; i++) s += k == 0 ? '1' : k == 1 ? (i ? '0' : '1') : k == 2 ? (i == n - 1 ? '1' : '0') : "01"[(i * i + k * i + n) / 3 % 2]; for (auto &o : v) { one(s, o, ""); if (shm->ulen) return; } }
		}});
		it.push_back({"pairs of long strings", [] { for (int n : {31, 32, 33, 64, 65, 127, 128, 129, 160, 255, 256, 257, 512, 1025}) for (int m : {1, 8, 31, 32, 33, 64, 128, 129, 160, 161, 256, 257, 1024}) { S a, b; for (int i = 0; i < n; i++) a += "0110101"[(i * 5 + n) % 7]; for (int i = 0; i < m; i++) b += "1001110"[(i * 3 + m) % 7]; pair(a, b); } }});
		auto small = ops(5); // operation sequences: amounts -5..5 (and 9, -9)
		auto big = ops(9); for (auto &o : big) if (o.name.find("(9)") != S::npos || o.name.find("(-9)") != S::npos) small.push_back(o);
		int D = thorough ? 4 : 3;
		std::vector<S> st = {"", "1", "10", "1011", "1100101", "10110010", "101100101", "0011010110110011", "10110011101100101"};
		for (auto &s : st) it.push_back({fmt("all operation sequences of length %d from '%s'", s.size() > 4 && !thorough ? D : s.size() > 4 ? 3 : D, s.c_str()), [s, small, D] { OPS = small; seqs(s, s.size() > 4 ? 3 : D); }});
		// the same over amounts around whole bytes, from strings of up to five bytes (partial and whole last bytes)
		std::vector<Op> bytes; for (int k : {1, 2, 7, 8, 9, 15, 16, 17, 24}) { auto v = ops(k); for (auto &o : v) if (o.name.find(fmt("(%d)", k)) != S::npos || o.name.find(fmt("(-%d)", k)) != S::npos) { bool dup = false; for (auto &x : bytes) dup |= x.name == o.name; if (!dup) bytes.push_back(o); } }
		for (auto &o : ops(0)) if (o.name.find("(0)") == S::npos) { bool dup = false; for (auto &x : bytes) dup |= x.name == o.name; if (!dup) bytes.push_back(o); }
		std::vector<S> lst = {"10110010", "1111111111111111", "0011010110110011", "10110011101100101", "11111111111111111111111", "101100101110101110010111", "1111111111111111111111111", "01011001110101110010111011100101", "111111111111111111111111111111111111111"};
		if (!thorough) lst = {"1111111111111111", "10110011101100101", "11111111111111111111111", "101100101110101110010111", "111111111111111111111111111111111"};
		for (auto &s : lst) for (size_t o = 0; o < bytes.size(); o++) it.push_back({fmt("all operation sequences of length 3 around whole bytes from '%s', %s first", s.c_str(), bytes[o].name.c_str()), [s, o, bytes] {
			LIM = 72; if (!bytes[o].en(s)) return; bits_t *b = mk(s); bytes[o].z(b); S w = bytes[o].ref(s); S h = "'" + s + "', then " + bytes[o].name;
			if (!same(b, w, false, h)) return;
			OPS = bytes; seqs_on(b, w, 2, h); bits_free(&b);
		}});
		it.push_back({"random bit strings", [] {
			for (size_t n = 0; n <= 170; n++) { S any(n, '0'), every(n, '1'); for (int k = 0; k < 80; k++) { bits_t *b = bits_new_rand(n); B g = of(b); ucount(); if (g.s.size() != n || g.sign) { ufail(fmt("bits_new_rand(%zu) has %zu bits", n, g.s.size())); return; } for (size_t i = 0; i < n; i++) { if (g.s[i] == '1') any[i] = '1'; else every[i] = '0'; } bits_free(&b); }
				for (size_t i = 0; i < n; i++) if (any[i] != '1' || every[i] != '0') { ufail(fmt("bit %zu of bits_new_rand(%zu) had the same value in 80 draws", i, n)); return; } }
		}});
		bound(fmt("all bit strings up to %d bits under every operation and amount up to +-%d, all pairs up to %d bits, all operation sequences of length %d from 9 start strings, all sequences of length 3 of amounts around whole bytes from %d strings of 1 to 5 bytes, and every operation on strings of 27 lengths to 4099 bits with amounts around bytes, words and the length", N, N + 4, M, D, (int)lst.size()));
	}
	parallel(it.size(), [&](uint64_t i) {
		uint64_t n; S e = unit_run(it[i].f, thorough ? 600 : 200, &n);
		if (!e.empty()) violation(it[i].name, it[i].name + ": " + e);
		else if (ctx.samples.size() < 1) sample(it[i].name + fmt(": %llu comparisons, all equal", (unsigned long long)n));
	});
}
