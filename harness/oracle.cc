#include "oracle.h"
#include <cmath>

// ---------------- JSON ----------------
struct JP {
	const S &t; size_t i = 0; S err; int depth = 0;
	JP(const S &s) : t(s) {}
	void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) i++; }
	bool fail(const S &m) { if (err.empty()) err = m + fmt(" at byte %zu", i); return false; }
	bool str(S &o) {
		if (i >= t.size() || t[i] != '"') return fail("expected a string");
		i++;
		while (true) {
			if (i >= t.size()) return fail("unterminated string");
			unsigned char c = t[i++];
			if (c == '"') return true;
			if (c < 32) return fail("control character in string");
			if (c == '\\') {
				if (i >= t.size()) return fail("bad escape");
				char d = t[i++];
				switch (d) { case '"': case '\\': case '/': o += d; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
				case 'u': { if (i + 4 > t.size()) return fail("bad \\u"); for (int k = 0; k < 4; k++) if (!isxdigit((unsigned char)t[i + k])) return fail("bad \\u"); o += '?'; i += 4; break; }
				default: return fail("bad escape"); }
			} else o += c;
		}
	}
	bool val(JV &v) {
		if (++depth > 100) return fail("too deep");
		ws();
		if (i >= t.size()) return fail("unexpected end");
		char c = t[i];
		bool r = true;
		if (c == '{') {
			v.t = 'o'; i++; ws();
			if (i < t.size() && t[i] == '}') i++;
			else while (true) {
				ws(); S k; if (!str(k)) return false;
				if (v.get(k)) return fail("duplicate member \"" + k + "\"");
				ws(); if (i >= t.size() || t[i] != ':') return fail("expected ':'"); i++;
				JV x; if (!val(x)) return false;
				v.o.push_back({k, x});
				ws(); if (i < t.size() && t[i] == ',') { i++; continue; }
				if (i < t.size() && t[i] == '}') { i++; break; }
				return fail("expected ',' or '}'");
			}
		} else if (c == '[') {
			v.t = 'a'; i++; ws();
			if (i < t.size() && t[i] == ']') i++;
			else while (true) {
				JV x; if (!val(x)) return false;
				v.a.push_back(x);
				ws(); if (i < t.size() && t[i] == ',') { i++; continue; }
				if (i < t.size() && t[i] == ']') { i++; break; }
				return fail("expected ',' or ']'");
			}
		} else if (c == '"') { v.t = 's'; r = str(v.s); }
		else if (c == '-' || isdigit((unsigned char)c)) {
			v.t = 'n'; size_t b = i; if (t[i] == '-') i++;
			if (i >= t.size() || !isdigit((unsigned char)t[i])) return fail("bad number");
			while (i < t.size() && (isdigit((unsigned char)t[i]) || strchr(".eE+-", t[i]))) i++;
			v.s = t.substr(b, i - b);
		} else if (!t.compare(i, 4, "true")) { v.t = 'b'; i += 4; }
		else if (!t.compare(i, 5, "false")) { v.t = 'b'; i += 5; }
		else if (!t.compare(i, 4, "null")) { v.t = '0'; i += 4; }
		else return fail("unexpected character");
		depth--;
		return r;
	}
};
bool json_parse(const S &t, JV &v, S &err) {
	JP p(t);
	if (!p.val(v)) { err = p.err; return false; }
	p.ws();
	if (p.i != t.size()) { err = fmt("trailing text at byte %zu", p.i); return false; }
	return true;
}

// ---------------- small arithmetic ----------------
std::vector<std::pair<uint64_t, int>> factorize(uint64_t n) {
	std::vector<std::pair<uint64_t, int>> r;
	for (uint64_t d = 2; d * d <= n; d += d == 2 ? 1 : 2) if (n % d == 0) { int e = 0; while (n % d == 0) { n /= d; e++; } r.push_back({d, e}); }
	if (n > 1) r.push_back({n, 1});
	return r;
}
std::vector<uint64_t> divisors(uint64_t n) {
	std::vector<uint64_t> r = {1};
	for (auto &f : factorize(n)) { size_t k = r.size(); uint64_t m = 1; for (int e = 0; e < f.second; e++) { m *= f.first; for (size_t i = 0; i < k; i++) r.push_back(r[i] * m); } }
	std::sort(r.begin(), r.end());
	return r;
}
bool is_prime64(uint64_t n) {
	if (n < 2) return false;
	for (uint64_t d : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % d == 0) return n == d; }
	uint64_t d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
	for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
		u128 x = 1, b = a; uint64_t e = d; while (e) { if (e & 1) x = x * b % n; b = b * b % n; e >>= 1; }
		if (x == 1 || x == n - 1) continue;
		bool ok = false; for (int i = 1; i < s; i++) { x = x * x % n; if (x == n - 1) { ok = true; break; } }
		if (!ok) return false;
	}
	return true;
}
static int deg2(uint64_t f) { return f ? 63 - __builtin_clzll(f) : -1; }
static uint64_t mod2(uint64_t a, uint64_t f) { int d = deg2(f); while (deg2(a) >= d) a ^= f << (deg2(a) - d); return a; }
bool irreducible2(uint64_t f) {
	int d = deg2(f); if (d < 1) return false; if (d == 1) return true;
	if (!(f & 1)) return false;
	// x^(2^k) mod f, gcd with x^(2^k)-x must be 1 for k <= d/2
	auto mulm = [&](uint64_t a, uint64_t b) { uint64_t r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (deg2(a) == d) a ^= f; } return r; };
	uint64_t x = 2;
	if (d == 1) x = mod2(2, f);
	for (int k = 1; k <= d / 2; k++) {
		x = mulm(x, x);
		uint64_t a = f, b = x ^ 2; while (b) { uint64_t t = mod2(a, b); a = b; b = t; }
		if (a != 1) return false;
	}
	return true;
}
void Fld::tables() {
	if (q > (1u << 17)) return;
	if (q == 2 && bin) { lg = {0, 0}; ex = {1}; }
	else if (bin) {
		for (uint64_t g = 2; g < q; g++) {
			ex.assign(q - 1, 0); lg.assign(q, 0);
			uint64_t x = 1; bool ok = true;
			auto raw = [&](uint64_t a, uint64_t b) { uint64_t r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (a >> m & 1) a ^= poly; } return r; };
			for (uint64_t i = 0; i < q - 1; i++) { if (i && x == 1) { ok = false; break; } ex[i] = x; lg[x] = i; x = raw(x, g); }
			if (ok && x == 1) break;
		}
	}
	if (bin) {
		trc.assign(q, 0);
		for (uint64_t a = 0; a < q; a++) { uint64_t t = 0, x = a; for (int i = 0; i < m; i++) { t ^= x; x = mul(x, x); } trc[a] = t & 1; }
	} else {
		sqc.assign(q, 0);
		for (uint64_t x = 0; x < q; x++) sqc[(u128)x * x % p]++;
	}
}
static std::map<std::pair<uint64_t, uint64_t>, std::shared_ptr<Fld>> fcache;
std::shared_ptr<Fld> Fld::prime(uint64_t p) {
	auto &c = fcache[{p, 0}]; if (c) return c;
	if (fcache.size() > 400) { fcache.clear(); }
	auto f = std::make_shared<Fld>(); f->p = f->q = p; f->m = 1; f->tables(); fcache[{p, 0}] = f; return f;
}
std::shared_ptr<Fld> Fld::binary(int m, uint64_t poly) {
	auto &c = fcache[{2, poly}]; if (c) return c;
	auto f = std::make_shared<Fld>(); f->bin = true; f->p = 2; f->m = m; f->poly = poly; f->q = 1ull << m; f->tables(); fcache[{2, poly}] = f; return f;
}
uint64_t Fld::mul(uint64_t a, uint64_t b) const {
	if (!bin) return (u128)a * b % p;
	if (!a || !b) return 0;
	if (!lg.empty() && q > 2) { uint64_t s = (uint64_t)lg[a] + lg[b]; if (s >= q - 1) s -= q - 1; return ex[s]; }
	if (q == 2) return 1;
	uint64_t r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (a >> m & 1) a ^= poly; } return r;
}
uint64_t Fld::pw(uint64_t a, u128 e) const { uint64_t r = 1; if (q == 1) return 0; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
uint64_t Fld::inv(uint64_t a) const { return pw(a, q - 2); }
bool EC::singular() const { return disc() == 0; }
uint64_t EC::disc() const {
	if (f->bin) return b;
	uint64_t t = f->add(f->mul(f->imm(4), f->pw(a, 3)), f->mul(f->imm(27), f->mul(b, b)));
	return f->mul(f->imm(-16), t);
}
uint64_t EC::j() const {
	if (f->bin) return f->inv(b);
	// 1728 * 4a^3 / (4a^3+27b^2)
	uint64_t n = f->mul(f->imm(4), f->pw(a, 3)), d = f->add(n, f->mul(f->imm(27), f->mul(b, b)));
	return f->mul(f->mul(f->imm(1728), n), f->inv(d));
}
bool EC::on(const Pt &P) const {
	if (P.inf) return true;
	const Fld &F = *f;
	if (P.x >= F.q || P.y >= F.q) return false;
	uint64_t x2 = F.mul(P.x, P.x), x3 = F.mul(x2, P.x);
	if (F.bin) return F.add(F.mul(P.y, P.y), F.mul(P.x, P.y)) == F.add(F.add(x3, F.mul(a, x2)), b);
	return F.mul(P.y, P.y) == F.add(F.add(x3, F.mul(a, P.x)), b);
}
Pt EC::neg(const Pt &P) const { if (P.inf) return P; Pt r = P; r.y = f->bin ? P.x ^ P.y : f->neg(P.y); return r; }
Pt EC::add(const Pt &P, const Pt &Q) const {
	if (P.inf) return Q; if (Q.inf) return P;
	const Fld &F = *f;
	if (Q == neg(P)) return Pt();
	uint64_t l; Pt R; R.inf = false;
	if (F.bin) {
		if (P == Q) {
			l = F.add(P.x, F.mul(P.y, F.inv(P.x)));
			R.x = F.add(F.add(F.mul(l, l), l), a);
			R.y = F.add(F.mul(P.x, P.x), F.mul(F.add(l, 1), R.x));
		} else {
			l = F.mul(F.add(P.y, Q.y), F.inv(F.add(P.x, Q.x)));
			R.x = F.add(F.add(F.add(F.add(F.mul(l, l), l), P.x), Q.x), a);
			R.y = F.add(F.add(F.mul(l, F.add(P.x, R.x)), R.x), P.y);
		}
		return R;
	}
	if (P == Q) l = F.mul(F.add(F.mul(F.imm(3), F.mul(P.x, P.x)), a), F.inv(F.mul(F.imm(2), P.y)));
	else l = F.mul(F.sub(Q.y, P.y), F.inv(F.sub(Q.x, P.x)));
	R.x = F.sub(F.sub(F.mul(l, l), P.x), Q.x);
	R.y = F.sub(F.mul(l, F.sub(P.x, R.x)), P.y);
	return R;
}
Pt EC::mul(const Pt &P, uint64_t k) const { Pt r, b = P; while (k) { if (k & 1) r = add(r, b); b = add(b, b); k >>= 1; } return r; }
uint64_t EC::count() const {
	const Fld &F = *f; uint64_t n = 1;
	if (F.bin) {
		n += 1; // x = 0
		for (uint64_t x = 1; x < F.q; x++) { uint64_t ix = F.lg.empty() || F.q <= 2 ? F.inv(x) : F.ex[0]; if (!F.lg.empty() && F.q > 2) ix = F.ex[(F.q - 1 - F.lg[x]) % (F.q - 1)]; uint64_t t = x ^ a ^ F.mul(b, F.mul(ix, ix)); if (!F.trc[t]) n += 2; }
		return n;
	}
	for (uint64_t x = 0; x < F.q; x++) n += F.sqc[((u128)x * x % F.p * x + (u128)a * x + b) % F.p];
	return n;
}
uint64_t EC::order(const Pt &P, uint64_t N) const {
	uint64_t n = N;
	for (auto &f : factorize(N)) for (int e = 0; e < f.second; e++) { if (mul(P, n / f.first).inf) n /= f.first; else break; }
	return n;
}
std::vector<Pt> EC::points() const {
	std::vector<Pt> r; const Fld &F = *f;
	if (!F.bin) {
		std::vector<std::vector<uint64_t>> rt(F.q);
		for (uint64_t y = 0; y < F.q; y++) rt[(u128)y * y % F.p].push_back(y);
		for (uint64_t x = 0; x < F.q; x++) for (uint64_t y : rt[((u128)x * x % F.p * x + (u128)a * x + b) % F.p]) { Pt P; P.inf = false; P.x = x; P.y = y; r.push_back(P); }
	} else {
		std::vector<uint64_t> z(F.q, ~0ull); // z^2 + z = t
		for (uint64_t w = F.q; w-- > 0;) z[F.mul(w, w) ^ w] = w;
		for (uint64_t x = 0; x < F.q; x++) {
			Pt P; P.inf = false; P.x = x;
			if (!x) { P.y = F.pw(b, F.q / 2); r.push_back(P); continue; }
			uint64_t ix = F.inv(x), t = x ^ a ^ F.mul(b, F.mul(ix, ix));
			if (z[t] == ~0ull) continue;
			P.y = F.mul(z[t], x); r.push_back(P); P.y = F.mul(z[t] ^ 1, x); r.push_back(P);
		}
	}
	return r;
}
void EC::group(uint64_t N, uint64_t &n1, uint64_t &n2) const {
	n2 = 1;
	bool sqf = true; for (auto &x : factorize(N)) if (x.second > 1 && (f->q - 1) % x.first == 0) sqf = false; // n1 divides gcd(n2, q - 1)
	if (sqf) { n1 = 1; n2 = N; return; }
	auto lcm = [](uint64_t a, uint64_t b) { return a / std::__gcd(a, b) * b; };
	for (auto &P : points()) { n2 = lcm(n2, order(P, N)); if (n2 == N) break; }
	n1 = N / n2;
}

// ---------------- printed records ----------------
static bool hexok(const S &s) {
	size_t i = 0; if (s.size() < 3 || s[0] != '0' || s[1] != 'x') return false;
	for (i = 2; i < s.size(); i++) if (!isdigit((unsigned char)s[i]) && !(s[i] >= 'a' && s[i] <= 'f')) return false;
	return true;
}
bool hex2gen_ok(const S &s) { return hexok(s); }
GEN hex2gen(const S &s) { if (s == "0") return gen_0; return strtoi(s.c_str()); }
bool hex2u(const S &s, uint64_t &v) {
	if (s == "0") { v = 0; return true; }
	if (!hexok(s)) return false;
	size_t i = 2; while (i < s.size() && s[i] == '0') i++;
	if (s.size() - i > 15) return false;
	v = 0; for (; i < s.size(); i++) v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : s[i] - 'a' + 10);
	return true;
}
static S members(const JV &v, const std::vector<S> &req, const std::vector<S> &opt, const S &where) {
	if (v.t != 'o') return where + " is not an object";
	for (auto &k : req) if (!v.get(k)) return where + " has no \"" + k + "\"";
	for (auto &x : v.o) if (std::find(req.begin(), req.end(), x.first) == req.end() && std::find(opt.begin(), opt.end(), x.first) == opt.end()) return where + " has an unexpected member \"" + x.first + "\"";
	return "";
}
static S gets(const JV &v, const S &k, S &o, const S &where, bool zero_ok = false) {
	const JV *x = v.get(k);
	if (x->t != 's') return where + "." + k + " is not a string";
	o = x->s;
	if (!hexok(o) && !(zero_ok && o == "0")) return where + "." + k + " = \"" + o + "\" is not a 0x-prefixed hexadecimal number";
	return "";
}
static S parse_point(const JV &v, PP &p, bool gen) {
	S e = members(v, gen ? std::vector<S>{"x", "y", "order", "cofactor"} : std::vector<S>{"x", "y", "order"}, gen ? std::vector<S>{"points"} : std::vector<S>{"cofactor"}, gen ? "subgroup" : "point");
	if (!e.empty()) return e;
	if (!(e = gets(v, "x", p.x, "point")).empty() || !(e = gets(v, "y", p.y, "point")).empty() || !(e = gets(v, "order", p.order, "point")).empty()) return e;
	if (v.get("cofactor") && !(e = gets(v, "cofactor", p.cofactor, "point")).empty()) return e;
	if (v.get("points")) {
		const JV *a = v.get("points"); if (a->t != 'a') return "points is not an array";
		p.has_points = true;
		for (auto &x : a->a) { PP q; if (!(e = parse_point(x, q, false)).empty()) return e; p.points.push_back(q); }
	}
	return "";
}
S parse_record(const JV &v, PC &c) {
	S e = members(v, {"field", "a", "b", "order"}, {"seed", "subgroups", "meta"}, "curve");
	if (!e.empty()) return e;
	const JV *f = v.get("field"); if (f->t != 'o') return "field is not an object";
	c.bin = f->get("m") != nullptr;
	if (c.bin) {
		if (!(e = members(*f, {"m", "e1", "e2", "e3"}, {}, "field")).empty()) return e;
		if (!(e = gets(*f, "m", c.m, "field")).empty() || !(e = gets(*f, "e1", c.e1, "field", true)).empty() || !(e = gets(*f, "e2", c.e2, "field", true)).empty() || !(e = gets(*f, "e3", c.e3, "field", true)).empty()) return e;
	} else {
		if (!(e = members(*f, {"p"}, {}, "field")).empty()) return e;
		if (!(e = gets(*f, "p", c.p, "field")).empty()) return e;
	}
	if (!(e = gets(v, "a", c.a, "curve")).empty() || !(e = gets(v, "b", c.b, "curve")).empty() || !(e = gets(v, "order", c.order, "curve")).empty()) return e;
	if (v.get("seed")) {
		c.has_seed = true; const JV *x = v.get("seed"); if (x->t != 's') return "seed is not a string"; c.seed = x->s;
		S body = c.seed; if (!body.empty() && body[0] == '-') body = body.substr(1);
		if (!hexok(body) && body != "0x") return "seed \"" + c.seed + "\" is not hexadecimal";
	}
	if (v.get("subgroups")) {
		c.has_subgroups = true; const JV *a = v.get("subgroups"); if (a->t != 'a') return "subgroups is not an array";
		for (auto &x : a->a) { PP q; if (!(e = parse_point(x, q, true)).empty()) return e; c.gens.push_back(q); }
	}
	if (v.get("meta")) {
		c.has_meta = true; const JV *m = v.get("meta"); if (m->t != 'o') return "meta is not an object";
		for (auto &x : m->o) {
			static const char *ok[] = {"j", "discriminant", "embedding_degree", "frobenius", "cm_discriminant", "conductor"};
			bool k = false; for (auto o : ok) k |= x.first == o; if (!k) return "meta has an unexpected member \"" + x.first + "\"";
			if (x.second.t != 's') return "meta." + x.first + " is not a string";
			c.meta[x.first] = x.second.s;
		}
	}
	return "";
}
S parse_output(const S &out, std::vector<PC> &recs) {
	JV v; S err;
	if (!json_parse(out, v, err)) return "output is not valid JSON: " + err;
	if (v.t != 'a') return "output is not a JSON array";
	for (auto &x : v.a) { PC c; S e = parse_record(x, c); if (!e.empty()) return e; recs.push_back(c); }
	return "";
}
S curve_id(const PC &c) { return c.bin ? "f2m(" + c.m + "," + c.e1 + "," + c.e2 + "," + c.e3 + ") a=" + c.a + " b=" + c.b : "fp(" + c.p + ") a=" + c.a + " b=" + c.b; }
bool small_curve(const PC &c, EC &ec, S &err) {
	uint64_t v;
	if (c.bin) {
		uint64_t m, e1, e2, e3;
		if (!hex2u(c.m, m) || !hex2u(c.e1, e1) || !hex2u(c.e2, e2) || !hex2u(c.e3, e3)) { err = "bad field exponents"; return false; }
		if (m > 17 || m < 1) return false;
		uint64_t poly = 1ull << m | 1;
		for (uint64_t e : {e1, e2, e3}) { if (e >= m) { err = "field exponent not below m"; return false; } if (e) { if (poly >> e & 1) { err = "repeated field exponent"; return false; } poly |= 1ull << e; } }
		if (!irreducible2(poly)) { err = "field polynomial is reducible"; return false; }
		ec.f = Fld::binary((int)m, poly);
	} else {
		if (!hex2u(c.p, v) || v > (1 << 17)) return false;
		if (!is_prime64(v)) { err = "p = " + c.p + " is not prime"; return false; }
		if (v == 2) { err = "p = 2 has no curves in short Weierstrass form"; return false; }
		ec.f = Fld::prime(v);
	}
	if (!hex2u(c.a, ec.a) || ec.a >= ec.f->q) { err = "a = " + c.a + " is not a reduced field element"; return false; }
	if (!hex2u(c.b, ec.b) || ec.b >= ec.f->q) { err = "b = " + c.b + " is not a reduced field element"; return false; }
	return true;
}
static S getp(const EC &E, const PP &p, Pt &P) {
	P.inf = false;
	if (!hex2u(p.x, P.x) || !hex2u(p.y, P.y) || P.x >= E.f->q || P.y >= E.f->q) return "point (" + p.x + ", " + p.y + ") has coordinates outside the field";
	if (!E.on(P)) return "point (" + p.x + ", " + p.y + ") is not on the curve";
	return "";
}
// divisors expected under a --points type for a generator of order n
static std::vector<uint64_t> pts_orders(uint64_t n, PTS t) {
	std::vector<uint64_t> r;
	for (uint64_t d : divisors(n)) { if (d == 1) continue; bool pr = is_prime64(d); if (t == PTS_ALL || (t == PTS_PRIME && pr) || (t == PTS_NONPRIME && !pr)) r.push_back(d); }
	return r;
}
static S list(const std::vector<uint64_t> &v) { S r = "{"; for (auto x : v) r += fmt("%s%llu", r.size() > 1 ? "," : "", (unsigned long long)x); return r + "}"; }
S check_small(const PC &c, const Expect &e) {
	EC E; S err;
	if (!small_curve(c, E, err)) return e.what & W_CURVE ? (err.empty() ? "not small" : err) : "";
	if (E.singular()) return e.what & W_CURVE ? "the curve is singular" : "";
	uint64_t N = E.count(), v;
	if (e.what & W_CURVE) {
		if (!hex2u(c.order, v)) return "order " + c.order + " is not a number of the right size";
		if (v != N) return fmt("printed order is %llu, the curve has %llu points", (unsigned long long)v, (unsigned long long)N);
	}
	// generators
	bool wg = e.what & W_GENS;
	std::vector<uint64_t> go; std::vector<Pt> gp; std::vector<bool> gok;
	for (auto &g : c.gens) {
		Pt P; if (!(err = getp(E, g, P)).empty()) { if (wg) return "generator: " + err; go.push_back(0); gp.push_back(Pt()); gok.push_back(false); continue; }
		uint64_t o = E.order(P, N), po, co;
		if (wg) {
			if (!hex2u(g.order, po) || po != o) return fmt("generator (%s, %s): printed order %s, real order %llu", g.x.c_str(), g.y.c_str(), g.order.c_str(), (unsigned long long)o);
			if (!hex2u(g.cofactor, co) || (u128)co * o != N) return fmt("generator (%s, %s): printed cofactor %s, order/%llu is %llu", g.x.c_str(), g.y.c_str(), g.cofactor.c_str(), (unsigned long long)o, (unsigned long long)(N / o));
		}
		go.push_back(o); gp.push_back(P); gok.push_back(true);
	}
	if (e.gens && (e.what & (W_GENS | W_OPTS))) {
		std::vector<uint64_t> o = go; std::vector<Pt> p = gp;
		if (e.cofactor && !e.unique) {
			if (o.empty()) return "no subgroup printed";
			if (N % e.cofactor || o[0] != N / e.cofactor) return fmt("first subgroup has order %llu, wanted %llu (cofactor %llu)", (unsigned long long)o[0], (unsigned long long)(N / e.cofactor), (unsigned long long)e.cofactor);
			o.erase(o.begin()); p.erase(p.begin());
		}
		if (!e.single_gen_ok && wg) {
			if (N == 1) { if (!o.empty()) return "generators printed for the trivial group"; }
			else if (o.size() == 1) { if (o[0] != N) return fmt("the single generator has order %llu, the group has %llu elements", (unsigned long long)o[0], (unsigned long long)N); }
			else if (o.size() == 2) {
				// |<P,Q>| = ord(P) * (least k > 0 with kQ in <P>)
				std::set<std::pair<uint64_t, uint64_t>> sub; bool inf0 = true; (void)inf0;
				Pt X = p[0]; for (uint64_t k = 1; k < o[0]; k++) { sub.insert({X.x, X.y}); X = E.add(X, p[0]); }
				uint64_t k = 1; for (Pt Y = p[1]; !Y.inf && !sub.count({Y.x, Y.y}); Y = E.add(Y, p[1])) k++;
				if (k == 1) return fmt("the second generator (order %llu) is a multiple of the first (order %llu)", (unsigned long long)o[1], (unsigned long long)o[0]);
				if ((u128)o[0] * k != N) return fmt("the two generators, of orders %llu and %llu, generate only %llu of the %llu points", (unsigned long long)o[0], (unsigned long long)o[1], (unsigned long long)(o[0] * k), (unsigned long long)N);
				uint64_t l = o[0] / std::__gcd(o[0], o[1]) * o[1];
				if (l == N) return "two generators printed for a cyclic group";
			} else return fmt("%zu generators printed for a group of order %llu", o.size(), (unsigned long long)N);
		} else if (wg && o.empty() && N > 1) return "no generator printed";
	}
	if (e.what & W_OPTS) {
		if (e.prime && !is_prime64(N)) return fmt("a prime order was required, order is %llu", (unsigned long long)N);
		if (e.cofactor && (N % e.cofactor || !is_prime64(N / e.cofactor))) return fmt("cofactor %llu was required, order is %llu", (unsigned long long)e.cofactor, (unsigned long long)N);
		if (e.smooth) for (auto &f : factorize(N)) if (64 - __builtin_clzll(f.first) > (int)e.smooth) return fmt("%llu-bit smooth order was required, order %llu has the prime factor %llu", (unsigned long long)e.smooth, (unsigned long long)N, (unsigned long long)f.first);
		if (e.unique && c.gens.size() != 1) return fmt("a unique generator was required, %zu printed", c.gens.size());
		if (e.koblitz && (E.b != 1 || E.a != (uint64_t)e.kob_a)) return "not a Koblitz curve with the requested a";
	}
	// points
	uint64_t total = 0;
	if (e.pts != PTS_ANY && (e.what & W_PTS)) for (size_t i = 0; i < c.gens.size(); i++) {
		std::vector<uint64_t> po;
		for (auto &q : c.gens[i].points) {
			Pt P; if (!(err = getp(E, q, P)).empty()) return "listed point: " + err;
			uint64_t o = E.order(P, N), pr;
			if (!hex2u(q.order, pr) || pr != o) return fmt("listed point (%s, %s): printed order %s, real order %llu", q.x.c_str(), q.y.c_str(), q.order.c_str(), (unsigned long long)o);
			if (!gok[i]) continue;
			// in the subgroup of its generator?
			bool in = false; Pt X;
			Pt base = E.mul(gp[i], go[i] / std::__gcd(go[i], o)); // generates the unique subgroup of order gcd
			for (uint64_t k = 0; k < o && k < go[i]; k++) { if (X == P) { in = true; break; } X = E.add(X, base); }
			if (!in) return fmt("listed point (%s, %s) is not in the subgroup it is listed under", q.x.c_str(), q.y.c_str());
			po.push_back(o);
		}
		total += c.gens[i].points.size();
		if (e.pts == PTS_RANDOM || e.pts == PTS_FREE || !gok[i]) continue;
		std::sort(po.begin(), po.end());
		std::vector<uint64_t> want = e.pts == PTS_NONE ? std::vector<uint64_t>() : pts_orders(go[i], e.pts);
		if (po != want) return fmt("subgroup of order %llu lists points of orders %s, wanted %s", (unsigned long long)go[i], list(po).c_str(), list(want).c_str());
	}
	if (e.pts == PTS_RANDOM && (e.what & W_PTS) && N > 1 && total != (e.npts ? e.npts : 1)) return fmt("%llu random points listed, wanted %llu", (unsigned long long)total, (unsigned long long)(e.npts ? e.npts : 1));
	// metadata
	if (e.what & W_META) { if (e.meta) {
		if (!c.has_meta) return "metadata requested, none printed";
		long long q = E.f->q, t = q + 1 - (long long)N;
		auto want = [&](const char *k, const S &w) -> S { auto it = c.meta.find(k); if (it == c.meta.end()) return S("meta.") + k + " is missing"; if (it->second != w) return S("meta.") + k + " is " + it->second + ", should be " + w; return ""; };
		if (!(err = want("j", fmt("%llu", (unsigned long long)E.j()))).empty()) return err;
		if (!(err = want("discriminant", fmt("%llu", (unsigned long long)E.disc()))).empty()) return err;
		if (!(err = want("frobenius", fmt("%lld", t))).empty()) return err;
		if (!E.f->bin) {
			long long D = t * t - 4 * q, fcond = 1, d0 = D;
			// D = f^2 * fundamental discriminant
			for (long long g = (long long)sqrt((double)-D) + 1; g >= 1; g--) if (D % (g * g) == 0) { long long x = D / (g * g); long long r = ((x % 4) + 4) % 4; if (r != 0 && r != 1) continue; d0 = x; fcond = g; break; }
			if (!(err = want("cm_discriminant", fmt("%lld", d0))).empty()) return err;
			if (!(err = want("conductor", fmt("%lld", fcond))).empty()) return err;
			S emb;
			if ((uint64_t)q == N) emb = "0";
			else if (std::__gcd((uint64_t)q, N) == 1) { if (N == 1) emb = "1"; else { uint64_t k = 1; u128 x = q % N; while (x != 1) { x = x * (q % N) % N; k++; } emb = fmt("%llu", (unsigned long long)k); } }
			if (emb.empty()) emb = "0";
			if (!(err = want("embedding_degree", emb)).empty()) return err;
		}
	} else if (c.has_meta) return "metadata printed though not requested"; }
	return "";
}
// ---------------- larger curves ----------------
static GEN bin2(GEN n) { return n; }
static GEN F2int2x(GEN n) { // integer bits -> F2x
	return gtopoly(digits(n, gen_2), 0);
}
GEN BigEC::f_mul(GEN x, GEN y) { return bin ? F2xq_mul(x, y, T) : Fp_mul(x, y, p); }
GEN BigEC::f_add(GEN x, GEN y) { return bin ? F2x_add(x, y) : Fp_add(x, y, p); }
GEN BigEC::f_sub(GEN x, GEN y) { return bin ? F2x_add(x, y) : Fp_sub(x, y, p); }
GEN BigEC::f_inv(GEN x) { return bin ? F2xq_inv(x, T) : Fp_inv(x, p); }
static GEN toF(BigEC &E, GEN n) { return E.bin ? RgX_to_F2x(F2int2x(n)) : n; }
bool BigEC::on(GEN x, GEN y) {
	GEN x2 = f_mul(x, x), x3 = f_mul(x2, x);
	if (bin) return gequal(f_add(f_mul(y, y), f_mul(x, y)), f_add(f_add(x3, f_mul(a, x2)), b));
	return equalii(f_mul(y, y), f_add(f_add(x3, f_mul(a, x)), b));
}
GEN BigEC::neg(GEN P) { if (P == gen_0) return P; return mkvec2(gel(P, 1), bin ? F2x_add(gel(P, 1), gel(P, 2)) : Fp_neg(gel(P, 2), p)); }
GEN BigEC::add(GEN P, GEN Q) {
	if (P == gen_0) return Q; if (Q == gen_0) return P;
	GEN x1 = gel(P, 1), y1 = gel(P, 2), x2 = gel(Q, 1), y2 = gel(Q, 2), l;
	if (gequal(x1, x2)) {
		if (gequal(Q, neg(P))) return gen_0;
		if (bin) {
			l = f_add(x1, f_mul(y1, f_inv(x1)));
			GEN x3 = f_add(f_add(f_mul(l, l), l), a);
			return mkvec2(x3, f_add(f_mul(x1, x1), f_add(f_mul(l, x3), x3)));
		}
		l = f_mul(f_add(Fp_mulu(f_mul(x1, x1), 3, p), a), f_inv(Fp_mulu(y1, 2, p)));
	} else l = f_mul(f_sub(y2, y1), f_inv(f_sub(x2, x1)));
	GEN x3 = bin ? f_add(f_add(f_add(f_add(f_mul(l, l), l), x1), x2), a) : f_sub(f_sub(f_mul(l, l), x1), x2);
	GEN y3 = bin ? f_add(f_add(f_mul(l, f_add(x1, x3)), x3), y1) : f_sub(f_mul(l, f_sub(x1, x3)), y1);
	return mkvec2(x3, y3);
}
GEN BigEC::mul(GEN P, GEN k) {
	if (signe(k) < 0) return mul(neg(P), negi(k));
	GEN R = gen_0;
	pari_sp av = avma;
	for (long i = expi(k); signe(k) && i >= 0; i--) {
		R = add(R, R); if (int_bit(k, i)) R = add(R, P);
		if (R != gen_0) R = gerepilecopy(av, R); else avma = av;
	}
	return R;
}
bool big_from(const PC &c, BigEC &E, S &err) {
	E.bin = c.bin;
	if (c.bin) {
		uint64_t m, e1, e2, e3;
		if (!hex2u(c.m, m) || !hex2u(c.e1, e1) || !hex2u(c.e2, e2) || !hex2u(c.e3, e3) || m < 1 || m > 20000) { err = "bad field exponents"; return false; }
		E.m = m;
		GEN T = pol_xn(m, 0); T = gaddgs(T, 1);
		std::set<uint64_t> s;
		for (uint64_t e : {e1, e2, e3}) if (e) { if (e >= m || !s.insert(e).second) { err = "bad field exponents"; return false; } T = gadd(T, pol_xn(e, 0)); }
		E.T = RgX_to_F2x(T);
		if (!F2x_is_irred(E.T)) { err = "field polynomial is reducible"; return false; }
		GEN a = hex2gen(c.a), b = hex2gen(c.b);
		if (expi(a) >= (long)m || expi(b) >= (long)m) { err = "a or b is not a reduced field element"; return false; }
		E.a = toF(E, a); E.b = toF(E, b); E.p = gen_2;
		if (lgpol(E.b) == 0) { err = "the curve is singular"; return false; }
	} else {
		E.p = hex2gen(c.p); E.m = 1; E.T = NULL;
		if (!isprime(E.p)) { err = "p = " + c.p + " is not prime"; return false; }
		E.a = hex2gen(c.a); E.b = hex2gen(c.b);
		if (cmpii(E.a, E.p) >= 0) { err = "a = " + c.a + " is not a reduced field element"; return false; }
		if (cmpii(E.b, E.p) >= 0) { err = "b = " + c.b + " is not a reduced field element"; return false; }
		if (!signe(Fp_add(Fp_mulu(Fp_powu(E.a, 3, E.p), 4, E.p), Fp_mulu(Fp_sqr(E.b, E.p), 27, E.p), E.p))) { err = "the curve is singular"; return false; }
	}
	return true;
}
static GEN bigpoint(BigEC &E, const PP &p, S &err) {
	GEN x = hex2gen(p.x), y = hex2gen(p.y);
	if (E.bin ? (expi(x) >= E.m || expi(y) >= E.m) : (cmpii(x, E.p) >= 0 || cmpii(y, E.p) >= 0)) { err = "point (" + p.x + ", " + p.y + ") has coordinates outside the field"; return NULL; }
	x = toF(E, x); y = toF(E, y);
	if (!E.on(x, y)) { err = "point (" + p.x + ", " + p.y + ") is not on the curve"; return NULL; }
	return mkvec2(x, y);
}
static GEN somepoint(BigEC &E, ulong i) {
	// the i-th candidate x: deterministic
	for (ulong k = 0;; k++) {
		GEN xn = utoi(2 + i * 1000 + k);
		if (!E.bin) {
			GEN x = modii(xn, E.p), r = Fp_add(Fp_mul(Fp_add(Fp_sqr(x, E.p), E.a, E.p), x, E.p), E.b, E.p);
			if (!Fp_issquare(r, E.p)) continue;
			GEN y = Fp_sqrt(r, E.p); if (!y || !E.on(x, y)) continue;
			return mkvec2(x, y);
		}
		GEN x = toF(E, xn); x = F2x_rem(x, E.T); if (lgpol(x) == 0) continue;
		// y^2+xy = x^3+ax^2+b ; y = x z : z^2+z = x + a + b/x^2
		GEN ix = E.f_inv(x), c = E.f_add(E.f_add(x, E.a), E.f_mul(E.b, E.f_mul(ix, ix)));
		GEN tr = c; for (long j = 1; j < E.m; j++) { tr = F2x_add(F2xq_sqr(tr, E.T), c); }
		if (lgpol(tr)) continue;
		GEN z = NULL;
		if (E.m & 1) { z = c; GEN h = c; for (long j = 1; j <= (E.m - 1) / 2; j++) { h = F2xq_sqr(F2xq_sqr(h, E.T), E.T); z = F2x_add(z, h); } }
		else { // find tau with trace one
			GEN tau = NULL; for (long e = 0; e < E.m; e++) { GEN t = F2x_rem(polx_F2x(0), E.T); t = F2xq_powu(t, e, E.T); GEN s = t; for (long j = 1; j < E.m; j++) s = F2x_add(F2xq_sqr(s, E.T), t); if (lgpol(s)) { tau = t; break; } }
			if (!tau) return NULL;
			z = pol0_F2x(0); GEN w = c; GEN acc = pol0_F2x(0);
			// z = sum_{i=0}^{m-2} (sum_{j=i+1}^{m-1} tau^(2^j)) c^(2^i)
			std::vector<GEN> tj; GEN t = tau; for (long j = 0; j < E.m; j++) { tj.push_back(t); t = F2xq_sqr(t, E.T); }
			std::vector<GEN> suf(E.m + 1, pol0_F2x(0)); for (long j = E.m - 1; j >= 0; j--) suf[j] = F2x_add(suf[j + 1], tj[j]);
			for (long i2 = 0; i2 <= E.m - 2; i2++) { z = F2x_add(z, F2xq_mul(suf[i2 + 1], w, E.T)); w = F2xq_sqr(w, E.T); }
			(void)acc;
		}
		GEN y = E.f_mul(x, z);
		if (!E.on(x, y)) continue;
		return mkvec2(x, y);
	}
}
static GEN fieldq(BigEC &E) { return E.bin ? int2n(E.m) : E.p; }
static GEN point_order(BigEC &E, GEN P, GEN N) { // N*P = O
	GEN F = factor(N), pr = gel(F, 1), ex = gel(F, 2), n = N;
	for (long i = 1; i < lg(pr); i++) for (long k = itos(gel(ex, i)); k > 0; k--) { GEN m = diviiexact(n, gel(pr, i)); if (E.mul(P, m) == gen_0) n = m; else break; }
	return n;
}
bool order_is_exactly(BigEC &E, GEN N) {
	GEN q = fieldq(E);
	GEN lo = subii(addiu(q, 1), sqrti(shifti(q, 2))), hi = addii(addiu(q, 1), sqrti(shifti(q, 2)));
	if (cmpii(N, lo) < 0 || cmpii(N, hi) > 0) return false;
	GEN L = gen_1;
	for (ulong i = 0; i < 12; i++) {
		GEN P = somepoint(E, i); if (!P) return false;
		if (E.mul(P, N) != gen_0) return false;
		if (isprime(N)) L = N; else if (i < 6) L = lcmii(L, point_order(E, P, N));
		// a unique multiple of L in the Hasse interval?
		GEN k = divii(hi, L);
		if (cmpii(mulii(k, L), lo) >= 0 && cmpii(mulii(subiu(k, 1), L), lo) < 0 && equalii(mulii(k, L), N)) return true;
	}
	return false; // cannot be certified this way
}
S check_large(const PC &c, const Expect &e) {
	BigEC E; S err;
	if (!big_from(c, E, err)) return e.what & W_CURVE ? err : "";
	bool wg = e.what & W_GENS;
	GEN q = fieldq(E), N = hex2gen(c.order);
	if ((e.what & W_CURVE) && !order_is_exactly(E, N)) {
		// the exponent may be too small to certify from one side; compare with an independent point count
		GEN card = NULL;
		if (!E.bin) { card = Fp_ellcard(E.a, E.b, E.p); }
		else card = F2xq_ellcard(E.a, E.b, E.T);
		if (!equalii(card, N)) return "printed order " + c.order + " is not the number of points";
	}
	std::vector<GEN> go, gp;
	for (auto &g : c.gens) {
		GEN P = bigpoint(E, g, err); if (!P) return wg ? "generator: " + err : S("");
		GEN o = hex2gen(g.order), co = hex2gen(g.cofactor);
		if (!wg) ; else if (!signe(o) || E.mul(P, o) != gen_0 || !equalii(point_order(E, P, o), o)) return "generator (" + g.x + ", " + g.y + "): order " + g.order + " is not its order";
		if (wg && !equalii(mulii(o, co), N)) return "generator (" + g.x + ", " + g.y + "): order times cofactor is not the curve order";
		go.push_back(o); gp.push_back(P);
	}
	if (e.gens && (e.what & (W_GENS | W_OPTS))) {
		std::vector<GEN> o = go, p = gp;
		if (e.cofactor && !e.unique) {
			if (o.empty() || !equalii(mulii(o[0], utoi(e.cofactor)), N)) return fmt("first subgroup does not have cofactor %llu", (unsigned long long)e.cofactor);
			o.erase(o.begin()); p.erase(p.begin());
		}
		if (!e.single_gen_ok && wg) {
			if (o.size() == 1) { if (!equalii(o[0], N)) return "the single generator does not have the order of the curve"; }
			else if (o.size() == 2) {
				// |<P,Q>| = m * (order of the Weil pairing e_m(P,Q)), m the lcm of the orders
				GEN m = lcmii(o[0], o[1]), El, P = p[0], Q = p[1];
				if (equalii(m, N)) return "two generators printed for a cyclic group";
				if (!E.bin) El = ellinit(mkvec2(E.a, E.b), E.p, 0);
				else {
					GEN g = ffgen(gmul(F2x_to_ZX(E.T), gmodulss(1, 2)), 0), v = mkvec5(gen_1, Fq_to_FF(F2x_to_ZX(E.a), g), gen_0, gen_0, Fq_to_FF(F2x_to_ZX(E.b), g));
					El = ellinit(v, g, 0);
					P = mkvec2(Fq_to_FF(F2x_to_ZX(gel(P, 1)), g), Fq_to_FF(F2x_to_ZX(gel(P, 2)), g)); Q = mkvec2(Fq_to_FF(F2x_to_ZX(gel(Q, 1)), g), Fq_to_FF(F2x_to_ZX(gel(Q, 2)), g));
				}
				GEN w = ellweilpairing(El, P, Q, m); bool good = dvdii(N, m);
				if (good) { // is N / m the order of w?
					GEN d = diviiexact(N, m); if (!dvdii(m, d)) return "the two generators do not generate the group";
					GEN pr = gel(Z_factor(d), 1); good = gequal1(gpow(w, d, DEFAULTPREC));
					for (long i = 1; i < lg(pr) && good; i++) good = !gequal1(gpow(w, diviiexact(d, gel(pr, i)), DEFAULTPREC));
				}
				if (!good) return "the two generators do not generate the group";
			} else return fmt("%zu generators printed", o.size());
		}
	}
	if (e.what & W_OPTS) {
	if (e.prime && !isprime(N)) return "a prime order was required";
	if (e.cofactor && (!dvdii(N, utoi(e.cofactor)) || !isprime(diviuexact(N, e.cofactor)))) return fmt("cofactor %llu was required, order is %s", (unsigned long long)e.cofactor, c.order.c_str());
	if (e.smooth) { GEN pr = gel(factor(N), 1); for (long i = 1; i < lg(pr); i++) if (expi(gel(pr, i)) + 1 > (long)e.smooth) return "order is not smooth"; }
	if (e.unique && c.gens.size() != 1) return fmt("a unique generator was required, %zu printed", c.gens.size());
	if (e.koblitz && !(equali1(hex2gen(c.b)) && equaliu(hex2gen(c.a), e.kob_a))) return "not a Koblitz curve with the requested a";
	}
	uint64_t total = 0;
	if (e.pts != PTS_ANY && (e.what & W_PTS)) for (size_t i = 0; i < c.gens.size(); i++) {
		std::set<S> got;
		for (auto &x : c.gens[i].points) {
			GEN P = bigpoint(E, x, err); if (!P) return "listed point: " + err;
			GEN o = hex2gen(x.order);
			if (!signe(o) || E.mul(P, o) != gen_0 || !equalii(point_order(E, P, o), o)) return "listed point (" + x.x + ", " + x.y + "): order " + x.order + " is not its order";
			if (!dvdii(go[i], o)) return "listed point's order does not divide the order of its subgroup";
			if (!got.insert(x.order).second && e.pts != PTS_RANDOM) return "two listed points of order " + x.order;
			total++;
		}
		if (e.pts == PTS_RANDOM || e.pts == PTS_FREE) continue;
		std::set<S> want;
		if (e.pts != PTS_NONE) {
			GEN D = divisors(go[i]);
			for (long k = 2; k < lg(D); k++) { bool pr = isprime(gel(D, k)); if (e.pts == PTS_ALL || (e.pts == PTS_PRIME) == pr) { char *s = pari_sprintf("%P#x", gel(D, k)); want.insert(s); pari_free(s); } }
		}
		if (got != want) return fmt("subgroup of order %s lists %zu point orders, wanted %zu", c.gens[i].order.c_str(), got.size(), want.size());
	}
	if (e.pts == PTS_RANDOM && (e.what & W_PTS) && total != (e.npts ? e.npts : 1)) return fmt("%llu random points listed, wanted %llu", (unsigned long long)total, (unsigned long long)(e.npts ? e.npts : 1));
	if (e.what & W_META) { if (e.meta) {
		if (!c.has_meta) return "metadata requested, none printed";
		auto want = [&](const char *k, GEN w) -> S { auto it = c.meta.find(k); if (it == c.meta.end()) return S("meta.") + k + " is missing"; char *s = GENtostr(w); S ws = s; pari_free(s); if (it->second != ws) return S("meta.") + k + " is " + it->second + ", should be " + ws; return ""; };
		GEN t = subii(addiu(q, 1), N);
		if (!(err = want("frobenius", t)).empty()) return err;
		if (!E.bin) {
			GEN n = Fp_mulu(Fp_powu(E.a, 3, E.p), 4, E.p), d = Fp_add(n, Fp_mulu(Fp_sqr(E.b, E.p), 27, E.p), E.p);
			if (!(err = want("j", Fp_div(Fp_mulu(n, 1728, E.p), d, E.p))).empty()) return err;
			if (!(err = want("discriminant", Fp_neg(Fp_mulu(d, 16, E.p), E.p))).empty()) return err;
			GEN cd = hex2gen("0"), f; auto i1 = c.meta.find("cm_discriminant"), i2 = c.meta.find("conductor");
			if (i1 == c.meta.end() || i2 == c.meta.end()) return "meta.cm_discriminant or meta.conductor is missing";
			cd = strtoi(i1->second.c_str() + (i1->second[0] == '-')); if (i1->second[0] == '-') cd = negi(cd); f = strtoi(i2->second.c_str());
			if (!equalii(mulii(cd, sqri(f)), subii(sqri(t), shifti(q, 2)))) return "meta.cm_discriminant * conductor^2 is not t^2 - 4q";
			if (signe(f) <= 0 || !isfundamental(cd)) return "meta.cm_discriminant is not a fundamental discriminant";
			if (equalii(q, N)) { if (!(err = want("embedding_degree", gen_0)).empty()) return err; }
			else if (equali1(gcdii(q, N))) { if (!(err = want("embedding_degree", znorder(mkintmod(modii(q, N), N), NULL))).empty()) return err; }
		}
	} else if (c.has_meta) return "metadata printed though not requested"; }
	return "";
}
S check_record(const PC &c, const Expect &e) {
	if (c.bin != e.bin) return c.bin ? "a binary field curve was printed for --fp" : "a prime field curve was printed for --f2m";
	if (e.what & W_CURVE) {
	uint64_t m = 0;
	unsigned w = 2 * ((e.bits + 7) / 8);
	if (c.bin) { if (!hex2u(c.m, m) || m != e.bits) return "field.m = " + c.m + fmt(" is not the requested %u", e.bits); }
	else {
		pari_sp av = avma; GEN p = hex2gen(c.p); long b = expi(p) + 1; avma = av;
		if (b > (long)e.bits || (e.field_bits_exact && b != (long)e.bits)) return "field.p = " + c.p + fmt(" does not have the requested %u bits", e.bits);
	}
	auto padded = [&](const S &s) { return s.size() == 2 + w || (s.size() > 2 + w && s[2] != '0'); };
	if (!c.bin && !padded(c.p)) return "field.p = " + c.p + " is not padded to the field size";
	if (!padded(c.a) || !padded(c.b) || !padded(c.order)) return "a, b or order is not padded to the field size";
	for (auto &g : c.gens) { if (!padded(g.x) || !padded(g.y)) return "generator coordinates are not padded to the field size"; for (auto &q : g.points) if (!padded(q.x) || !padded(q.y)) return "point coordinates are not padded to the field size"; }
	}
	if (c.has_seed != e.seed) return c.has_seed ? "a seed is printed for a seedless method" : "no seed is printed";
	if (c.has_subgroups && c.gens.empty()) return "empty subgroups array";
	pari_sp av = avma;
	S r;
	EC E; S err;
	if (small_curve(c, E, err) || !err.empty()) r = err.empty() ? check_small(c, e) : err;
	else r = check_large(c, e);
	avma = av;
	return r;
}
