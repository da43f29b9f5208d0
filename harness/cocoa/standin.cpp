// Implementation of the CoCoALib stand-in: plain textbook algorithms.
#include "CoCoA/standin.H"
#include <algorithm>
#include <atomic>
#include <set>

namespace CoCoA {
namespace {

using P = Terms;
using E = Exponents;

void add(P& p, const E& e, const mpq_class& c) {
	if (c == 0) return;
	auto r = p.emplace(e, c);
	if (!r.second) { r.first->second += c; if (r.first->second == 0) p.erase(r.first); }
}
P sum(const P& a, const P& b, int sgn = 1) { P r = a; for (auto& x : b) add(r, x.first, sgn > 0 ? x.second : mpq_class(-x.second)); return r; }
P mul(const P& a, const P& b) {
	P r;
	for (auto& x : a) for (auto& y : b) {
		E e = x.first;
		for (std::size_t i = 0; i < e.size(); ++i) e[i] += y.first[i];
		add(r, e, x.second * y.second);
	}
	return r;
}
P scale(const P& a, const mpq_class& c) { P r; if (c != 0) for (auto& x : a) r[x.first] = x.second * c; return r; }
P cst(std::size_t n, const mpq_class& c) { P r; if (c != 0) r[E(n, 0)] = c; return r; }
bool is_cst(const P& p) { if (p.size() > 1) return false; if (p.empty()) return true; for (long x : p.begin()->first) if (x) return false; return true; }
long degv(const P& p, std::size_t v) { long d = p.empty() ? -1 : 0; for (auto& x : p) d = std::max(d, x.first[v]); return d; }
P pw(const P& p, long k, std::size_t n) { P r = cst(n, 1); for (; k > 0; --k) r = mul(r, p); return r; }

/// exact division in lexicographic order; false if there is a remainder
bool divide(const P& a, const P& b, P& q) {
	P r = a;
	q.clear();
	const E& lb = b.rbegin()->first;
	const mpq_class lc = b.rbegin()->second;
	while (!r.empty()) {
		E e = r.rbegin()->first;
		for (std::size_t i = 0; i < e.size(); ++i) { e[i] -= lb[i]; if (e[i] < 0) return false; }
		mpq_class c = r.rbegin()->second / lc;
		q[e] = c;
		for (auto& x : b) {
			E f = x.first;
			for (std::size_t i = 0; i < f.size(); ++i) f[i] += e[i];
			add(r, f, -c * x.second);
		}
	}
	return true;
}
/// coefficient with respect to v, as polynomials without v
std::map<long, P> coeffs(const P& p, std::size_t v) {
	std::map<long, P> r;
	for (auto& x : p) { E e = x.first; long d = e[v]; e[v] = 0; r[d][e] = x.second; }
	return r;
}
P shift(const P& p, std::size_t v, long k) { P r; for (auto& x : p) { E e = x.first; e[v] += k; r[e] = x.second; } return r; }

/// leading term in degree reverse lexicographic order
bool drl_less(const E& a, const E& b) {
	long da = 0, db = 0;
	for (long x : a) da += x;
	for (long x : b) db += x;
	if (da != db) return da < db;
	for (std::size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] > b[i];
	return false;
}
bool dl_less(const E& a, const E& b) {
	long da = 0, db = 0;
	for (long x : a) da += x;
	for (long x : b) db += x;
	if (da != db) return da < db;
	return a < b;
}
bool less(PPOrderingCtor o, const E& a, const E& b) { return o == lex ? a < b : o == StdDegLex ? dl_less(a, b) : drl_less(a, b); }
const std::pair<const E, mpq_class>& lead(const P& p, PPOrderingCtor o) {
	auto it = p.begin();
	for (auto j = p.begin(); j != p.end(); ++j) if (less(o, it->first, j->first)) it = j;
	return *it;
}
/// primitive over the integers, positive leading coefficient
P primitive(const P& p, PPOrderingCtor o, mpq_class* unit = nullptr) {
	if (p.empty()) { if (unit) *unit = 0; return p; }
	mpz_class l = 1, g = 0;
	for (auto& x : p) l = lcm(l, x.second.get_den());
	for (auto& x : p) g = gcd(g, mpz_class(x.second.get_num() * (l / x.second.get_den())));
	mpq_class u(g, l);
	u.canonicalize();
	if (lead(p, o).second < 0) u = -u;
	if (unit) *unit = u;
	return scale(p, 1 / u);
}

P pgcd(const P& a, const P& b);

P content(const P& p, std::size_t v) {
	P g;
	for (auto& c : coeffs(p, v)) { g = g.empty() ? primitive(c.second, lex) : pgcd(g, c.second); if (is_cst(g)) break; }
	return g;
}
P prem(P a, const P& b, std::size_t v) {
	long db = degv(b, v);
	P lb = coeffs(b, v)[db];
	while (!a.empty() && degv(a, v) >= db) {
		long da = degv(a, v);
		P la = coeffs(a, v)[da];
		a = sum(mul(a, lb), mul(shift(la, v, da - db), b), -1);
	}
	return a;
}
/// value of p at x for variable v
P at(const P& p, std::size_t v, const mpz_class& x) {
	P r;
	std::map<long, mpz_class> pow;
	for (auto& t : p) {
		E e = t.first;
		long k = e[v];
		e[v] = 0;
		auto i = pow.find(k);
		if (i == pow.end()) { mpz_class y; mpz_pow_ui(y.get_mpz_t(), x.get_mpz_t(), static_cast<unsigned long>(k)); i = pow.emplace(k, y).first; }
		add(r, e, t.second * i->second);
	}
	return r;
}
/// heuristic gcd of integer polynomials by evaluation at a large integer; the result is verified by division
bool heu_gcd(const P& a, const P& b, P& g) {
	std::size_t n = a.begin()->first.size(), v = n;
	for (std::size_t i = 0; i < n && v == n; ++i) if (degv(a, i) > 0 || degv(b, i) > 0) v = i;
	auto icont = [](const P& p) { mpz_class c = 0; for (auto& x : p) c = gcd(c, x.second.get_num()); return c; };
	mpz_class c = gcd(icont(a), icont(b));
	if (v == n) { g = cst(n, c); return true; }
	P a1 = scale(a, mpq_class(1) / c), b1 = scale(b, mpq_class(1) / c);
	auto norm = [](const P& p) { mpz_class m = 0; for (auto& x : p) { mpz_class y = abs(x.second.get_num()); if (y > m) m = y; } return m; };
	mpz_class na = norm(a1), nb = norm(b1), xi = 2 * (na < nb ? na : nb) + 29;
	for (int round = 0; round < 4; ++round) {
		if (mpz_sizeinbase(xi.get_mpz_t(), 2) * static_cast<std::size_t>(std::max(degv(a1, v), degv(b1, v))) > 20000) return false;
		P ea = at(a1, v, xi), eb = at(b1, v, xi), h, q;
		if (!ea.empty() && !eb.empty() && heu_gcd(ea, eb, h)) {
			P r;
			for (long k = 0; !h.empty(); ++k) {
				P next;
				for (auto& x : h) {
					mpz_class m = x.second.get_num() % xi;
					if (m < 0) m += xi;
					if (2 * m > xi) m -= xi;
					E e = x.first;
					e[v] = k;
					add(r, e, mpq_class(m));
					add(next, x.first, mpq_class((x.second.get_num() - m) / xi));
				}
				h = next;
			}
			if (!r.empty()) {
				r = primitive(r, lex);
				if (divide(a1, r, q) && divide(b1, r, q)) { g = scale(r, mpq_class(c)); return true; }
			}
		}
		xi = xi * 73794 / 27011;
	}
	return false;
}
/// greatest common divisor by primitive remainder sequences
P pgcd(const P& a0, const P& b0) {
	if (!a0.empty() && !b0.empty()) { P g; if (heu_gcd(primitive(a0, lex), primitive(b0, lex), g)) return primitive(g, lex); }
	if (a0.empty()) return primitive(b0, lex);
	if (b0.empty()) return primitive(a0, lex);
	std::size_t n = a0.begin()->first.size();
	if (is_cst(a0) || is_cst(b0)) return cst(n, 1);
	// a variable in only one of them cannot occur in the gcd
	std::size_t v = n;
	for (std::size_t i = 0; i < n; ++i) {
		long da = degv(a0, i), db = degv(b0, i);
		if (da > 0 && db <= 0) return pgcd(content(a0, i), b0);
		if (db > 0 && da <= 0) return pgcd(a0, content(b0, i));
		if (da > 0 && (v == n || std::min(da, db) < std::min(degv(a0, v), degv(b0, v)))) v = i;
	}
	P ca = content(a0, v), cb = content(b0, v), a, b;
	divide(a0, ca, a);
	divide(b0, cb, b);
	P c = pgcd(ca, cb);
	if (degv(a, v) < degv(b, v)) std::swap(a, b);
	while (!b.empty()) {
		P r = prem(a, b, v);
		a = b;
		if (r.empty()) { b.clear(); break; }
		if (degv(r, v) == 0) { a = cst(n, 1); break; }
		P cr = content(r, v);
		divide(r, cr, b);
		b = primitive(b, lex);
	}
	return primitive(mul(a, c), lex);
}

// ---------------------------------------------------------------- univariate factorisation
using Z = mpz_class;
using U = std::vector<Z>;                                                            // over the integers or modulo something
void trim(U& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
Z md(const Z& a, const Z& m) { Z r = a % m; if (r < 0) r += m; return r; }
U umod(U a, const Z& m) { for (auto& x : a) x = md(x, m); trim(a); return a; }
U uadd(const U& a, const U& b) { U r(std::max(a.size(), b.size())); for (std::size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (std::size_t i = 0; i < b.size(); ++i) r[i] += b[i]; trim(r); return r; }
U usub(const U& a, const U& b) { U r(std::max(a.size(), b.size())); for (std::size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (std::size_t i = 0; i < b.size(); ++i) r[i] -= b[i]; trim(r); return r; }
U umul(const U& a, const U& b) { if (a.empty() || b.empty()) return {}; U r(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; trim(r); return r; }
Z inv(const Z& a, const Z& m) { Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) throw ErrorInfo("no inverse"); return r; }
/// division with remainder modulo m; the leading coefficient of b must be a unit
void udivrem(const U& a, const U& b, const Z& m, U& q, U& r) {
	r = umod(a, m);
	q.assign(r.size() >= b.size() ? r.size() - b.size() + 1 : 0, Z(0));
	Z li = inv(b.back(), m);
	while (r.size() >= b.size()) {
		std::size_t k = r.size() - b.size();
		Z c = md(r.back() * li, m);
		q[k] = c;
		for (std::size_t i = 0; i < b.size(); ++i) r[i + k] = md(r[i + k] - c * b[i], m);
		trim(r);
	}
	trim(q);
}
U urem(const U& a, const U& b, const Z& m) { U q, r; udivrem(a, b, m, q, r); return r; }
U uquo(const U& a, const U& b, const Z& m) { U q, r; udivrem(a, b, m, q, r); return q; }
U monic(const U& a, const Z& m) { if (a.empty()) return a; Z i = inv(a.back(), m); U r = a; for (auto& x : r) x = md(x * i, m); return r; }
U ugcd(U a, U b, const Z& p) { a = umod(a, p); b = umod(b, p); while (!b.empty()) { U r = urem(a, b, p); a = b; b = r; } return monic(a, p); }
void uegcd(const U& a, const U& b, const Z& p, U& s, U& t) { // s*a + t*b = 1
	U r0 = umod(a, p), r1 = umod(b, p), s0 = {Z(1)}, s1, t0, t1 = {Z(1)};
	while (!r1.empty()) {
		U q, r;
		udivrem(r0, r1, p, q, r);
		U s2 = umod(usub(s0, umul(q, s1)), p), t2 = umod(usub(t0, umul(q, t1)), p);
		r0 = r1; r1 = r; s0 = s1; s1 = s2; t0 = t1; t1 = t2;
	}
	Z i = inv(r0[0], p);
	s = umod(umul(s0, {i}), p);
	t = umod(umul(t0, {i}), p);
}
U upowmod(U b, Z e, const U& f, const Z& p) {
	U r = {Z(1)};
	b = urem(b, f, p);
	while (e > 0) {
		if (mpz_odd_p(e.get_mpz_t())) r = urem(umul(r, b), f, p);
		b = urem(umul(b, b), f, p);
		e /= 2;
	}
	return r;
}
uint64_t rnd(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
/// monic irreducible factors of a monic square-free polynomial modulo an odd prime
std::vector<U> factor_mod(const U& f, const Z& p) {
	std::vector<U> out;
	std::vector<std::pair<U, std::size_t>> dd;
	U g = f, x = {Z(0), Z(1)}, h = x;
	for (std::size_t d = 1; g.size() > 1 && 2 * d <= g.size() - 1; ++d) {
		h = upowmod(h, p, g, p);
		U c = ugcd(usub(h, x), g, p);
		if (c.size() > 1) { dd.emplace_back(c, d); g = uquo(g, c, p); h = urem(h, g.size() > 1 ? g : U{Z(0), Z(1)}, p); }
	}
	if (g.size() > 1) dd.emplace_back(g, g.size() - 1);
	uint64_t seed = 88172645463325252ull;
	for (auto& [c, d] : dd) {
		std::vector<U> work = {c};
		Z e = 1;
		for (std::size_t i = 0; i < d; ++i) e *= p;
		e = (e - 1) / 2;
		while (!work.empty()) {
			U w = work.back();
			if (w.size() - 1 == d) { out.push_back(monic(w, p)); work.pop_back(); continue; }
			U a(w.size() - 1);
			for (auto& y : a) y = md(Z(static_cast<unsigned long>(rnd(seed) >> 1)), p);
			trim(a);
			if (a.size() < 2) continue;
			U k = usub(upowmod(a, e, w, p), {Z(1)});
			U t = ugcd(k, w, p);
			if (t.size() > 1 && t.size() < w.size()) { work.pop_back(); work.push_back(t); work.push_back(uquo(w, t, p)); }
		}
	}
	return out;
}
U uprim(U a) { trim(a); Z g = 0; for (auto& x : a) g = gcd(g, x); if (g == 0) return a; if (a.back() < 0) g = -g; for (auto& x : a) x /= g; return a; }
U uderiv(const U& a) { U r; for (std::size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * static_cast<unsigned long>(i)); trim(r); return r; }
bool udivides(const U& a, const U& b, U& q) { // exact over the integers
	U r = a;
	trim(r);
	if (r.size() < b.size()) return false;
	q.assign(r.size() - b.size() + 1, Z(0));
	while (r.size() >= b.size()) {
		std::size_t k = r.size() - b.size();
		if (r.back() % b.back() != 0) return false;
		Z c = r.back() / b.back();
		q[k] = c;
		for (std::size_t i = 0; i < b.size(); ++i) r[i + k] -= c * b[i];
		trim(r);
	}
	return r.empty();
}
/// lift f = g*h (mod p) to modulus p^k with g, h monic up to the leading coefficient of h
void hensel(const U& f, U& g, U& h, const Z& p, const Z& target) {
	U s, t;
	uegcd(g, h, p, s, t);
	Z m = p;
	while (m < target) {
		// linear step: f - g*h = m*e
		U e = usub(f, umul(g, h));
		for (auto& x : e) x /= m;
		e = umod(e, p);
		// g monic: dg = t*e mod g, dh = s*e + quotient*h
		U q, dg;
		udivrem(umul(t, e), g, p, q, dg);
		U dh = umod(uadd(umul(s, e), umul(q, h)), p);
		for (auto& x : dg) x *= m;
		for (auto& x : dh) x *= m;
		g = uadd(g, dg);
		h = uadd(h, dh);
		m *= p;
		g = umod(g, m);
		h = umod(h, m);
	}
}
/// irreducible factors of a primitive square-free integer polynomial
std::vector<U> factor_zz(const U& f0) {
	U f = uprim(f0);
	if (f.size() <= 2) return {f};
	std::vector<U> best;
	Z bp = 0;
	Z p = 5;
	int tried = 0;
	for (; tried < 5; mpz_nextprime(p.get_mpz_t(), p.get_mpz_t())) {
		if (f.back() % p == 0) continue;
		if (ugcd(f, uderiv(f), p).size() > 1) continue;
		++tried;
		auto fs = factor_mod(monic(umod(f, p), p), p);
		if (bp == 0 || fs.size() < best.size()) { best = fs; bp = p; }
		if (best.size() == 1) return {f};
	}
	// bound on coefficients of factors
	Z n2 = 0;
	for (auto& x : f) n2 += x * x;
	Z bound = sqrt(n2) + 1;
	bound *= abs(f.back());
	bound <<= f.size();
	bound *= 2;
	Z m = bp;
	while (m < bound) m *= bp;
	// lift the factors one after the other
	std::vector<U> lifted;
	U rest = f;
	for (std::size_t i = 0; i + 1 < best.size(); ++i) {
		U g = best[i], h = {md(rest.back(), bp)};
		for (std::size_t j = i + 1; j < best.size(); ++j) h = umod(umul(h, best[j]), bp);
		hensel(rest, g, h, bp, m);
		lifted.push_back(g);
		rest = h;
	}
	lifted.push_back(monic(umod(rest, m), m));
	std::vector<U> out;
	std::vector<std::size_t> left(lifted.size());
	for (std::size_t i = 0; i < left.size(); ++i) left[i] = i;
	std::size_t k = 1;
	while (2 * k <= left.size()) {
		bool found = false;
		std::vector<bool> sel(left.size(), false);
		std::fill(sel.begin(), sel.begin() + static_cast<long>(k), true);
		do {
			U c = {md(f.back(), m)};
			for (std::size_t i = 0; i < left.size(); ++i) if (sel[i]) c = umod(umul(c, lifted[left[i]]), m);
			for (auto& x : c) if (2 * x > m) x -= m;
			c = uprim(c);
			U q;
			if (c.size() > 1 && udivides(f, c, q)) {
				out.push_back(c);
				f = uprim(q);
				std::vector<std::size_t> nl;
				for (std::size_t i = 0; i < left.size(); ++i) if (!sel[i]) nl.push_back(left[i]);
				left = nl;
				found = true;
				break;
			}
		} while (std::prev_permutation(sel.begin(), sel.end()));
		if (!found) ++k;
	}
	if (f.size() > 1) out.push_back(f);
	return out;
}

// ---------------------------------------------------------------- univariate over the rationals
using W = std::vector<mpq_class>;
void trimw(W& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
W wmul(const W& a, const W& b) { if (a.empty() || b.empty()) return {}; W r(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; trimw(r); return r; }
void wdivrem(const W& a, const W& b, W& q, W& r) {
	r = a;
	trimw(r);
	q.assign(r.size() >= b.size() ? r.size() - b.size() + 1 : 0, mpq_class(0));
	while (r.size() >= b.size()) {
		std::size_t k = r.size() - b.size();
		mpq_class c = r.back() / b.back();
		q[k] = c;
		for (std::size_t i = 0; i < b.size(); ++i) r[i + k] -= c * b[i];
		r.pop_back();
		trimw(r);
	}
	trimw(q);
}
W winv(const W& a, const W& f) { // inverse of a modulo f
	W r0 = f, r1, q, s0, s1 = {mpq_class(1)};
	wdivrem(a, f, q, r1);
	while (r1.size() > 1) {
		W r;
		wdivrem(r0, r1, q, r);
		W x = wmul(q, s1), s2(std::max(x.size(), s0.size()));
		for (std::size_t i = 0; i < s0.size(); ++i) s2[i] += s0[i];
		for (std::size_t i = 0; i < x.size(); ++i) s2[i] -= x[i];
		trimw(s2);
		r0 = r1; r1 = r; s0 = s1; s1 = s2;
	}
	if (r1.empty()) throw ErrorInfo("factors are not coprime");
	for (auto& c : s1) c /= r1[0];
	return s1;
}

// ---------------------------------------------------------------- multivariate factorisation
P subst(const P& p, const std::vector<P>& by, std::size_t n) {
	std::vector<std::vector<P>> pow(by.size());
	P r;
	for (auto& x : p) {
		P t = cst(n, x.second);
		for (std::size_t i = 0; i < by.size(); ++i) if (x.first[i]) {
			auto& c = pow[i];
			if (c.empty()) c.push_back(cst(n, 1));
			while (static_cast<long>(c.size()) <= x.first[i]) c.push_back(mul(c.back(), by[i]));
			t = mul(t, c[static_cast<std::size_t>(x.first[i])]);
		}
		r = sum(r, t);
	}
	return r;
}
P indet(std::size_t n, std::size_t i) { E e(n, 0); e[i] = 1; return P{{e, mpq_class(1)}}; }
long zdeg(const E& e, std::size_t v) { long d = 0; for (std::size_t i = 0; i < e.size(); ++i) if (i != v) d += e[i]; return d; }
P truncate(const P& p, std::size_t v, long d) { P r; for (auto& x : p) if (zdeg(x.first, v) <= d) r.insert(r.end(), x); return r; }
P mult(const P& a, const P& b, std::size_t v, long d) {
	P r;
	for (auto& x : a) {
		long dx = zdeg(x.first, v);
		for (auto& y : b) if (dx + zdeg(y.first, v) <= d) {
			E e = x.first;
			for (std::size_t i = 0; i < e.size(); ++i) e[i] += y.first[i];
			add(r, e, x.second * y.second);
		}
	}
	return r;
}

/// irreducible factors of a primitive (in v) square-free polynomial of positive degree in v
std::vector<P> factor_sqfree(const P& p, std::size_t v) {
	std::size_t n = p.begin()->first.size();
	long d = degv(p, v);
	if (d == 1) return {p};
	bool uni = true;
	for (auto& x : p) if (zdeg(x.first, v) != 0) { uni = false; break; }
	if (uni) {
		P q = primitive(p, lex);
		U u(static_cast<std::size_t>(d) + 1);
		for (auto& x : q) u[static_cast<std::size_t>(x.first[v])] = x.second.get_num();
		std::vector<P> out;
		for (auto& f : factor_zz(u)) { P g; for (std::size_t i = 0; i < f.size(); ++i) { E e(n, 0); e[v] = static_cast<long>(i); add(g, e, mpq_class(f[i])); } out.push_back(g); }
		return out;
	}
	// monic in v: lc^(d-1) * p(v / lc)
	auto cs = coeffs(p, v);
	P lc = cs[d], mon;
	{
		P pw_ = cst(n, 1);
		for (long k = d; k >= 0; --k) {
			if (k == d) { E e(n, 0); e[v] = d; mon[e] = 1; continue; }
			if (k < d - 1) pw_ = mul(pw_, lc);
			if (cs.count(k)) mon = sum(mon, shift(mul(cs[k], pw_), v, k));
		}
	}
	// a point at which the image stays square-free; move it to the origin
	std::vector<P> to(n), back(n);
	W img;
	uint64_t seed = 2463534242ull;
	for (long range = 0;; ++range) {
		for (std::size_t i = 0; i < n; ++i) {
			long a = i == v ? 0 : static_cast<long>(rnd(seed) % static_cast<uint64_t>(2 * range + 1)) - range;
			to[i] = sum(indet(n, i), cst(n, a));
			back[i] = sum(indet(n, i), cst(n, a), -1);
		}
		P m0 = truncate(subst(mon, to, n), v, 0);
		img.assign(static_cast<std::size_t>(d) + 1, mpq_class(0));
		for (auto& x : m0) img[static_cast<std::size_t>(x.first[v])] = x.second;
		W a = img, b;
		for (std::size_t i = 1; i < a.size(); ++i) b.push_back(a[i] * static_cast<unsigned long>(i));
		trimw(b);
		while (!b.empty()) { W q, r; wdivrem(a, b, q, r); a = b; b = r; }
		if (a.size() == 1) break;
		if (range > 200) throw ErrorInfo("no good evaluation point");
	}
	P f = subst(mon, to, n);
	long D = 0;
	for (auto& x : f) D = std::max(D, zdeg(x.first, v));
	// factors of the image
	P im;
	for (std::size_t i = 0; i < img.size(); ++i) { E e(n, 0); e[v] = static_cast<long>(i); add(im, e, img[i]); }
	std::vector<W> f0;
	for (auto& g : factor_sqfree(im, v)) { W w(static_cast<std::size_t>(degv(g, v)) + 1); for (auto& x : g) w[static_cast<std::size_t>(x.first[v])] = x.second; mpq_class l = w.back(); for (auto& c : w) c /= l; f0.push_back(w); }
	if (f0.size() == 1) return {p};
	std::vector<W> inverse;
	for (std::size_t i = 0; i < f0.size(); ++i) {
		W c = {mpq_class(1)};
		for (std::size_t j = 0; j < f0.size(); ++j) if (j != i) { W q, r; wdivrem(wmul(c, f0[j]), f0[i], q, r); c = r; }
		inverse.push_back(winv(c, f0[i]));
	}
	std::vector<P> F;
	for (auto& w : f0) { P g; for (std::size_t i = 0; i < w.size(); ++i) { E e(n, 0); e[v] = static_cast<long>(i); add(g, e, w[i]); } F.push_back(g); }
	for (long k = 1; k <= D; ++k) {
		P prod = cst(n, 1);
		for (auto& g : F) prod = mult(prod, g, v, k);
		P err = sum(truncate(f, v, k), prod, -1);
		std::map<E, W> by;
		for (auto& x : err) {
			E e = x.first;
			std::size_t i = static_cast<std::size_t>(e[v]);
			e[v] = 0;
			auto& w = by[e];
			if (w.size() <= i) w.resize(i + 1);
			w[i] = x.second;
		}
		for (auto& [e, w] : by) for (std::size_t i = 0; i < F.size(); ++i) {
			W q, s;
			wdivrem(wmul(w, inverse[i]), f0[i], q, s);
			for (std::size_t j = 0; j < s.size(); ++j) { E g = e; g[v] = static_cast<long>(j); add(F[i], g, s[j]); }
		}
	}
	// recombination
	std::vector<P> out;
	std::vector<std::size_t> left(F.size());
	for (std::size_t i = 0; i < left.size(); ++i) left[i] = i;
	P restf = f, rest = p;
	auto emit = [&](const P& g) { // undo shift and monic transformation
		P h = subst(g, back, n);
		std::vector<P> sc(n);
		for (std::size_t i = 0; i < n; ++i) sc[i] = i == v ? mul(lc, indet(n, v)) : indet(n, i);
		h = subst(h, sc, n);
		P c = content(h, v), q;
		divide(h, c, q);
		out.push_back(primitive(q, lex));
	};
	std::size_t k = 1;
	while (2 * k <= left.size()) {
		bool found = false;
		std::vector<bool> sel(left.size(), false);
		std::fill(sel.begin(), sel.begin() + static_cast<long>(k), true);
		do {
			P c = cst(n, 1), q;
			for (std::size_t i = 0; i < left.size(); ++i) if (sel[i]) c = mult(c, F[left[i]], v, D);
			if (divide(restf, c, q)) {
				emit(c);
				restf = q;
				std::vector<std::size_t> nl;
				for (std::size_t i = 0; i < left.size(); ++i) if (!sel[i]) nl.push_back(left[i]);
				left = nl;
				found = true;
				break;
			}
		} while (std::prev_permutation(sel.begin(), sel.end()));
		if (!found) ++k;
	}
	if (!left.empty()) emit(restf);
	return out;
}
P deriv(const P& p, std::size_t v) { P r; for (auto& x : p) if (x.first[v] > 0) { E e = x.first; mpq_class c = x.second * e[v]; e[v]--; r[e] = c; } return r; }

void factor_all(P p, std::map<P, long>& out, long mult_) {
	if (p.empty() || is_cst(p)) return;
	std::size_t n = p.begin()->first.size();
	// main variable: lowest positive degree
	std::size_t v = n;
	for (std::size_t i = 0; i < n; ++i) { long d = degv(p, i); if (d > 0 && (v == n || d < degv(p, v))) v = i; }
	P c = content(p, v), q;
	divide(p, c, q);
	factor_all(c, out, mult_);
	// square-free decomposition in v (Yun)
	P d = deriv(q, v), a = pgcd(q, d), b, cc, dd;
	divide(q, a, b);
	divide(d, a, cc);
	dd = sum(cc, deriv(b, v), -1);
	for (long i = 1; !is_cst(b); ++i) {
		P g = pgcd(b, dd);
		if (!is_cst(g)) for (auto& f : factor_sqfree(g, v)) out[f] += i * mult_;
		P nb, nc;
		divide(b, g, nb);
		divide(dd, g, nc);
		b = nb;
		dd = sum(nc, deriv(b, v), -1);
	}
}

// ---------------------------------------------------------------- Groebner bases
bool mdiv(const E& a, const E& b) { for (std::size_t i = 0; i < a.size(); ++i) if (a[i] > b[i]) return false; return true; }
P reduce(P f, const std::vector<P>& g, PPOrderingCtor o) {
	P r;
	while (!f.empty()) {
		auto lt = lead(f, o);
		bool red = false;
		for (auto& q : g) {
			const auto& lq = lead(q, o);
			if (!mdiv(lq.first, lt.first)) continue;
			mpq_class c = lt.second / lq.second;
			E e = lt.first;
			for (std::size_t i = 0; i < e.size(); ++i) e[i] -= lq.first[i];
			for (auto& x : q) { E h = x.first; for (std::size_t i = 0; i < h.size(); ++i) h[i] += e[i]; add(f, h, -c * x.second); }
			red = true;
			break;
		}
		if (!red) { r[lt.first] = lt.second; f.erase(lt.first); }
	}
	return r;
}

// ---------------------------------------------------------------- towers of algebraic extensions
/// p over extended symbols
P widen(const P& p, std::size_t n) { P r; for (auto& x : p) { E e = x.first; e.resize(n, 0); r[e] = x.second; } return r; }
P narrow(const P& p, std::size_t n) { P r; for (auto& x : p) { E e = x.first; e.resize(n); r[e] = x.second; } return r; }
/// normal form modulo the minimal polynomials of the tower
P tower_reduce(P p, const std::vector<P>& tower) {
	for (std::size_t k = tower.size(); k-- > 0;) {
		if (p.empty()) return p;
		std::size_t n = p.begin()->first.size();
		P m = widen(tower[k], n);
		long d = degv(m, k);
		while (!p.empty() && degv(p, k) >= d) {
			long e = degv(p, k);
			P l = coeffs(p, k)[e];
			p = sum(p, mul(shift(l, k, e - d), m), -1);
		}
	}
	return p;
}
struct Field {
	std::vector<P> tower;
	std::vector<E> basis;
	explicit Field(const std::vector<P>& t) : tower(t) {
		basis.push_back(E(t.size(), 0));
		for (std::size_t k = 0; k < t.size(); ++k) {
			std::vector<E> nb;
			for (long e = 0; e < degv(t[k], k); ++e) for (auto& b : basis) { E x = b; x[k] = e; nb.push_back(x); }
			basis = nb;
		}
	}
	P times(const P& a, const P& b) const { return tower_reduce(mul(a, b), tower); }
	std::vector<std::vector<mpq_class>> matrix(const P& a) const { // column j is a * basis[j]
		std::vector<std::vector<mpq_class>> m(basis.size(), std::vector<mpq_class>(basis.size()));
		for (std::size_t j = 0; j < basis.size(); ++j) {
			P c = times(a, P{{basis[j], mpq_class(1)}});
			for (std::size_t i = 0; i < basis.size(); ++i) { auto it = c.find(basis[i]); if (it != c.end()) m[i][j] = it->second; }
		}
		return m;
	}
	mpq_class norm(const P& a) const {
		auto m = matrix(a);
		mpq_class d = 1;
		for (std::size_t c = 0; c < m.size(); ++c) {
			std::size_t r = c;
			while (r < m.size() && m[r][c] == 0) ++r;
			if (r == m.size()) return 0;
			if (r != c) { std::swap(m[r], m[c]); d = -d; }
			d *= m[c][c];
			for (std::size_t i = c + 1; i < m.size(); ++i) if (m[i][c] != 0) { mpq_class f = m[i][c] / m[c][c]; for (std::size_t j = c; j < m.size(); ++j) m[i][j] -= f * m[c][j]; }
		}
		return d;
	}
	P inverse(const P& a) const {
		auto m = matrix(a);
		for (std::size_t i = 0; i < m.size(); ++i) m[i].push_back(basis[i] == E(tower.size(), 0) ? 1 : 0);
		std::size_t n = m.size();
		for (std::size_t c = 0; c < n; ++c) {
			std::size_t r = c;
			while (r < n && m[r][c] == 0) ++r;
			if (r == n) throw ErrorInfo("not invertible: the extension is not a field");
			std::swap(m[r], m[c]);
			mpq_class l = m[c][c];
			for (auto& x : m[c]) x /= l;
			for (std::size_t i = 0; i < n; ++i) if (i != c && m[i][c] != 0) { mpq_class f = m[i][c]; for (std::size_t j = c; j <= n; ++j) m[i][j] -= f * m[c][j]; }
		}
		P r;
		for (std::size_t i = 0; i < n; ++i) add(r, basis[i], m[i][n]);
		return r;
	}
	using K = std::vector<P>;                                                             // univariate polynomial over the field
	static void trimk(K& a) { while (!a.empty() && a.back().empty()) a.pop_back(); }
	void divrem(const K& a, const K& b, K& q, K& r) const {
		r = a;
		trimk(r);
		q.assign(r.size() >= b.size() ? r.size() - b.size() + 1 : 0, P());
		P li = inverse(b.back());
		while (r.size() >= b.size()) {
			std::size_t k = r.size() - b.size();
			P c = times(r.back(), li);
			q[k] = c;
			for (std::size_t i = 0; i < b.size(); ++i) r[i + k] = sum(r[i + k], times(c, b[i]), -1);
			r.pop_back();
			trimk(r);
		}
	}
	K monick(K a) const { if (a.empty()) return a; P l = inverse(a.back()); for (auto& x : a) x = times(x, l); return a; }
	K gcdk(K a, K b) const { trimk(a); trimk(b); while (!b.empty()) { K q, r; divrem(a, b, q, r); a = b; b = r; } return monick(a); }
	/// f at x (an element of the field)
	P at(const K& f, const P& x) const { P r; for (std::size_t i = f.size(); i-- > 0;) r = sum(times(r, x), f[i]); return r; }
	/// monic irreducible factors of a square-free polynomial (Trager: factors of the norm of a shifted polynomial)
	std::vector<K> factor(const K& f) const {
		if (f.size() <= 2) return {monick(f)};
		std::size_t D = basis.size(), n = (f.size() - 1) * D, t = tower.size();
		for (long s = 0;; ++s) {
			if (s > 50) throw ErrorInfo("no square-free norm");
			P theta;
			for (std::size_t i = 0; i < t; ++i) { E e(t, 0); e[i] = 1; add(theta, e, mpq_class(s * static_cast<long>(2 * i + 1))); }
			// norm of f(x - theta) by interpolation
			std::vector<mpq_class> xs, ys;
			for (std::size_t i = 0; i <= n; ++i) {
				mpq_class x(static_cast<long>(i) - static_cast<long>(n / 2));
				xs.push_back(x);
				ys.push_back(norm(at(f, sum(cst(t, x), theta, -1))));
			}
			std::vector<mpq_class> dd = ys;
			for (std::size_t k = 1; k <= n; ++k) for (std::size_t i = n; i >= k; --i) dd[i] = (dd[i] - dd[i - 1]) / (xs[i] - xs[i - k]);
			W nm = {dd[n]};
			for (std::size_t i = n; i-- > 0;) { W m = wmul(nm, {mpq_class(-xs[i]), mpq_class(1)}); if (m.empty()) m.resize(1); m[0] += dd[i]; trimw(m); nm = m; }
			W a = nm, b;
			for (std::size_t i = 1; i < a.size(); ++i) b.push_back(a[i] * static_cast<unsigned long>(i));
			trimw(b);
			while (!b.empty()) { W q, r; wdivrem(a, b, q, r); a = b; b = r; }
			if (a.size() != 1) continue;
			mpz_class l = 1;
			for (auto& c : nm) l = lcm(l, c.get_den());
			U u;
			for (auto& c : nm) u.push_back(mpz_class(c.get_num() * (l / c.get_den())));
			std::vector<K> out;
			for (auto& g : factor_zz(u)) {
				// g(x + theta) by Horner
				K h;
				for (std::size_t i = g.size(); i-- > 0;) {
					K m(h.size() + 1);
					for (std::size_t j = 0; j < h.size(); ++j) { m[j + 1] = sum(m[j + 1], h[j]); m[j] = sum(m[j], times(h[j], theta)); }
					m[0] = sum(m[0], cst(t, mpq_class(g[i])));
					trimk(m);
					h = m;
				}
				K c = gcdk(f, h);
				if (c.size() > 1) out.push_back(c);
			}
			return out;
		}
	}
};
} // namespace

symbol NewSymbol() { static std::atomic<long> n{0}; return symbol("#" + std::to_string(++n)); }
ring RingQQ() { static ring q = [] { ring r; r.d = std::make_shared<RingData>(RingData{0, {}, StdDegRevLex}); return r; }(); return q; }
SparsePolyRing NewPolyRing(const ring& coeffs, const std::vector<symbol>& indets, PPOrderingCtor order) {
	static std::atomic<long> next{0};
	if (coeffs.d->id != 0 && !coeffs.d->representatives) throw ErrorInfo("coefficients must be rationals or elements of a quotient ring");
	RingData d{++next, coeffs.d->symbols, order};
	d.base = d.symbols.size();
	d.tower = coeffs.d->tower;
	d.coefficients = coeffs.d;
	std::set<std::string> seen(d.symbols.begin(), d.symbols.end());
	for (auto& s : indets) { if (!seen.insert(s.name).second) throw ErrorInfo("indeterminates are not distinct"); d.symbols.push_back(s.name); }
	SparsePolyRing r;
	r.d = std::make_shared<RingData>(std::move(d));
	return r;
}

ring NewQuotientRing(const ring& r, const ideal& i) {
	if (i.gens.size() != 1 || r.d->symbols.size() != r.d->base + 1) throw ErrorInfo("only simple extensions are supported");
	RingData d{-r.d->id, r.d->symbols, lex};
	d.base = d.symbols.size();
	d.tower = r.d->tower;
	Field k(d.tower);
	P m = i.gens[0].t;
	long deg = degv(m, r.d->base);
	P lc = narrow(coeffs(m, r.d->base)[deg], r.d->base);
	m = tower_reduce(mul(m, widen(k.inverse(lc), d.base)), d.tower);
	d.tower.push_back(m);
	d.representatives = r.d;
	ring q;
	q.d = std::make_shared<RingData>(std::move(d));
	return q;
}
RingElem CanonicalRepr(const RingElem& p) {
	if (!p.r.d->representatives) throw ErrorInfo("not in a quotient ring");
	ring r;
	r.d = p.r.d->representatives;
	return RingElem(r, p.t);
}
RingElem RingHom::operator()(const RingElem& p) const {
	if (to.d->coefficients != p.r.d) throw ErrorInfo("not an element of the coefficient ring");
	return RingElem(to, widen(p.t, to.d->symbols.size()));
}
static void reduce_tower(RingElem& p) { if (!p.r.d->tower.empty()) p.t = tower_reduce(p.t, p.r.d->tower); }

static void same(const RingElem& a, const RingElem& b) { if (a.r.d != b.r.d) throw ErrorInfo("elements of different rings"); }
RingElem& RingElem::operator+=(const RingElem& o) { same(*this, o); t = sum(t, o.t); return *this; }
RingElem& RingElem::operator-=(const RingElem& o) { same(*this, o); t = sum(t, o.t, -1); return *this; }
RingElem& RingElem::operator*=(const RingElem& o) { same(*this, o); t = mul(t, o.t); reduce_tower(*this); return *this; }
RingElem& RingElem::operator+=(const BigRat& c) { add(t, E(r.d->symbols.size(), 0), c.v); return *this; }
RingElem operator+(const RingElem& a, const RingElem& b) { RingElem r = a; r += b; return r; }
RingElem operator-(const RingElem& a, const RingElem& b) { RingElem r = a; r -= b; return r; }
RingElem operator-(const RingElem& a) { return RingElem(a.r, scale(a.t, -1)); }
RingElem operator*(const RingElem& a, const RingElem& b) { RingElem r = a; r *= b; return r; }
RingElem operator/(const RingElem& a, const RingElem& b) {
	same(a, b);
	RingElem r(a.r);
	if (b.t.empty()) throw ErrorInfo("division by zero");
	if (a.r.d->base > 0) { // by a constant of the tower
		for (auto& x : b.t) for (std::size_t i = a.r.d->base; i < x.first.size(); ++i) if (x.first[i]) throw ErrorInfo("unsupported division");
		return a * RingElem(a.r, widen(Field(a.r.d->tower).inverse(narrow(b.t, a.r.d->base)), a.r.d->symbols.size()));
	}
	if (!divide(a.t, b.t, r.t)) throw ErrorInfo("inexact division");
	return r;
}
RingElem operator*(const BigRat& c, const RingElem& b) { return RingElem(b.r, scale(b.t, c.v)); }
bool operator==(const RingElem& a, const RingElem& b) { return a.r.d == b.r.d && a.t == b.t; }
std::ostream& operator<<(std::ostream& os, const RingElem& p) {
	if (p.t.empty()) return os << "0";
	bool first = true;
	for (auto& x : p.t) {
		os << (first ? "" : " + ") << x.second;
		for (std::size_t i = 0; i < x.first.size(); ++i) if (x.first[i]) os << "*" << p.r.d->symbols[i] << "^" << x.first[i];
		first = false;
	}
	return os;
}

std::vector<RingElem> indets(const SparsePolyRing& r) {
	std::vector<RingElem> v;
	for (std::size_t i = r.d->base; i < r.d->symbols.size(); ++i) v.emplace_back(r, indet(r.d->symbols.size(), i));
	return v;
}
bool IsIndet(long& index, const RingElem& p) {
	if (p.t.size() != 1 || p.t.begin()->second != 1) return false;
	long k = -1;
	for (std::size_t i = 0; i < p.t.begin()->first.size(); ++i) {
		long e = p.t.begin()->first[i];
		if (e == 0) continue;
		if (e != 1 || k >= 0) return false;
		k = static_cast<long>(i);
	}
	if (k < static_cast<long>(p.r.d->base)) return false;
	index = k - static_cast<long>(p.r.d->base);
	return true;
}
bool IsOne(const RingElem& p) { return p.t.size() == 1 && is_cst(p.t) && p.t.begin()->second == 1; }
bool IsZero(const RingElem& p) { return p.t.empty(); }
bool IsRational(BigRat& n, const RingElem& p) { if (!is_cst(p.t)) return false; n.v = p.t.empty() ? mpq_class(0) : p.t.begin()->second; return true; }
bool IsInteger(BigInt& n, const RingElem& p) { BigRat q; if (!IsRational(q, p) || q.v.get_den() != 1) return false; n.v = q.v.get_num(); return true; }
RingElem monomial(const ring& r, const BigRat& c, const std::vector<long>& e) {
	if (e.size() != r.d->symbols.size() - r.d->base) throw ErrorInfo("wrong number of exponents");
	RingElem p(r);
	E f(r.d->base, 0);
	f.insert(f.end(), e.begin(), e.end());
	if (c.v != 0) p.t[f] = c.v;
	return p;
}
static long odeg(const RingElem& p, const E& e) { long s = 0; for (std::size_t i = p.r.d->base; i < e.size(); ++i) s += e[i]; return s; }
long deg(const RingElem& p) { long d = 0; for (auto& x : p.t) d = std::max(d, odeg(p, x.first)); return d; }
RingElem LF(const RingElem& p) { long d = deg(p); RingElem r(p.r); for (auto& x : p.t) if (odeg(p, x.first) == d) r.t.insert(x); return r; }
RingElem LC(const RingElem& p) { if (p.t.empty()) throw ErrorInfo("leading coefficient of zero"); return coeff(BeginIter(p)); }

SparsePolyIter BeginIter(const RingElem& p) {
	SparsePolyIter i;
	if (!p.r.d->coefficients) throw ErrorInfo("not an element of a polynomial ring");
	i.coefficients.d = p.r.d->coefficients;
	std::map<E, Terms> by;
	auto b = static_cast<std::ptrdiff_t>(p.r.d->base);
	for (auto& x : p.t) by[E(x.first.begin() + b, x.first.end())][E(x.first.begin(), x.first.begin() + b)] = x.second;
	i.v.assign(by.begin(), by.end());
	PPOrderingCtor o = p.r.d->order;
	std::sort(i.v.begin(), i.v.end(), [o](const auto& a, const auto& b) { return less(o, b.first, a.first); });
	return i;
}
RingElem coeff(const SparsePolyIter& i) { return RingElem(i.coefficients, i.v[i.i].second); }

RingElem gcd(const RingElem& p, const RingElem& q) {
	same(p, q);
	return RingElem(p.r, primitive(pgcd(p.t, q.t), p.r.d->order));
}
factorization<RingElem> factor(const RingElem& p) {
	if (p.t.empty()) throw ErrorInfo("cannot factorise zero");
	if (p.r.d->base > 0) {
		if (p.r.d->symbols.size() != p.r.d->base + 1) throw ErrorInfo("only univariate factorisation over extensions");
		Field k(p.r.d->tower);
		std::size_t v = p.r.d->base;
		Field::K f(static_cast<std::size_t>(degv(p.t, v)) + 1), df;
		for (auto& [e, c] : coeffs(p.t, v)) f[static_cast<std::size_t>(e)] = narrow(c, v);
		for (std::size_t i = 1; i < f.size(); ++i) df.push_back(scale(f[i], mpq_class(static_cast<long>(i))));
		Field::trimk(df);
		std::vector<RingElem> fs;
		std::vector<long> ms;
		Field::K rest = f, q, r;
		if (f.size() > 1) {
			k.divrem(f, k.gcdk(f, df), q, r);
			for (auto& g : k.factor(q)) {
				long m = 0;
				for (;; ++m) { Field::K nq; k.divrem(rest, g, nq, r); if (!r.empty()) break; rest = nq; }
				P t;
				for (std::size_t i = 0; i < g.size(); ++i) t = sum(t, shift(widen(g[i], v + 1), v, static_cast<long>(i)));
				fs.emplace_back(p.r, t);
				ms.push_back(m);
			}
		}
		if (rest.size() != 1) throw ErrorInfo("factorisation failed");
		return factorization<RingElem>(fs, ms, RingElem(p.r, widen(rest[0], v + 1)));
	}
	std::map<P, long> fs;
	mpq_class unit;
	P q = primitive(p.t, p.r.d->order, &unit);
	// powers of indeterminates first
	std::size_t n = p.r.d->symbols.size();
	for (std::size_t i = 0; i < n; ++i) {
		long k = -1;
		for (auto& x : q) k = k < 0 ? x.first[i] : std::min(k, x.first[i]);
		if (k > 0) { fs[indet(n, i)] += k; q = shift(q, i, -k); }
	}
	factor_all(q, fs, 1);
	std::vector<RingElem> f;
	std::vector<long> m;
	P prod = cst(n, 1);
	for (auto& x : fs) {
		P g = primitive(x.first, p.r.d->order);
		prod = mul(prod, pw(g, x.second, n));
		f.emplace_back(p.r, g);
		m.push_back(x.second);
	}
	P rem;
	if (!divide(p.t, prod, rem) || !is_cst(rem)) throw ErrorInfo("factorisation failed");
	return factorization<RingElem>(f, m, RingElem(p.r, rem));
}

std::vector<RingElem> ReducedGBasis(const ideal& id) {
	std::vector<P> g;
	if (id.gens.empty()) return {};
	ring r = id.gens[0].r;
	PPOrderingCtor o = r.d->order;
	for (auto& x : id.gens) if (!x.t.empty()) g.push_back(primitive(x.t, o));
	std::vector<std::pair<std::size_t, std::size_t>> pairs;
	for (std::size_t i = 0; i < g.size(); ++i) for (std::size_t j = 0; j < i; ++j) pairs.emplace_back(j, i);
	auto l = [&](std::size_t i, std::size_t j) { E e = lead(g[i], o).first, f = lead(g[j], o).first; for (std::size_t k = 0; k < e.size(); ++k) e[k] = std::max(e[k], f[k]); return e; };
	while (!pairs.empty()) {
		auto best = pairs.begin();
		for (auto it = pairs.begin(); it != pairs.end(); ++it) if (dl_less(l(it->first, it->second), l(best->first, best->second))) best = it;
		auto [i, j] = *best;
		pairs.erase(best);
		const auto a = lead(g[i], o), b = lead(g[j], o);
		bool coprime = true;
		for (std::size_t k = 0; k < a.first.size(); ++k) if (a.first[k] && b.first[k]) coprime = false;
		if (coprime) continue;
		E m = l(i, j), ea = m, eb = m;
		for (std::size_t k = 0; k < m.size(); ++k) { ea[k] -= a.first[k]; eb[k] -= b.first[k]; }
		P s = sum(mul(g[i], P{{ea, 1 / a.second}}), mul(g[j], P{{eb, 1 / b.second}}), -1);
		s = reduce(s, g, o);
		if (s.empty()) continue;
		g.push_back(primitive(s, o));
		for (std::size_t k = 0; k + 1 < g.size(); ++k) pairs.emplace_back(k, g.size() - 1);
	}
	std::vector<P> min;
	for (std::size_t i = 0; i < g.size(); ++i) {
		bool keep = true;
		for (std::size_t j = 0; j < g.size() && keep; ++j) if (j != i) {
			const E &a = lead(g[j], o).first, &b = lead(g[i], o).first;
			if (mdiv(a, b) && (a != b || j < i)) keep = false;
		}
		if (keep) min.push_back(g[i]);
	}
	std::vector<RingElem> out;
	for (std::size_t i = 0; i < min.size(); ++i) {
		std::vector<P> rest;
		for (std::size_t j = 0; j < min.size(); ++j) if (j != i) rest.push_back(min[j]);
		P q = reduce(min[i], rest, o);
		out.emplace_back(r, scale(q, 1 / lead(q, o).second));
	}
	return out;
}
}
