// Reference model: sparse multivariate polynomials over Q as exponent-vector maps.
// Deliberately naive; nothing of the library under test is used.
#pragma once
#include <gmpxx.h>
#include <array>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
constexpr size_t NV = 6;
using Mono = std::array<unsigned, NV>;
inline Mono mone() { Mono m; m.fill(0); return m; }
inline unsigned mdeg(const Mono& m) { unsigned d = 0; for (auto e : m) d += e; return d; }
inline Mono mmul(const Mono& a, const Mono& b) { Mono r; for (size_t i = 0; i < NV; ++i) r[i] = a[i] + b[i]; return r; }
inline bool mdivides(const Mono& a, const Mono& b) { for (size_t i = 0; i < NV; ++i) if (a[i] > b[i]) return false; return true; }
inline Mono mquo(const Mono& b, const Mono& a) { Mono r; for (size_t i = 0; i < NV; ++i) r[i] = b[i] - a[i]; return r; }
inline Mono mlcm(const Mono& a, const Mono& b) { Mono r; for (size_t i = 0; i < NV; ++i) r[i] = std::max(a[i], b[i]); return r; }
inline Mono mgcd(const Mono& a, const Mono& b) { Mono r; for (size_t i = 0; i < NV; ++i) r[i] = std::min(a[i], b[i]); return r; }
/// graded comparison used by the library: degree first, then the smallest variable
/// with different exponents; the monomial with the larger exponent there is smaller
inline int mcmp(const Mono& a, const Mono& b) {
	if (mdeg(a) != mdeg(b)) return mdeg(a) < mdeg(b) ? -1 : 1;
	for (size_t i = 0; i < NV; ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
	return 0;
}
inline std::string mstr(const Mono& m) {
	std::ostringstream o;
	for (size_t i = 0; i < NV; ++i) if (m[i]) o << "*v" << i << "^" << m[i];
	return o.str();
}

inline mpq_class qpow(const mpq_class& b, unsigned long e) { mpq_class r = 1; for (unsigned long i = 0; i < e; ++i) r *= b; return r; }

struct Poly {
	std::map<Mono, mpq_class> t;
	Poly() = default;
	Poly(const mpq_class& c) { if (c != 0) t[mone()] = c; }
	Poly(const mpq_class& c, const Mono& m) { if (c != 0) t[m] = c; }
	static Poly var(size_t i) { Mono m = mone(); m[i] = 1; return Poly(1, m); }
	void add(const Mono& m, const mpq_class& c) {
		auto& x = t[m];
		x += c;
		if (x == 0) t.erase(m);
	}
	bool zero() const { return t.empty(); }
	bool constant() const { return t.empty() || (t.size() == 1 && mdeg(t.begin()->first) == 0); }
	mpq_class coeff(const Mono& m) const { auto it = t.find(m); return it == t.end() ? mpq_class(0) : it->second; }
	mpq_class constpart() const { return coeff(mone()); }
	unsigned tdeg() const { unsigned d = 0; for (auto& [m, c] : t) d = std::max(d, mdeg(m)); return d; }
	unsigned deg(size_t v) const { unsigned d = 0; for (auto& [m, c] : t) d = std::max(d, m[v]); return d; }
	bool has(size_t v) const { return deg(v) > 0; }
	Poly coeff_in(size_t v, unsigned e) const {
		Poly r;
		for (auto& [m, c] : t) if (m[v] == e) { Mono n = m; n[v] = 0; r.add(n, c); }
		return r;
	}
	Mono lmon() const { Mono b = t.begin()->first; for (auto& [m, c] : t) if (mcmp(b, m) < 0) b = m; return b; }
	mpq_class lcoeff() const { return t.at(lmon()); }
	std::string str() const {
		if (t.empty()) return "0";
		std::ostringstream o;
		bool f = true;
		for (auto& [m, c] : t) { o << (f ? "" : " + ") << c << mstr(m); f = false; }
		return o.str();
	}
	mpq_class eval(const std::vector<mpq_class>& p) const {
		mpq_class r = 0;
		for (auto& [m, c] : t) { mpq_class x = c; for (size_t i = 0; i < NV; ++i) x *= qpow(p[i], m[i]); r += x; }
		return r;
	}
};
inline bool operator==(const Poly& a, const Poly& b) { return a.t == b.t; }
inline bool operator!=(const Poly& a, const Poly& b) { return !(a.t == b.t); }
inline Poly operator+(Poly a, const Poly& b) { for (auto& [m, c] : b.t) a.add(m, c); return a; }
inline Poly operator-(Poly a, const Poly& b) { for (auto& [m, c] : b.t) a.add(m, -c); return a; }
inline Poly operator-(const Poly& a) { Poly r; for (auto& [m, c] : a.t) r.t[m] = -c; return r; }
inline Poly operator*(const Poly& a, const Poly& b) { Poly r; for (auto& [m, c] : a.t) for (auto& [n, d] : b.t) r.add(mmul(m, n), c * d); return r; }
inline Poly scale(const Poly& a, const mpq_class& s) { Poly r; if (s != 0) for (auto& [m, c] : a.t) r.t[m] = c * s; return r; }
inline Poly ppow(const Poly& a, unsigned e) { Poly r(1); for (unsigned i = 0; i < e; ++i) r = r * a; return r; }
inline Poly deriv(const Poly& a, size_t v) { Poly r; for (auto& [m, c] : a.t) if (m[v]) { Mono n = m; n[v]--; r.add(n, c * m[v]); } return r; }
inline Poly deriv(Poly a, size_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) a = deriv(a, v); return a; }
/// simultaneous substitution
inline Poly subst(const Poly& a, const std::map<size_t, Poly>& s) {
	Poly r;
	for (auto& [m, c] : a.t) {
		Poly x(c);
		Mono rest = m;
		for (auto& [v, q] : s) { x = x * ppow(q, m[v]); rest[v] = 0; }
		r = r + x * Poly(1, rest);
	}
	return r;
}
/// multivariate division by one divisor: a = q*b + r, no monomial of r divisible by lmon(b)
inline void divmod(Poly a, const Poly& b, Poly& q, Poly& r) {
	q = Poly(); r = Poly();
	Mono lb = b.lmon();
	mpq_class cb = b.t.at(lb);
	while (!a.zero()) {
		Mono la = a.lmon();
		mpq_class ca = a.t.at(la);
		if (mdivides(lb, la)) { Poly f(ca / cb, mquo(la, lb)); q = q + f; a = a - f * b; }
		else { r.add(la, ca); a.t.erase(la); }
	}
}
}
