// Reference model: a real number field Q(theta), theta given by its minimal polynomial and an isolating
// interval. Elements are polynomials in theta; equality is equality of remainders, signs come from rational
// interval arithmetic after refining theta. Polynomials over the field with real root counting (Sturm).
#pragma once
#include <upoly.h>
#include <stdexcept>

namespace nf {
using ur::L; using ur::Q;
struct Field {
	L m;
	mutable Q lo, hi; // theta in (lo, hi), or lo == hi for the rationals
	int slo;
	Field(L mm, Q l, Q h) : m(ur::monic(mm)), lo(l), hi(h), slo(ur::sgn(ur::eval(m, l))) {}
	void refine() const {
		if (lo == hi) return;
		Q mid = (lo + hi) / 2;
		int s = ur::sgn(ur::eval(m, mid));
		if (s == 0) { lo = hi = mid; return; }
		(s == slo ? lo : hi) = mid;
	}
	L red(const L& a) const { return ur::mod(a, m); }
	L mul(const L& a, const L& b) const { return red(ur::mul(a, b)); }
	L inv(const L& a) const {
		L r0 = m, r1 = red(a), s0, s1{1};
		if (r1.empty()) throw std::runtime_error("division by zero in the reference field");
		while (r1.size() > 1) {
			L q, r;
			ur::divmod(r0, r1, q, r);
			L s2 = ur::sub(s0, ur::mul(q, s1));
			r0 = r1; r1 = r; s0 = s1; s1 = s2;
			if (r1.empty()) throw std::runtime_error("reference field polynomial is reducible");
		}
		return red(ur::sc(s1, 1 / r1[0]));
	}
	/// rational bounds of a at the current precision
	std::pair<Q, Q> bounds(const L& a) const {
		Q l = 0, h = 0;
		for (size_t i = a.size(); i > 0; --i) {
			Q c[4] = {Q(l * lo), Q(l * hi), Q(h * lo), Q(h * hi)};
			l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
			l += a[i - 1]; h += a[i - 1];
		}
		return {l, h};
	}
	int sign(const L& a0) const {
		L a = red(a0);
		if (a.empty()) return 0;
		if (a.size() == 1) return ur::sgn(a[0]);
		while (true) { auto [l, h] = bounds(a); if (l > 0) return 1; if (h < 0) return -1; refine(); }
	}
	int cmp(const L& a, const L& b) const { return sign(ur::sub(a, b)); }
	/// bounds at most w apart
	std::pair<Q, Q> enclose(const L& a, const Q& w) const { while (true) { auto b = bounds(a); if (b.second - b.first <= w) return b; refine(); } }
	/// monic minimal polynomial of an element
	L minpoly(const L& a) const {
		size_t n = m.size() - 1;
		std::vector<L> rows, comb; // rows in echelon form together with their combination of powers
		L pw{1};
		for (size_t k = 0;; ++k) {
			L v = pw, c(k + 1); c[k] = 1; v.resize(n);
			for (size_t i = 0; i < rows.size(); ++i) {
				size_t p = 0; while (rows[i][p] == 0) ++p;
				if (v[p] != 0) { Q f = v[p] / rows[i][p]; for (size_t j = 0; j < n; ++j) v[j] -= f * rows[i][j]; for (size_t j = 0; j < comb[i].size(); ++j) c[j] -= f * comb[i][j]; }
			}
			if (ur::strip(v).empty()) return ur::monic(ur::strip(c));
			rows.push_back(v); comb.push_back(c);
			pw = mul(pw, a);
		}
	}
	// polynomials over the field
	using K = std::vector<L>;
	static K kstrip(K a) { while (!a.empty() && a.back().empty()) a.pop_back(); return a; }
	K kred(K a) const { for (auto& c : a) c = red(c); return kstrip(a); }
	K ksub(const K& a, const K& b) const { K c(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); ++i) c[i] = a[i]; for (size_t i = 0; i < b.size(); ++i) c[i] = ur::sub(c[i], b[i]); return kstrip(c); }
	K kmul(const K& a, const K& b) const { if (a.empty() || b.empty()) return {}; K c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = ur::add(c[i + j], mul(a[i], b[j])); return kstrip(c); }
	void kdivmod(const K& a, const K& b, K& q, K& r) const {
		r = a; q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, L());
		L li = inv(b.back());
		while (r.size() >= b.size()) { size_t s = r.size() - b.size(); L f = mul(r.back(), li); q[s] = f; for (size_t i = 0; i < b.size(); ++i) r[s + i] = ur::sub(r[s + i], mul(f, b[i])); r.pop_back(); r = kstrip(r); }
	}
	K kder(const K& a) const { K r; for (size_t i = 1; i < a.size(); ++i) r.push_back(ur::sc(a[i], Q(static_cast<unsigned long>(i)))); return kstrip(r); }
	K ksqf(const K& a) const { if (a.size() < 2) return a; K x = a, y = kder(a); while (!y.empty()) { K q, r; kdivmod(x, y, q, r); x = y; y = r; } K q, r; kdivmod(a, x, q, r); return q; }
	L kat(const K& a, const L& x) const { L r; for (size_t i = a.size(); i > 0; --i) r = ur::add(mul(r, x), a[i - 1]); return r; }
	std::vector<K> ksturm(const K& a) const { std::vector<K> s{a}; K d = kder(a); while (!d.empty()) { s.push_back(d); K q, r; kdivmod(s[s.size() - 2], d, q, r); d = ksub(K{}, r); } return s; }
	int kvar(const std::vector<K>& s, const Q& x) const { int v = 0, last = 0; for (auto& p : s) { int g = sign(kat(p, x == 0 ? L{} : L{x})); if (g && last && g != last) ++v; if (g) last = g; } return v; }
	int kvar_inf(const std::vector<K>& s, bool pos) const { int v = 0, last = 0; for (auto& p : s) { int g = sign(p.back()); if (!pos && p.size() % 2 == 0) g = -g; if (last && g != last) ++v; last = g; } return v; }
};
/// the fields that drivers draw from
inline const std::vector<Field>& fields() {
	static const std::vector<Field> f = {
		Field({-2, 0, 1}, 1, 2),                 // sqrt 2
		Field({-1, -1, 1}, -1, 0),               // conjugate of the golden ratio
		Field({-2, 0, 0, 1}, 1, 2),              // cube root of 2
		Field({1, 0, -10, 0, 1}, 3, 4),          // sqrt 2 + sqrt 3
		Field({1, -3, 0, 1}, 0, 1),              // three real conjugates
		Field({-2, 0, 0, 0, 1}, -2, -1),         // -fourth root of 2
		Field({-1, -1, 0, 0, 0, 1}, 1, 2),       // degree 5, not solvable
		Field({Q(-7, 4), 0, 1}, 1, 2),           // sqrt(7)/2
	};
	return f;
}
}
