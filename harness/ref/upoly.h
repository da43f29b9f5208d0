// Reference model: dense univariate polynomials over Q as coefficient lists
// (lowest degree first), with real root counting by bisection on a Sturm chain.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <sstream>
#include <string>
#include <vector>

namespace ur {
using Q = mpq_class;
using L = std::vector<Q>;
inline L strip(L a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
inline int deg(const L& a) { return static_cast<int>(a.size()) - 1; }
inline L add(const L& a, const L& b) { L c(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); ++i) c[i] += a[i]; for (size_t i = 0; i < b.size(); ++i) c[i] += b[i]; return strip(c); }
inline L sc(const L& a, const Q& k) { L c; for (auto& x : a) c.push_back(x * k); return strip(c); }
inline L sub(const L& a, const L& b) { return add(a, sc(b, -1)); }
inline L mul(const L& a, const L& b) { if (a.empty() || b.empty()) return {}; L c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return strip(c); }
inline L pow(const L& a, unsigned e) { L r{1}; for (unsigned i = 0; i < e; ++i) r = mul(r, a); return r; }
inline void divmod(const L& a, const L& b, L& q, L& r) {
	r = strip(a); q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, Q(0));
	while (r.size() >= b.size()) { size_t s = r.size() - b.size(); Q f = r.back() / b.back(); q[s] = f; for (size_t i = 0; i < b.size(); ++i) r[s + i] -= f * b[i]; r = strip(r); }
	q = strip(q);
}
inline L mod(const L& a, const L& b) { L q, r; divmod(a, b, q, r); return r; }
inline L quo(const L& a, const L& b) { L q, r; divmod(a, b, q, r); return q; }
inline L monic(const L& a) { return a.empty() ? a : sc(a, 1 / a.back()); }
inline L gcd(L a, L b) { while (!b.empty()) { L r = mod(a, b); a = b; b = monic(r); } return monic(a); }
inline L der(const L& a) { L r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * static_cast<unsigned long>(i)); return strip(r); }
inline Q eval(const L& a, const Q& x) { Q r = 0; for (size_t i = a.size(); i > 0; --i) r = r * x + a[i - 1]; return r; }
inline L sqf(const L& a) { if (deg(a) < 1) return a; return quo(a, gcd(a, der(a))); }
inline bool squarefree(const L& a) { return deg(a) < 1 || deg(gcd(a, der(a))) == 0; }
inline std::string str(const L& a) { if (a.empty()) return "0"; std::ostringstream o; for (size_t i = a.size(); i > 0; --i) if (a[i - 1] != 0) o << (a[i - 1] > 0 ? "+" : "") << a[i - 1] << "x^" << i - 1; return o.str(); }
inline int sgn(const Q& q) { return ::sgn(q); }
inline std::vector<L> sturm(const L& a) { std::vector<L> s{a}; L d = der(a); while (!d.empty()) { s.push_back(d); L m = sc(mod(s[s.size() - 2], d), -1); d = m; } return s; }
inline int var_at(const std::vector<L>& s, const Q& x) { int v = 0, last = 0; for (auto& p : s) { int g = sgn(eval(p, x)); if (g && last && g != last) ++v; if (g) last = g; } return v; }
inline int var_inf(const std::vector<L>& s, bool pos) { int v = 0, last = 0; for (auto& p : s) { if (p.empty()) continue; int g = sgn(p.back()); if (!pos && deg(p) % 2) g = -g; if (last && g != last) ++v; last = g; } return v; }
/// distinct real roots in (a,b]; works for non-squarefree input because it is made squarefree first
inline int count(const L& p, const Q& a, const Q& b) { if (deg(p) < 1) return 0; auto s = sturm(sqf(p)); return var_at(s, a) - var_at(s, b); }
inline int count_all(const L& p) { if (deg(p) < 1) return 0; auto s = sturm(sqf(p)); return var_inf(s, false) - var_inf(s, true); }
inline int count_open(const L& p, const Q& a, const Q& b) { return count(p, a, b) - (eval(p, b) == 0 ? 1 : 0); }
/// all |roots| are below this
inline Q cauchy(const L& p) { Q m = 0; for (size_t i = 0; i + 1 < p.size(); ++i) { Q q = abs(p[i] / p.back()); if (q > m) m = q; } return m + 1; }
struct Iso { Q lo, hi; bool exact; }; // exact: root is lo == hi; otherwise exactly one root in the open interval
inline std::vector<Iso> isolate(const L& p) {
	std::vector<Iso> out;
	if (deg(p) < 1) return out;
	L s = sqf(p);
	auto ch = sturm(s);
	Q b = cauchy(s);
	std::vector<std::pair<Q, Q>> todo{{Q(-b), b}};
	while (!todo.empty()) {
		auto [lo, hi] = todo.back(); todo.pop_back();
		// neither lo nor hi is a root
		int n = var_at(ch, lo) - var_at(ch, hi);
		if (n == 0) continue;
		if (n == 1) { out.push_back({lo, hi, false}); continue; }
		Q mid = (lo + hi) / 2;
		if (eval(s, mid) == 0) {
			out.push_back({mid, mid, true});
			Q w = (hi - lo) / 4;
			while (var_at(ch, mid - w) - var_at(ch, mid + w) != 1 || eval(s, mid - w) == 0 || eval(s, mid + w) == 0) w /= 2;
			todo.push_back({lo, Q(mid - w)}); todo.push_back({Q(mid + w), hi});
		} else { todo.push_back({lo, mid}); todo.push_back({mid, hi}); }
	}
	std::sort(out.begin(), out.end(), [](const Iso& a, const Iso& b) { return a.lo < b.lo; });
	return out;
}
}
