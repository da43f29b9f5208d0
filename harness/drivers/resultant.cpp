// C32: resultants, discriminants, subresultants against Sylvester matrices.
#include <polyutil.h>
#include <upoly.h>
#include <carl/core/polynomialfunctions/Resultant.h>
using pu::V; using ur::L;
using Strat = carl::SubresultantStrategy;
static Q det(std::vector<L> m) {
	Q d = 1; size_t n = m.size();
	for (size_t i = 0; i < n; ++i) {
		size_t p = i; while (p < n && m[p][i] == 0) ++p;
		if (p == n) return 0;
		if (p != i) { std::swap(m[p], m[i]); d = -d; }
		d *= m[i][i];
		for (size_t k = i + 1; k < n; ++k) { Q f = m[k][i] / m[i][i]; if (f != 0) for (size_t j = i; j < n; ++j) m[k][j] -= f * m[i][j]; }
	}
	return d;
}
/// Sylvester determinant for formal degrees; the k-th principal subresultant coefficient for k > 0
static Q sylv(const L& a, const L& b, size_t k = 0) {
	size_t n = a.size() - 1, m = b.size() - 1, N = n + m - 2 * k;
	if (N == 0) return 1;
	std::vector<L> M(N, L(N));
	for (size_t i = 0; i < m - k; ++i) for (size_t j = 0; j < a.size(); ++j) if (i + j < N) M[i][i + j] = a[n - j];
	for (size_t i = 0; i < n - k; ++i) for (size_t j = 0; j < b.size(); ++j) if (i + j < N) M[m - k + i][i + j] = b[m - j];
	return det(M);
}
static ref::Poly gen(vf::Rng& r, size_t nv, size_t terms, unsigned e) { ref::Poly p; do { p = ref::Poly(); size_t n = 1 + r.below(terms); for (size_t i = 0; i < n; ++i) { ref::Mono m = ref::mone(); m[0] = static_cast<unsigned>(r.below(e + 1)); for (size_t j = 1; j < nv; ++j) if (r.chance(1, 3)) m[j] = 1 + static_cast<unsigned>(r.below(2)); p.add(m, Q(vf::gen_small(r, 5)) == 0 ? Q(1) : Q(vf::gen_small(r, 5))); } } while (p.zero()); return p; }
static L at(const ref::Poly& p, const std::vector<Q>& pt) { L c(p.deg(0) + 1); for (auto& [m, k] : p.t) { Q v = k; for (size_t i = 1; i < ref::NV; ++i) v *= ref::qpow(pt[i], m[i]); c[m[0]] += v; } return c; }
static std::vector<Q> point(vf::Rng& r) { std::vector<Q> pt(ref::NV); for (auto& x : pt) x = vf::gen_q(r, 9, 4); return pt; }

/// operands whose remainder drops by several degrees
static void gap(vf::Rng& r, size_t nv, ref::Poly& a, ref::Poly& b) {
	auto mono = [&](unsigned e) { ref::Mono m = ref::mone(); m[0] = e; for (size_t j = 1; j < nv; ++j) if (r.chance(1, 4)) m[j] = 1; return m; };
	auto c = [&] { Q q(vf::gen_small(r, 4)); return q == 0 ? Q(1) : q; };
	unsigned n = 4 + static_cast<unsigned>(r.below(4));
	b = ref::Poly(); b.add(mono(n), c());
	for (int i = 0; i < 2; ++i) b.add(mono(static_cast<unsigned>(r.below(n))), c());
	ref::Poly low, s; low.add(mono(static_cast<unsigned>(r.below(3))), c()); if (r.coin()) low.add(mono(0), c());
	s.add(mono(static_cast<unsigned>(r.below(2))), c()); if (r.coin()) s.add(mono(0), c());
	a = b * s + low;
	if (a.zero()) a = ref::Poly(1);
	if (b.zero()) b = ref::Poly(1);
	if (r.coin()) std::swap(a, b);
}
static void res_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3);
	ref::Poly a = gen(r, nv, 4, 4), b = gen(r, nv, 4, 4);
	if (r.chance(1, 4)) { ref::Poly g = gen(r, nv, 2, 2); a = a * g; b = b * g; }
	if (r.chance(1, 10)) b = ref::deriv(a, 0);
	if (r.chance(1, 8)) { nv = 1 + r.below(2); gap(r, nv, a, b); vf::op("degree-gap"); }
	if (b.zero()) b = ref::Poly(2);
	std::string d = "res(" + a.str() + " , " + b.str() + ")"; vf::note(d); if (a.deg(0) && b.deg(0)) vf::observe(d); vf::op("resultant");
	UMP p = carl::to_univariate_polynomial(pu::build(a, r), V()[0]), q = carl::to_univariate_polynomial(pu::build(b, r), V()[0]);
	std::vector<std::vector<Q>> pts; for (int i = 0; i < 4; ++i) pts.push_back(point(r));
	const char* names[] = {"generic", "lazard", "ducos"}; Strat strats[] = {Strat::Generic, Strat::Lazard, Strat::Ducos};
	unsigned n = a.deg(0), m = b.deg(0);
	ref::Poly R0;
	for (int s = 0; s < 3; ++s) {
		vf::note(d + " " + names[s]);
		UMP res = carl::resultant(p, q, strats[s]);
		std::string key = std::string("resultant-") + names[s];
		VF_CHECK(res.coefficients().size() <= 1, key + ":constant", d << " gave " << res);
		ref::Poly R = pu::rpoly(res);
		if (s == 0) R0 = R;
		VF_CHECK(R == R0, key + ":strategies", d << " gave " << R.str() << " and " << R0.str());
		int sign = 0; bool ok = true;
		for (auto& pt : pts) {
			Q got = R.eval(pt), want;
			if (n == 0 || m == 0) {
				// a constant operand: the library returns it itself instead of its power
				Q c = m == 0 ? at(b, pt)[0] : at(a, pt)[0];
				want = n == 0 && m == 0 ? got : (got == 0) == (c == 0) ? got : Q(got + 1);
			} else want = sylv(at(a, pt), at(b, pt));
			if (sign == 0 && want != 0) sign = got == want ? 1 : -1;
			ok = ok && got == (sign < 0 ? Q(-want) : want);
		}
		if (n && m) {
			// the sign is that of the normalised operands, the one of larger degree first
			ref::Poly an = pu::rpoly(p.normalized()), bn = pu::rpoly(q.normalized()); bool exact = true;
			for (auto& pt : pts) exact = exact && R.eval(pt) == (n < m ? sylv(at(bn, pt), at(an, pt)) : sylv(at(an, pt), at(bn, pt)));
			VF_CHECK(exact, key + ":sign", d << " gave " << R.str());
		}
		VF_CHECK(ok, key, d << " gave " << R.str() << " expected +-" << sylv(at(a, pts[0]), at(b, pts[0])) << " at first point, got " << R.eval(pts[0]));
	}
}
static void sub_case(vf::Rng& r) {
	size_t nv = 1 + r.below(2);
	ref::Poly a = gen(r, nv, 4, 4), b = gen(r, nv, 4, 3), g = r.coin() ? gen(r, nv, 2, 2) : ref::Poly(1);
	if (r.chance(1, 6)) { gap(r, nv, a, b); if (r.chance(1, 3)) g = gen(r, nv, 2, 1); else g = ref::Poly(1); vf::op("degree-gap"); }
	a = a * g; b = b * g;
	if (a.deg(0) == 0 || b.deg(0) == 0) return;
	std::string d = "psc(" + a.str() + " , " + b.str() + ")"; vf::note(d); vf::observe(d); vf::op("subresultants");
	UMP p = carl::to_univariate_polynomial(pu::build(a, r), V()[0]), q = carl::to_univariate_polynomial(pu::build(b, r), V()[0]);
	const char* names[] = {"generic", "lazard", "ducos"}; Strat strats[] = {Strat::Generic, Strat::Lazard, Strat::Ducos};
	std::list<UMP> chain0;
	for (int s = 0; s < 3; ++s) {
		vf::note(d + " " + names[s]);
		auto chain = carl::subresultants(p, q, strats[s]);
		std::string key = std::string("subresultants-") + names[s];
		if (s == 0) chain0 = chain;
		VF_CHECK(chain == chain0, key + ":strategies", d << " gave " << vf::str(chain) << " / " << vf::str(chain0));
		// the lowest member of the chain is associated to the gcd (checked at a generic point)
		std::vector<Q> pt; do pt = point(r); while (at(a, pt).back() == 0 || at(b, pt).back() == 0 || pu::rpoly(chain.front().lcoeff()).eval(pt) == 0);
		L A = at(a, pt), B = at(b, pt), G = ur::gcd(A, B), C = ur::strip(at(pu::rpoly(chain.front()), pt));
		VF_CHECK(ur::monic(C) == G, key + "-gcd", d << " gave " << chain.front() << " at point gcd is " << ur::str(G));
		// every member lies in the ideal, hence is divisible by the gcd, and degrees decrease
		bool dec = true; size_t last = 0; bool first = true; bool div = true;
		for (auto& c : chain) { if (!first && c.degree() < last) dec = false; first = false; last = c.degree(); L x = ur::strip(at(pu::rpoly(c), pt)); div = div && (x.empty() || ur::mod(x, G).empty()); }
		VF_CHECK(dec, key + "-degrees", d); VF_CHECK(div, key + "-ideal", d);
		auto psc = carl::principalSubresultantsCoefficients(p, q, strats[s]);
		bool same = psc.size() == chain.size(); auto it = chain.begin(); for (size_t i = 0; same && i < psc.size(); ++i, ++it) same = carl::is_constant(psc[i]) && psc[i].lcoeff() == it->lcoeff();
		VF_CHECK(same, key + "-psc", d);
	}
}
static void disc_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3);
	ref::Poly a = gen(r, nv, 4, 4); if (r.chance(1, 3)) { ref::Poly g = gen(r, nv, 2, 2); a = a * g * g; }
	if (a.deg(0) < 1) return;
	std::string d = "disc(" + a.str() + ")"; vf::note(d); vf::observe(d); vf::op("discriminant");
	UMP p = carl::to_univariate_polynomial(pu::build(a, r), V()[0]);
	UMP res = carl::discriminant(p);
	VF_CHECK(res.coefficients().size() <= 1, "discriminant:constant", d << " gave " << res);
	ref::Poly R = pu::rpoly(res);
	// the value is the resultant with the derivative divided by the leading coefficient (numbers are returned undivided), up to one sign
	bool divided[2] = {true, true}, whole[2] = {res.isNumber(), res.isNumber()};
	for (int i = 0; i < 4; ++i) {
		auto pt = point(r); L A = at(a, pt); if (A.back() == 0) continue;
		bool rep = !ur::squarefree(A);
		VF_CHECK((R.eval(pt) == 0) == rep, "discriminant", d << " gave " << R.str());
		if (a.deg(0) < 2) continue;
		Q want = sylv(A, ur::der(A)), got = R.eval(pt);
		for (int k = 0; k < 2; ++k) { Q w = k ? Q(-want) : want; whole[k] = whole[k] && got == w; divided[k] = divided[k] && got == w / A.back(); }
	}
	if (a.deg(0) >= 2) VF_CHECK(divided[0] || divided[1] || whole[0] || whole[1], "discriminant-value", d << " gave " << R.str());
}
int main(int argc, char** argv) {
	vf::add_group("res", 4000, 120000, res_case);
	vf::add_group("sub", 3000, 80000, sub_case);
	vf::add_group("disc", 3000, 80000, disc_case);
	return vf::run(argc, argv);
}
