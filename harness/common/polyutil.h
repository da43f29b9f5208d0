// Bridges between the reference polynomials and the library's types.
#pragma once
#include <vf.h>
#include <rpoly.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/core/polynomialfunctions/Power.h>

using Q = mpq_class;
using Z = mpz_class;
using MP = carl::MultivariatePolynomial<Q>;
using UP = carl::UnivariatePolynomial<Q>;
using UMP = carl::UnivariatePolynomial<MP>;
using TQ = carl::Term<Q>;
using MA = carl::Monomial::Arg;

namespace pu {
inline const bool pool_probe = (vf::probe("monomials", [] { return carl::MonomialPool::getInstance().size(); }), true);
/// NV variables with increasing ids; the last two are of integer type
// Two of the variables are integers unless the driver asks for real ones only.
#ifdef VF_REAL_VARS
constexpr size_t first_int = ref::NV;
#else
constexpr size_t first_int = 4;
#endif
inline const std::vector<carl::Variable>& V() {
	static std::vector<carl::Variable> v = [] {
		std::vector<carl::Variable> r;
		const char* n[] = {"va", "vb", "vc", "vd", "ve", "vf"};
		for (size_t i = 0; i < ref::NV; ++i)
			r.push_back(carl::freshVariable(n[i], i >= first_int ? carl::VariableType::VT_INT : carl::VariableType::VT_REAL));
		std::sort(r.begin(), r.end());
		return r;
	}();
	return v;
}
inline size_t vi(carl::Variable v) { for (size_t i = 0; i < ref::NV; ++i) if (V()[i] == v) return i; throw std::runtime_error("unknown variable in result"); }

inline MA mono(const ref::Mono& m) {
	carl::Monomial::Content c;
	for (size_t i = 0; i < ref::NV; ++i) if (m[i]) c.emplace_back(V()[i], m[i]);
	if (c.empty()) return nullptr;
	std::sort(c.begin(), c.end(), [](auto& a, auto& b) { return a.first < b.first; });
	return carl::createMonomial(std::move(c));
}
inline ref::Mono rmono(const MA& m) {
	ref::Mono r = ref::mone();
	if (m) for (const auto& p : *m) r[vi(p.first)] += static_cast<unsigned>(p.second);
	return r;
}
template<typename C, typename O, typename P>
ref::Poly rpoly(const carl::MultivariatePolynomial<C, O, P>& p) {
	ref::Poly r;
	for (const auto& t : p) r.add(rmono(t.monomial()), mpq_class(t.coeff()));
	return r;
}
inline ref::Poly rpoly(const TQ& t) { return ref::Poly(t.coeff(), rmono(t.monomial())); }
inline ref::Poly rpoly(const UP& p) {
	ref::Poly r;
	ref::Mono m = ref::mone();
	for (const auto& c : p.coefficients()) { r.add(m, c); m[vi(p.mainVar())]++; }
	return r;
}
inline ref::Poly rpoly(const UMP& p) {
	ref::Poly r;
	ref::Mono m = ref::mone();
	for (const auto& c : p.coefficients()) { r = r + rpoly(c) * ref::Poly(1, m); m[vi(p.mainVar())]++; }
	return r;
}
/// canonical form of a multivariate polynomial
template<typename C, typename P>
bool canonical(const carl::MultivariatePolynomial<C, carl::GrLexOrdering, P>& p, std::string& why) {
	std::set<ref::Mono> seen;
	size_t i = 0, n = p.nrTerms();
	ref::Mono last = ref::mone();
	for (const auto& t : p) {
		ref::Mono m = rmono(t.monomial());
		if (t.coeff() == 0) { why = "zero term"; return false; }
		if (!seen.insert(m).second) { why = "duplicate monomial " + ref::mstr(m); return false; }
		if (t.monomial() && ref::mdeg(m) == 0) { why = "empty monomial object"; return false; }
		if (ref::mdeg(m) == 0 && i != 0) { why = "constant term not first"; return false; }
		if (p.isOrdered() && i > 0 && ref::mcmp(last, m) >= 0) { why = "claims to be ordered but is not"; return false; }
		last = m;
		++i;
	}
	if (n > 0) {
		ref::Mono l = rmono(p.lmon());
		for (auto& m : seen) if (ref::mcmp(l, m) < 0) { why = "leading monomial is not the largest"; return false; }
	}
	return true;
}
inline void ck(const MP& got, const ref::Poly& want, const std::string& key, const std::function<std::string()>& d) {
	std::string why;
	if (!vf::check(canonical(got, why), key + ":canonical", [&] { return d() + ": " + why + " in " + vf::str(got); })) return;
	vf::check(rpoly(got) == want, key, [&] { return d() + " gave " + vf::str(got) + " expected " + want.str(); });
}
#define CK(got, want, key, msg) pu::ck((got), (want), (key), [&]() { std::ostringstream vf_o; vf_o << msg; return vf_o.str(); })

/// build a polynomial along a random route so that ordering flags differ
inline MP build(const ref::Poly& p, vf::Rng& r) {
	std::vector<TQ> ts;
	for (auto& [m, c] : p.t) ts.emplace_back(c, mono(m));
	for (size_t i = ts.size(); i > 1; --i) std::swap(ts[i - 1], ts[r.below(i)]);
	switch (r.below(6)) {
	case 0: return MP(ts, false, false);
	case 1: { MP x(std::move(ts)); return x; }
	case 2: { MP x; for (auto& t : ts) x += t; return x; }
	case 3: { MP x(ts, false, false); x.makeOrdered(); return x; }
	case 4: { // with a detour over something that cancels again
		MP x(ts, false, false);
		MP y;
		for (int i = 0; i < 2; ++i) { ref::Mono m = ref::mone(); m[r.below(ref::NV)] = static_cast<unsigned>(r.below(4)); y += TQ(vf::gen_q(r), mono(m)); }
		x = x + y; x = x - y;
		return x; }
	default: { MP x; MP y; for (size_t i = 0; i < ts.size(); ++i) { if (i % 2) x = x + MP(ts[i]); else y = y + MP(ts[i]); } return x + y; }
	}
}
inline ref::Mono gen_mono(vf::Rng& r, unsigned maxexp = 4, size_t nv = ref::NV) {
	ref::Mono m = ref::mone();
	size_t k = r.below(4);
	for (size_t i = 0; i < k; ++i) m[r.below(nv)] = static_cast<unsigned>(r.below(maxexp + 1));
	if (r.chance(1, 12)) for (size_t i = 0; i < nv; ++i) m[i] = static_cast<unsigned>(r.below(3));
	return m;
}
inline Q gen_c(vf::Rng& r) { Q c; do { c = r.chance(1, 10) ? vf::gen_mpq(r) : vf::gen_q(r, 6, 4); } while (c == 0); return c; }
inline ref::Poly gen_poly(vf::Rng& r, size_t maxterms = 6, unsigned maxexp = 3, size_t nv = ref::NV) {
	ref::Poly p;
	switch (r.below(12)) {
	case 0: return p;
	case 1: return ref::Poly(vf::gen_q(r));
	case 2: return ref::Poly(gen_c(r), gen_mono(r, maxexp, nv));
	default: break;
	}
	size_t n = 1 + r.below(maxterms);
	for (size_t i = 0; i < n; ++i) p.add(gen_mono(r, maxexp, nv), gen_c(r));
	return p;
}
inline ref::Poly gen_poly_nz(vf::Rng& r, size_t maxterms = 6, unsigned maxexp = 3, size_t nv = ref::NV) {
	ref::Poly p;
	do { p = gen_poly(r, maxterms, maxexp, nv); } while (p.zero());
	return p;
}
}
