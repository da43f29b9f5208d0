// C10: substitution, evaluation, differentiation, representation changes, variable information.
#include <polyutil.h>
#include <upoly.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Representation.h>
#include <carl/core/polynomialfunctions/Complexity.h>
#include <carl/core/polynomialfunctions/Chebyshev.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/core/MultivariateHorner.h>
using pu::V; using ur::L;
static ref::Poly simsubst(const ref::Poly& p, const std::map<size_t, ref::Poly>& s) {
	ref::Poly r;
	for (auto& [m, c] : p.t) { ref::Poly t(c); for (size_t i = 0; i < ref::NV; ++i) if (m[i]) { auto it = s.find(i); if (it == s.end()) { ref::Mono x = ref::mone(); x[i] = m[i]; t = t * ref::Poly(1, x); } else t = t * ref::ppow(it->second, m[i]); } r = r + t; }
	return r;
}
static std::string sstr(const std::map<size_t, ref::Poly>& s) { std::ostringstream o; for (auto& [v, p] : s) o << " v" << v << " -> " << p.str() << ";"; return o.str(); }
static void subst_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4);
	// a sixth of the inputs are sparse with high powers and wide gaps between them
	bool wide = r.chance(1, 6); if (wide) nv = 1 + r.below(2);
	ref::Poly a = wide ? pu::gen_poly(r, 4, 14, nv) : pu::gen_poly(r, 6, 4, nv);
	std::map<size_t, ref::Poly> s; std::map<size_t, Q> n; std::map<carl::Variable, MP> ms; std::map<carl::Variable, Q> mn; std::map<carl::Variable, TQ> mt; std::map<size_t, ref::Poly> st, sn;
	size_t k = r.below(nv + 1);
	for (size_t i = 0; i < k; ++i) {
		size_t v = r.below(std::min<size_t>(nv + 1, ref::NV));
		ref::Poly val = r.chance(1, 6) ? ref::Poly() : pu::gen_poly(r, wide ? 2 : 3, wide ? 1 : 2, nv);
		if (r.chance(1, 8)) val = ref::Poly::var(r.below(nv));
		s[v] = val; Q q = r.chance(1, 5) ? Q(0) : r.chance(1, 5) ? Q(1) : vf::gen_q(r, 5, 3); n[v] = q; sn[v] = ref::Poly(q);
		ref::Poly t = r.chance(1, 8) ? ref::Poly() : ref::Poly(pu::gen_c(r), pu::gen_mono(r, 2, nv)); st[v] = t;
	}
	for (auto& [v, p] : s) ms[V()[v]] = pu::build(p, r);
	for (auto& [v, q] : n) mn[V()[v]] = q;
	for (auto& [v, t] : st) mt[V()[v]] = t.zero() ? TQ() : TQ(t.t.begin()->second, pu::mono(t.t.begin()->first));
	std::string d = a.str() + " [" + sstr(s) + "]"; vf::note(d); if (!a.constant() && !s.empty()) vf::observe(d); vf::op("substitute");
	MP p = pu::build(a, r);
	CK(carl::substitute(p, ms), simsubst(a, s), "substitute-map", d);
	CK(carl::substitute(p, mn), simsubst(a, sn), "substitute-numbers", a.str() << " [" << sstr(sn) << "]");
	CK(carl::substitute(p, mt), simsubst(a, st), "substitute-terms", a.str() << " [" << sstr(st) << "]");
	CK(p, a, "substitute-input", d);
	for (auto& [v, val] : s) {
		std::map<size_t, ref::Poly> one{{v, val}}; ref::Poly want = simsubst(a, one); std::string e = a.str() + " [" + sstr(one) + "]";
		CK(carl::substitute(p, V()[v], ms[V()[v]]), want, "substitute-one", e);
		MP q = p; carl::substitute_inplace(q, V()[v], ms[V()[v]]); CK(q, want, "substitute_inplace", e);
		if (val.zero()) vf::op("substitute-zero");
		// self application: value is the polynomial itself
		if (r.chance(1, 10) && a.tdeg() <= 3) { MP z = p; carl::substitute_inplace(z, V()[v], MP(p)); CK(z, simsubst(a, {{v, a}}), "substitute-self", e); }
		// univariate representation
		size_t mv = r.below(nv); UMP u = carl::to_univariate_polynomial(p, V()[mv]); const MP& mval = ms[V()[v]];
		if (!val.has(mv)) {
			UMP w = carl::substitute(u, V()[v], mval); VF_CHECK(pu::rpoly(w) == want, v == mv ? "ump.substitute-main" : "ump.substitute", e << " main v" << mv << " gave " << w << " expected " << want.str());
			VF_CHECK(w.mainVar() == V()[mv] && (w.coefficients().empty() || !carl::isZero(w.lcoeff())), "ump.substitute:canonical", e);
			UMP x = u; carl::substitute_inplace(x, V()[v], mval); VF_CHECK(pu::rpoly(x) == want, v == mv ? "ump.substitute_inplace-main" : "ump.substitute_inplace", e << " main v" << mv << " gave " << x << " expected " << want.str());
		} else if (v != mv) {
			if (val.has(v)) { UMP w = carl::substitute(u, V()[v], mval); VF_CHECK(pu::rpoly(w) == want, "ump.substitute-cyclic", e << " main v" << mv << " gave " << w); }
		}
	}
}
static void eval_case(vf::Rng& r) {
	size_t nv = 1 + r.below(ref::NV); ref::Poly a = pu::gen_poly(r, 7, 4, nv);
	std::vector<Q> pt(ref::NV); std::map<carl::Variable, Q> m;
	for (size_t i = 0; i < ref::NV; ++i) { pt[i] = r.chance(1, 5) ? Q(0) : r.chance(1, 6) ? Q(-1) : vf::gen_q(r, 9, 5); if (a.has(i) || r.coin()) m[V()[i]] = pt[i]; }
	std::string d = a.str(); vf::note(d); if (!a.constant()) vf::observe(d + vf::str(m)); vf::op("evaluate");
	MP p = pu::build(a, r);
	VF_CHECK(carl::evaluate(p, m) == a.eval(pt), "evaluate-mp", d << " at " << m << " gave " << carl::evaluate(p, m));
	for (auto& t : p) { ref::Poly rt = pu::rpoly(t); VF_CHECK(carl::evaluate(t, m) == rt.eval(pt), "evaluate-term", rt.str()); if (t.monomial()) { ref::Poly rm(1, pu::rmono(t.monomial())); VF_CHECK(carl::evaluate(*t.monomial(), m) == rm.eval(pt), "evaluate-monomial", rm.str()); } }
	L c; size_t n = r.below(8); for (size_t i = 0; i < n; ++i) c.push_back(vf::gen_q(r, 5, 3)); c = ur::strip(c); UP u(V()[0], c);
	Q x = r.chance(1, 4) ? Q(0) : vf::gen_q(r, 7, 4);
	VF_CHECK(carl::evaluate(u, x) == ur::eval(c, x), "evaluate-up", ur::str(c) << " at " << x);
	if (!c.empty() && r.coin()) { L f = ur::mul(c, L{Q(-x), Q(1)}); VF_CHECK(carl::is_root_of(UP(V()[0], f), x), "is_root_of", ur::str(f) << " at " << x); }
	VF_CHECK(carl::is_root_of(u, x) == (ur::eval(c, x) == 0), "is_root_of", ur::str(c) << " at " << x);
	VF_CHECK(u.sgn(x) == carl::sgn(ur::eval(c, x)), "up.sgn", ur::str(c) << " at " << x);
	// synthetic division leaves the quotient and returns the value
	if (c.size() > 1) { UP q = u; Q rest = q.syntheticDivision(x); VF_CHECK(rest == ur::eval(c, x), "syntheticDivision-value", ur::str(c) << " at " << x << " gave " << rest); L quo = q.coefficients(); if (rest == 0) VF_CHECK(ur::mul(ur::strip(quo), L{Q(-x), Q(1)}) == c, "syntheticDivision-quotient", ur::str(c) << " at " << x << " gave " << q); }
}
static void deriv_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4); ref::Poly a = pu::gen_poly(r, 6, 6, nv); size_t v = r.below(nv); unsigned n = static_cast<unsigned>(r.below(5));
	ref::Poly want = a; for (unsigned i = 0; i < n; ++i) want = ref::deriv(want, v);
	std::string d = "d^" + std::to_string(n) + "/dv" + std::to_string(v) + " " + a.str(); vf::note(d); if (a.has(v) && n) vf::observe(d); vf::op("derivative");
	MP p = pu::build(a, r); CK(carl::derivative(p, V()[v], n), want, "derivative-mp", d);
	if (n == 1) CK(carl::derivative(p, V()[v]), want, "derivative-mp-default", d);
	for (auto& t : p) { ref::Poly w = pu::rpoly(t); for (unsigned i = 0; i < n; ++i) w = ref::deriv(w, v); TQ g = carl::derivative(t, V()[v], n); VF_CHECK(pu::rpoly(g) == w, "derivative-term", d << " gave " << g); if (t.monomial()) { auto pm = carl::derivative(t.monomial(), V()[v], n); ref::Poly w2(1, pu::rmono(t.monomial())); for (unsigned i = 0; i < n; ++i) w2 = ref::deriv(w2, v); VF_CHECK(ref::Poly(Q(static_cast<unsigned long>(pm.first)), pu::rmono(pm.second)) == w2, "derivative-monomial", d); } }
	size_t mv = r.below(nv); UMP u = carl::to_univariate_polynomial(p, V()[mv]); UMP du = carl::derivative(u, V()[v], n);
	VF_CHECK(pu::rpoly(du) == want && (du.coefficients().empty() || !carl::isZero(du.lcoeff())), "derivative-ump", d << " main v" << mv << " gave " << du);
	if (mv == v) { UMP d2 = carl::derivative(u, n); VF_CHECK(pu::rpoly(d2) == want && (d2.coefficients().empty() || !carl::isZero(d2.lcoeff())), "derivative-ump-main", d << " gave " << d2); }
	L c; size_t k = r.below(9); for (size_t i = 0; i < k; ++i) c.push_back(vf::gen_q(r, 5, 3)); c = ur::strip(c); L w = c; for (unsigned i = 0; i < n; ++i) w = ur::der(w);
	UP up(V()[v], c); VF_CHECK(carl::derivative(up, n).coefficients() == w, "derivative-up", ur::str(c) << " n=" << n); VF_CHECK(carl::derivative(up, V()[v], n).coefficients() == w, "derivative-up-var", ur::str(c) << " n=" << n);
	if (nv > 1) { auto o = V()[(v + 1) % nv]; L z = n == 0 ? c : L{}; VF_CHECK(carl::derivative(up, o, n).coefficients() == z, "derivative-up-other", ur::str(c) << " n=" << n << " gave " << carl::derivative(up, o, n)); }
}
static void repr_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4); ref::Poly a = pu::gen_poly(r, 7, 4, nv); size_t v = r.below(nv), w = r.below(nv);
	std::string d = a.str() + " main v" + std::to_string(v); vf::note(d); if (!a.constant()) vf::observe(d); vf::op("representation");
	MP p = pu::build(a, r); UMP u = carl::to_univariate_polynomial(p, V()[v]);
	bool ok = u.mainVar() == V()[v] && u.coefficients().size() == (a.zero() ? 0 : a.deg(v) + 1); 
	for (size_t i = 0; ok && i < u.coefficients().size(); ++i) ok = pu::rpoly(u.coefficients()[i]) == a.coeff_in(v, static_cast<unsigned>(i));
	VF_CHECK(ok, "to_univariate_polynomial", d << " gave " << u);
	CK(MP(u), a, "from-univariate", d);
	UMP s = carl::switch_main_variable(u, V()[w]); VF_CHECK(pu::rpoly(s) == a && s.mainVar() == V()[w], "switch_main_variable", d << " to v" << w << " gave " << s);
	std::set<carl::Variable> vars; for (size_t i = 0; i < ref::NV; ++i) if (a.has(i)) vars.insert(V()[i]);
	VF_CHECK(carl::variables(p).as_set() == vars, "variables-mp", d << " gave " << carl::variables(p));
	{ auto x = carl::variables(u).as_set(); auto y = vars; y.insert(V()[v]); VF_CHECK(x == y || x == vars, "variables-ump", d << " gave " << carl::variables(u)); }
	if (vars.size() == 1) { UP up = carl::to_univariate_polynomial(p); VF_CHECK(pu::rpoly(up) == a && up.mainVar() == *vars.begin(), "to_univariate_polynomial-single", d << " gave " << up); VF_CHECK(pu::rpoly(MP(up)) == a, "from-univariate-single", d); UP q = carl::replace_main_variable(up, V()[w]); VF_CHECK(q.mainVar() == V()[w] && q.coefficients() == up.coefficients(), "replace_main_variable", d); }
	VF_CHECK(p.isUnivariate() == (vars.size() <= 1), "isUnivariate", d);
	VF_CHECK(p.isLinear() == (a.tdeg() <= 1) , "isLinear", d);
	if (!a.zero()) { VF_CHECK(carl::total_degree(p) == a.tdeg() && p.totalDegree() == a.tdeg(), "total_degree", d); VF_CHECK(carl::total_degree(u) == a.tdeg(), "total_degree-ump", d); }
	VF_CHECK(carl::is_constant(p) == a.constant() && p.isConstant() == a.constant() && p.isNumber() == a.constant(), "is_constant", d);
	VF_CHECK(u.isNumber() == a.constant() && carl::is_constant(u) == (a.deg(v) == 0), "is_constant-ump", d);
	VF_CHECK(carl::is_zero(p) == a.zero() && carl::is_one(p) == (a == ref::Poly(1)), "is_zero-one", d);
	VF_CHECK(p.constantPart() == a.constpart() && u.constantPart() == a.constpart(), "constantPart", d);
	VF_CHECK(p.hasConstantTerm() == (a.constpart() != 0), "hasConstantTerm", d);
	{ size_t e = 0; for (auto& [m, c] : a.t) { e += ref::mdeg(m) + 1; (void)c; } VF_CHECK(carl::complexity(p) == e, "complexity", d << " gave " << carl::complexity(p)); }
	{ bool iv = true; for (auto& [m, c] : a.t) { if (c.get_den() != 1) iv = false; for (size_t i = 0; i < ref::NV; ++i) if (m[i] && V()[i].type() != carl::VariableType::VT_INT) iv = false; } VF_CHECK(p.integerValued() == iv, "integerValued", d); }
	for (size_t i = 0; i < nv; ++i) {
		VF_CHECK(p.has(V()[i]) == a.has(i), "has", d << " v" << i); VF_CHECK(p.degree(V()[i]) == a.deg(i), "degree", d << " v" << i);
		for (unsigned e = 0; e <= a.deg(i) + 1; ++e) CK(p.coeff(V()[i], e), a.coeff_in(i, e), "coeff", d << " v" << i << "^" << e);
		if (!a.zero()) CK(p.lcoeff(V()[i]), a.coeff_in(i, a.deg(i)), "lcoeff-var", d << " v" << i);
		size_t occ = 0, mx = 0, mn = 0; for (auto& [m, c] : a.t) if (m[i]) { ++occ; mx = std::max<size_t>(mx, m[i]); mn = mn == 0 ? m[i] : std::min<size_t>(mn, m[i]); }
		auto ft = p.getVarInfo<false>(V()[i]); VF_CHECK(ft.occurence() == occ && ft.maxDegree() == mx, "getVarInfo", d << " v" << i << " gave " << ft.occurence() << "," << ft.maxDegree()); VF_CHECK(ft.minDegree() == mn, "getVarInfo-minDegree", d << " v" << i << " gave " << ft.minDegree() << " expected " << mn);
		auto tr = p.getVarInfo<true>(V()[i]); VF_CHECK(tr.occurence() == occ && tr.maxDegree() == mx, "getVarInfo-coeff", d << " v" << i); VF_CHECK(tr.minDegree() == mn, "getVarInfo-coeff-minDegree", d << " v" << i << " gave " << tr.minDegree() << " expected " << mn);
		bool same = true; ref::Poly sum; for (auto& [e, c] : tr.coeffs()) { same = same && pu::rpoly(c) == a.coeff_in(i, static_cast<unsigned>(e)); ref::Mono m = ref::mone(); m[i] = static_cast<unsigned>(e); sum = sum + pu::rpoly(c) * ref::Poly(1, m); }
		VF_CHECK(same && sum == a, "getVarInfo-coeffs", d << " v" << i);
	}
	auto all = p.getVarInfo<true>(); std::set<carl::Variable> seen; 
	for (auto it = all.begin(); it != all.end(); ++it) {
		seen.insert(it->first); size_t i = pu::vi(it->first); size_t occ = 0, mx = 0, mn = 0; for (auto& [m, c] : a.t) if (m[i]) { ++occ; mx = std::max<size_t>(mx, m[i]); mn = mn == 0 ? m[i] : std::min<size_t>(mn, m[i]); }
		VF_CHECK(it->second.occurence() == occ && it->second.maxDegree() == mx && it->second.minDegree() == mn, "getVarInfo-all", d << " v" << i);
		bool same = true; for (auto& [e, c] : it->second.coeffs()) same = same && pu::rpoly(c) == a.coeff_in(i, static_cast<unsigned>(e)); VF_CHECK(same, "getVarInfo-all-coeffs", d << " v" << i);
	}
	VF_CHECK(seen == vars, "getVarInfo-all-variables", d);
	for (auto& t : p) if (t.monomial()) { ref::Mono m = pu::rmono(t.monomial()); for (auto& e : m) e = e ? 1 : 0; VF_CHECK(pu::rmono(carl::separable_part(*t.monomial())) == m, "separable_part", d); }
	MP sq; if (p.sqrt(sq)) { VF_CHECK(pu::rpoly(sq) * pu::rpoly(sq) == a, "mp.sqrt", d << " gave " << sq); }
}
template<typename H> static Q heval(const H& h, const std::map<carl::Variable, Q>& m) {
	Q ind = h.getIndependent() ? heval(*h.getIndependent(), m) : Q(h.getIndepConstant());
	if (h.getVariable() == carl::Variable::NO_VARIABLE) return ind;
	Q dep = h.getDependent() ? heval(*h.getDependent(), m) : Q(h.getDepConstant());
	return ref::qpow(m.at(h.getVariable()), h.getExponent()) * dep + ind;
}
struct S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_I; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
struct S2 : S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_Is; };
struct S3 : S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_II; };
struct S4 : S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_IIs; };
static void horner_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4); ref::Poly a = pu::gen_poly(r, 7, 5, nv); if (r.chance(1, 4)) { ref::Mono m = ref::mone(); m[r.below(nv)] = 2 + static_cast<unsigned>(r.below(3)); a = a * ref::Poly(1, m); }
	std::string d = a.str(); vf::note(d); if (!a.constant()) vf::observe(d); vf::op("horner");
	MP p = pu::build(a, r); carl::MultivariateHorner<MP, S1> h1(p); carl::MultivariateHorner<MP, S2> h2(p); carl::MultivariateHorner<MP, S3> h3(p); carl::MultivariateHorner<MP, S4> h4(p);
	for (int i = 0; i < 3; ++i) {
		std::vector<Q> pt; std::map<carl::Variable, Q> m; for (size_t j = 0; j < ref::NV; ++j) { pt.push_back(vf::gen_q(r, 6, 3)); m[V()[j]] = pt.back(); }
		Q want = a.eval(pt);
		VF_CHECK(heval(h1, m) == want, "horner-greedy1", d << " gave " << h1); VF_CHECK(heval(h2, m) == want, "horner-greedy1s", d << " gave " << h2);
		VF_CHECK(heval(h3, m) == want, "horner-greedy2", d << " gave " << h3); VF_CHECK(heval(h4, m) == want, "horner-greedy2s", d << " gave " << h4);
	}
}
static void misc_case(vf::Rng& r) {
	size_t n = r.below(12); vf::op("chebyshev"); L t0{1}, t1{0, 1}; for (size_t i = 0; i < n; ++i) { L t = ur::sub(ur::mul(L{0, 2}, t1), t0); t0 = t1; t1 = t; }
	carl::Chebyshev<Q> ch(V()[0]); VF_CHECK(ch(n).coefficients() == t0, "chebyshev", n << " gave " << ch(n));
	// S-polynomials of normalised polynomials
	size_t nv = 1 + r.below(4); ref::Poly a, b; do a = pu::gen_poly_nz(r, 5, 3, nv); while (a.constant()); do b = pu::gen_poly_nz(r, 5, 3, nv); while (b.constant());
	a = ref::scale(a, 1 / a.lcoeff()); b = ref::scale(b, 1 / b.lcoeff()); std::string d = "S(" + a.str() + " , " + b.str() + ")"; vf::note(d); vf::observe(d); vf::op("spolynomial");
	ref::Mono l = ref::mlcm(a.lmon(), b.lmon()); ref::Poly w = ref::Poly(1, ref::mquo(l, a.lmon())) * a - ref::Poly(1, ref::mquo(l, b.lmon())) * b;
	CK(carl::SPolynomial(pu::build(a, r), pu::build(b, r)), w, "SPolynomial", d);
}
int main(int argc, char** argv) {
	vf::add_group("subst", 15000, 500000, subst_case);
	vf::add_group("eval", 20000, 500000, eval_case);
	vf::add_group("deriv", 15000, 500000, deriv_case);
	vf::add_group("repr", 12000, 400000, repr_case);
	vf::add_group("horner", 6000, 200000, horner_case);
	vf::add_group("misc", 8000, 200000, misc_case);
	return vf::run(argc, argv);
}
