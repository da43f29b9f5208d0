// C31: factorised polynomials and rational functions against expanded fractions.
#include <polyutil.h>
#include <carl/core/polynomialfunctions/GCD.h>
#include <carl/core/polynomialfunctions/LCM.h>
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/substitution.h>
#include <carl-extpolys/evaluation.h>
#include <carl-extpolys/RationalFunction.h>
using pu::V;
using FP = carl::FactorizedPolynomial<MP>;
using CACHE = carl::Cache<carl::PolynomialFactorizationPair<MP>>;
static ref::Poly exp(const FP& f) { return pu::rpoly(carl::computePolynomial(f)); }
/// the coefficient is the content: what is cached is primitive with a positive leading coefficient
static bool primitive(const FP& f) {
	if (f.isConstant()) return true;
	if (f.coefficient() == 0) return false;
	ref::Poly p = pu::rpoly(f.polynomial()); Z g = 0; for (auto& [m, c] : p.t) { if (c.get_den() != 1) return false; g = ::gcd(g, Z(c.get_num())); }
	return g == 1;
}
#define FCK(got, want, key, what) do { FP g_ = (got); ref::Poly w_ = (want); ref::Poly e_ = exp(g_); VF_CHECK(e_ == w_, key, what << " gave " << e_.str() << " expected " << w_.str()); VF_CHECK(g_.isConstant() == w_.constant() && g_.isZero() == w_.zero() && primitive(g_), std::string(key) + ":form", what << " gave " << g_); } while (0)
static void fp_case(vf::Rng& r) {
	auto cache = std::make_shared<CACHE>();
	size_t nv = 1 + r.below(3);
	std::vector<FP> f; std::vector<ref::Poly> m;
	size_t n = 2 + r.below(3);
	for (size_t i = 0; i < n; ++i) { m.push_back(pu::gen_poly(r, 3, 2, nv)); f.emplace_back(pu::build(m.back(), r), cache); }
	std::string log = "[";
	for (auto& p : m) log += p.str() + " ; ";
	log += "]";
	size_t steps = 1 + r.below(10);
	for (size_t s = 0; s < steps; ++s) {
		size_t a = r.below(n), b = r.below(n), c = r.below(n); Q q = r.chance(1, 6) ? Q(0) : vf::gen_q(r, 6, 4);
		unsigned o = static_cast<unsigned>(r.below(12));
		auto st = [&](const char* k) { log += " " + std::to_string(c) + "=" + k + "(" + std::to_string(a) + "," + std::to_string(b) + "," + q.get_str() + ")"; vf::note(log); vf::op(std::string("fp.") + k); };
		bool small = m[a].tdeg() + m[b].tdeg() <= 8 && m[a].t.size() * m[b].t.size() <= 40;
		FP res; ref::Poly want; std::string key;
		switch (o) {
		case 0: st("add"); res = f[a] + f[b]; want = m[a] + m[b]; key = "fp.add"; break;
		case 1: st("sub"); res = f[a] - f[b]; want = m[a] - m[b]; key = "fp.sub"; break;
		case 2: case 3: case 4: if (!small) continue; st("mul"); res = f[a] * f[b]; want = m[a] * m[b]; key = "fp.mul"; break;
		case 5: st("addc"); res = f[a] + q; want = m[a] + ref::Poly(q); key = "fp.add-number"; break;
		case 6: st("subc"); res = f[a] - q; want = m[a] - ref::Poly(q); key = "fp.sub-number"; break;
		case 7: st("mulc"); res = f[a] * q; want = ref::scale(m[a], q); key = "fp.mul-number"; break;
		case 8: if (q == 0) continue; st("divc"); res = f[a]; res /= q; want = ref::scale(m[a], 1 / q); key = "fp.div-number"; break;
		case 9: st("neg"); res = -f[a]; want = -m[a]; key = "fp.neg"; break;
		case 10: { unsigned e = static_cast<unsigned>(r.below(4)); if (m[a].tdeg() * e > 8 || m[a].t.size() > 4) continue; st("pow"); res = f[a].pow(e); want = e ? ref::ppow(m[a], e) : ref::Poly(1); key = "fp.pow"; break; }
		default: { size_t v = r.below(nv); st("derivative"); res = f[a].derivative(V()[v]); want = ref::deriv(m[a], v); key = "fp.derivative"; break; }
		}
		FCK(res, want, key, log);
		// in place forms
		{ FP z = f[a]; switch (o) { case 0: z += f[b]; break; case 1: z -= f[b]; break; case 2: case 3: case 4: z *= f[b]; break; case 5: z += q; break; case 6: z -= q; break; case 7: z *= q; break; default: z = res; } FCK(z, want, key + ":inplace", log); }
		f[c] = res; m[c] = want;
		for (size_t i = 0; i < n; ++i) VF_CHECK(exp(f[i]) == m[i], "fp.others", log << " operand " << i << " became " << exp(f[i]).str());
		size_t i = r.below(n), j = r.below(n);
		VF_CHECK((f[i] == f[j]) == (m[i] == m[j]), "fp.equal", log << " operands " << i << "," << j); VF_CHECK((f[i] != f[j]) == (m[i] != m[j]), "fp.unequal", log << " operands " << i << "," << j);
		VF_CHECK(!(f[i] < f[j] && f[j] < f[i]) && ((m[i] == m[j]) ? !(f[i] < f[j]) : (f[i] < f[j] || f[j] < f[i])), "fp.less", log << " operands " << i << "," << j);
		VF_CHECK(f[i].isOne() == (m[i] == ref::Poly(1)), "fp.isOne", log);
		// observers
		const FP& x = f[i]; const ref::Poly& y = m[i];
		VF_CHECK(x.constantPart() == y.constpart(), "fp.constantPart", log << " operand " << i << " gave " << x.constantPart());
		VF_CHECK(pu::rpoly(static_cast<MP>(x)) == y && pu::rpoly(x.polynomialWithCoefficient()) == y, "fp.expand", log);
		if (!y.zero()) { VF_CHECK(x.totalDegree() == y.tdeg(), "fp.totalDegree", log); VF_CHECK(x.lcoeff() == y.lcoeff(), "fp.lcoeff", log); VF_CHECK(x.hasConstantTerm() == (y.constpart() != 0), "fp.hasConstantTerm", log); }
		std::set<carl::Variable> vs; for (size_t k = 0; k < ref::NV; ++k) { if (y.has(k)) vs.insert(V()[k]); VF_CHECK(x.has(V()[k]) == y.has(k), "fp.has", log << " operand " << i); }
		VF_CHECK(x.isUnivariate() == (vs.size() <= 1), "fp.isUnivariate", log << " operand " << i);
		{ std::ostringstream os; os << x; VF_CHECK(!os.str().empty() && os.str() == x.toString(), "fp.print", log << " operand " << i); }
		if (!x.isConstant()) { VF_CHECK(x.coprimeFactor() * x.coefficient() == 1, "fp.coprimeFactor", log); FCK(x.coprimeCoefficients(), ref::scale(y, 1 / x.coefficient()), "fp.coprimeCoefficients", log); }
		if (!y.constant()) { Q w = static_cast<MP>(x).coprimeFactorWithoutConstant(), g = x.coprimeFactorWithoutConstant(); VF_CHECK(g == w, "fp.coprimeFactorWithoutConstant", log << " operand " << i << " gave " << g << " expected " << w); }
		{ std::vector<FP> ops; ref::Poly w = m[i]; ops.push_back(f[i]); ops.push_back(f[j]); auto co = r.coin() ? FP::ADD : FP::SUB; w = co == FP::ADD ? m[i] + m[j] : m[i] - m[j]; FCK(FP(std::make_pair(co, ops)), w, "fp.ctor", log); if (m[i].tdeg() + m[j].tdeg() < 8) FCK(FP(std::make_pair(FP::MUL, ops)), m[i] * m[j], "fp.ctor-mul", log); }
		VF_CHECK(x.isLinear() == (y.tdeg() <= 1), "fp.isLinear", log << " operand " << i);
		if (!x.isConstant()) {
			// the factors multiply to the polynomial
			ref::Poly pr(1); for (auto& [g, e] : x.factorization()) { ref::Poly ge = exp(g); VF_CHECK(!ge.constant() || x.factorization().size() == 1, "fp.constant-factor", log); pr = pr * ref::ppow(ge, static_cast<unsigned>(e)); }
			VF_CHECK(ref::scale(pr, x.coefficient()) == y, "fp.factorization", log << " operand " << i << " factors give " << pr.str());
		}
		std::vector<Q> pt(ref::NV); std::map<carl::Variable, Q> em; for (size_t k = 0; k < ref::NV; ++k) em[V()[k]] = pt[k] = r.chance(1, 4) ? Q(0) : vf::gen_q(r, 4, 2);
		vf::op("fp.evaluate"); VF_CHECK(carl::evaluate(x, em) == y.eval(pt), "fp.evaluate", log << " operand " << i << " gave " << carl::evaluate(x, em));
		std::map<carl::Variable, Q> sub; ref::Poly sw = y; for (size_t k = 0; k < nv; ++k) if (r.coin()) { sub[V()[k]] = pt[k]; ref::Poly t; for (auto& [mm, cc] : sw.t) { ref::Mono z = mm; Q w = cc * ref::qpow(pt[k], z[k]); z[k] = 0; t.add(z, w); } sw = t; }
		vf::op("fp.substitute"); FCK(carl::substitute(x, sub), sw, "fp.substitute", log + " operand " + std::to_string(i));
	}
	vf::observe(log);
#ifdef USE_COCOA
	// gcd, lcm, quotient on the final operands
	for (size_t k = 0; k < 3; ++k) {
		size_t i = r.below(n), j = r.below(n); if (m[i].zero() || m[j].zero() || m[i].tdeg() > 5 || m[j].tdeg() > 5) continue;
		vf::op("fp.gcd"); std::string d = log + " gcd " + std::to_string(i) + "," + std::to_string(j); vf::note(d);
		FP g = carl::gcd(f[i], f[j]); ref::Poly ge = exp(g), q1, r1, q2, r2;
		VF_CHECK(!ge.zero(), "fp.gcd-zero", d); ref::divmod(m[i], ge, q1, r1); ref::divmod(m[j], ge, q2, r2);
		VF_CHECK(r1.zero() && r2.zero(), "fp.gcd-divides", d << " gave " << ge.str());
		MP want = carl::gcd(pu::build(m[i], r), pu::build(m[j], r)); ref::Poly we = pu::rpoly(want), q3, r3; ref::divmod(ge, we, q3, r3);
		VF_CHECK(r3.zero(), "fp.gcd-greatest", d << " gave " << ge.str() << " but " << we.str() << " divides both");
		for (size_t t = 0; t < n; ++t) VF_CHECK(exp(f[t]) == m[t], "fp.gcd-operands", d << " operand " << t << " became " << exp(f[t]).str());
		auto ld = carl::lazyDiv(f[i], f[j]); VF_CHECK(!exp(ld.second).zero() && exp(ld.first) * m[j] == exp(ld.second) * m[i], "fp.lazyDiv", d << " gave " << ld.first << " / " << ld.second);
		FP cd = carl::commonDivisor(f[i], f[j]); ref::divmod(m[i], exp(cd), q1, r1); ref::divmod(m[j], exp(cd), q2, r2); VF_CHECK(r1.zero() && r2.zero(), "fp.commonDivisor", d);
		FP cm = carl::commonMultiple(f[i], f[j]); ref::divmod(exp(cm), m[i], q1, r1); ref::divmod(exp(cm), m[j], q2, r2); VF_CHECK(r1.zero() && r2.zero() && !cm.isZero(), "fp.commonMultiple", d);
		FP l = carl::lcm(f[i], f[j]); ref::divmod(exp(l), m[i], q1, r1); ref::divmod(exp(l), m[j], q2, r2); VF_CHECK(r1.zero() && r2.zero() && !l.isZero() && exp(l).tdeg() + ge.tdeg() == m[i].tdeg() + m[j].tdeg(), "fp.lcm", d << " gave " << exp(l).str());
		FP pr = f[i] * f[j]; FP qu = pr.quotient(f[j]); VF_CHECK(exp(qu) == m[i], "fp.quotient", d << " gave " << exp(qu).str());
	}
#endif
}
#ifdef USE_COCOA
using RF = carl::RationalFunction<FP, true>;
using RN = carl::RationalFunction<FP, false>;
struct Frac { ref::Poly n, d; };
template<typename R> static std::string rstr(const R& x) { std::ostringstream o; o << x; return o.str(); }
template<typename R> static bool same(const R& x, const Frac& f) {
	ref::Poly n = exp(x.nominator()), d = exp(x.denominator());
	return !d.zero() && n * f.d == d * f.n;
}
template<typename R> static void rf_case(vf::Rng& r, const std::string& tag) {
	auto cache = std::make_shared<CACHE>(); size_t nv = 1 + r.below(2), n = 3;
	std::vector<R> f; std::vector<Frac> m; std::string log = tag;
	auto mk = [&](const ref::Poly& p) { return FP(pu::build(p, r), cache); };
	auto gp = [&]() { return pu::gen_poly(r, 2, 1 + static_cast<unsigned>(r.below(2)), nv); };
	for (size_t i = 0; i < n; ++i) {
		Frac x; x.n = gp(); do { x.d = gp(); } while (x.d.zero());
		log += " [" + x.n.str() + " / " + x.d.str() + "]"; vf::note(log);
		if (r.chance(1, 4)) { x.d = ref::Poly(1); f.emplace_back(mk(x.n)); } else if (r.chance(1, 5)) { Q q = vf::gen_q(r, 5, 3); x.n = ref::Poly(q); x.d = ref::Poly(1); f.emplace_back(q); } else f.emplace_back(mk(x.n), mk(x.d));
		VF_CHECK(same(f.back(), x), tag + ".ctor", log << " gave " << rstr(f.back()));
		m.push_back(x);
	}
	size_t steps = 1 + r.below(5);
	for (size_t s = 0; s < steps; ++s) {
		size_t a = r.below(n), b = r.below(n), c = r.below(n); Q q = r.chance(1, 6) ? Q(0) : vf::gen_q(r, 5, 3); ref::Poly p = gp(); Frac w; std::string k; R res = f[a], in = f[a];
		if (m[a].n.tdeg() + m[a].d.tdeg() + m[b].n.tdeg() + m[b].d.tdeg() > 8) continue;
		log += " " + std::to_string(c) + "="; unsigned o = static_cast<unsigned>(r.below(13));
		auto st = [&](const char* x) { k = tag + "." + x; log += std::string(x) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + q.get_str() + "," + p.str() + ")"; vf::note(log); vf::op(k); };
		const Frac &A = m[a], &B = m[b];
		switch (o) {
		case 0: st("add"); w = {A.n * B.d + B.n * A.d, A.d * B.d}; res = f[a] + f[b]; in += f[b]; break;
		case 1: st("sub"); w = {A.n * B.d - B.n * A.d, A.d * B.d}; res = f[a] - f[b]; in -= f[b]; break;
		case 2: st("mul"); w = {A.n * B.n, A.d * B.d}; res = f[a] * f[b]; in *= f[b]; break;
		case 3: if (B.n.zero()) continue; st("div"); w = {A.n * B.d, A.d * B.n}; res = f[a] / f[b]; in /= f[b]; break;
		case 4: st("addp"); w = {A.n + p * A.d, A.d}; res = f[a] + mk(p); in += mk(p); break;
		case 5: st("subp"); w = {A.n - p * A.d, A.d}; res = f[a] - mk(p); in -= mk(p); break;
		case 6: st("mulp"); w = {A.n * p, A.d}; res = f[a] * mk(p); in *= mk(p); break;
		case 7: if (p.zero()) continue; st("divp"); w = {A.n, A.d * p}; res = f[a] / mk(p); in /= mk(p); break;
		case 8: st("addc"); w = {A.n + ref::scale(A.d, q), A.d}; res = f[a] + q; in += q; break;
		case 9: st("subc"); w = {A.n - ref::scale(A.d, q), A.d}; res = f[a] - q; in -= q; break;
		case 10: st("mulc"); w = {ref::scale(A.n, q), A.d}; res = f[a] * q; in *= q; break;
		case 11: if (q == 0) continue; st("divc"); w = {ref::scale(A.n, 1 / q), A.d}; res = f[a] / q; in /= q; break;
		default: if (A.n.zero()) { st("neg"); w = {-A.n, A.d}; res = -f[a]; in = -in; } else { st("inverse"); w = {A.d, A.n}; res = f[a].inverse(); in = in.inverse(); } break;
		}
		VF_CHECK(same(res, w), k, log << " gave " << rstr(res)); VF_CHECK(same(in, w), k + ":inplace", log << " gave " << rstr(in));
		VF_CHECK(res.isZero() == w.n.zero(), tag + ".isZero", log << " gave " << rstr(res));
		VF_CHECK(res == in, tag + ".equal-self", log << " gave " << rstr(res) << " and " << rstr(in)); VF_CHECK(!(res != in), tag + ".unequal-self", log);
		f[c] = res; m[c] = w;
		for (size_t i = 0; i < n; ++i) { VF_CHECK(same(f[i], m[i]), tag + ".others", log << " operand " << i << " became " << rstr(f[i])); if (f[i] == res) VF_CHECK(m[i].n * w.d == w.n * m[i].d, tag + ".equal", log << " operands " << rstr(f[i]) << " and " << rstr(res)); }
		if (r.coin()) { R si = res; if (!si.isConstant() && !si.isSimplified()) { si.simplify(); VF_CHECK(same(si, w), tag + ".simplify", log << " gave " << rstr(si)); } }
		std::vector<Q> pt(ref::NV); std::map<carl::Variable, Q> em; for (size_t i = 0; i < ref::NV; ++i) em[V()[i]] = pt[i] = vf::gen_q(r, 4, 3);
		if (!res.isConstant() && exp(res.denominator()).eval(pt) != 0 && w.d.eval(pt) != 0) { vf::op(tag + ".evaluate"); Q e = res.evaluate(em); VF_CHECK(e == w.n.eval(pt) / w.d.eval(pt), tag + ".evaluate", log << " gave " << e); R su = res.substitute(em); VF_CHECK(su.isConstant() && su.nominatorAsNumber() / su.denominatorAsNumber() == e, tag + ".substitute", log << " gave " << rstr(su)); }
		{ R x = f[a], y = f[b]; VF_CHECK(!(x < y && y < x), tag + ".less", log); }
	}
	vf::observe(log);
}
#endif
int main(int argc, char** argv) {
	V();
	vf::add_group("fp", 4000, 100000, fp_case);
#ifdef USE_COCOA
	vf::add_group("rational", 4000, 100000, [](vf::Rng& r) { rf_case<RF>(r, "rf"); });
	vf::add_group("rational-lazy", 4000, 100000, [](vf::Rng& r) { rf_case<RN>(r, "rn"); });
#endif
	return vf::run(argc, argv);
}
