// C30: models. Formulas, constraints, polynomials and uninterpreted atoms are evaluated under total and
// partial models, including entries that are substitutions, and compared with direct evaluation.
#include <fmutil.h>
#include <carl-model/Model.h>
#include <carl-model/Assignment.h>
#include <carl-model/evaluation/ModelEvaluation.h>
#include <carl-model/uninterpreted/SortValueManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
using namespace fm;
using M = carl::Model<Q, MP>;
using MV = carl::ModelValue<Q, MP>;
using RAN = carl::RealAlgebraicNumber<Q>;
namespace cm = carl::model;
static carl::SortValue sv(int i) {
	static std::vector<carl::SortValue> v = [] { std::vector<carl::SortValue> r; r.push_back(carl::defaultSortValue(usort())); for (int k = 0; k < 3; ++k) r.push_back(carl::newSortValue(usort())); return r; }();
	return v[static_cast<size_t>(i)];
}
static bool isint(size_t k) { return V()[k].type() == carl::VariableType::VT_INT; }
static MV psub(const ref::Poly& p, vf::Rng& r) { return carl::createSubstitution<Q, MP, carl::ModelPolynomialSubstitution<Q, MP>>(pu::build(p, r)); }
/// What the model holds: a number per assigned variable, or a polynomial in later variables.
struct World {
	Env e; M m; std::string log;
	std::vector<char> a, b, u, w; std::vector<char> issub; std::vector<ref::Poly> sub;
	World(vf::Rng& r) : e(gen_env(r)), a(ref::NV), b(NB), u(NU), w(NW), issub(ref::NV), sub(ref::NV) {}
	/// values of substituted variables follow from the others
	void settle() { for (size_t k = ref::NV; k-- > 0;) if (issub[k]) e.a[k] = sub[k].eval(e.a); }
	bool total() const { for (auto* v : {&a, &b, &u, &w}) for (char c : *v) if (!c) return false; return true; }
	/// assigned and, through substitutions, only dependent on assigned variables
	bool fixed(size_t k) const { if (!a[k]) return false; if (!issub[k]) return true; for (size_t j = 0; j < ref::NV; ++j) if (sub[k].has(j) && !fixed(j)) return false; return true; }
};
template<typename K, typename T> static void put(World& x, const K& k, const T& v, bool present, vf::Rng& r) {
	if (present) { if (r.coin()) x.m.assign(k, v); else { x.m.erase(k); x.m.emplace(k, v); } return; }
	switch (r.below(4)) {
	case 0: x.m.assign(k, v); break;
	case 1: x.m.emplace(k, v); break;
	case 2: x.m.insert(std::make_pair(carl::ModelVariable(k), MV(v))); break;
	default: { M o; o.emplace(k, v); x.m.update(o, r.coin()); }
	}
}
static void set_arith(World& x, size_t k, vf::Rng& r) {
	std::ostringstream o; bool had = x.a[k];
	if (!isint(k) && k + 1 < ref::NV && r.chance(1, 3)) {
		ref::Poly p; size_t n = 1 + r.below(2); for (size_t i = 0; i < n; ++i) p = p + ref::scale(ref::Poly::var(k + 1 + r.below(ref::NV - k - 1)), Q(r.range(-2, 2))); p = p + ref::Poly(Q(r.range(-2, 2)));
		x.issub[k] = 1; x.sub[k] = p; o << " " << V()[k] << ":=" << p.str(); x.log += o.str(); vf::op("model.substitution");
		put(x, V()[k], psub(p, r), had, r);
	} else {
		x.issub[k] = 0; x.e.a[k] = isint(k) || r.coin() ? Q(r.range(-3, 3)) : vf::gen_q(r, 5, 3);
		o << " " << V()[k] << ":=" << x.e.a[k]; x.log += o.str(); vf::op("model.number");
		if (r.chance(1, 5)) put(x, V()[k], MV(RAN(x.e.a[k])), had, r); else put(x, V()[k], MV(x.e.a[k]), had, r);
	}
	x.a[k] = 1;
}
static void set_other(World& x, unsigned what, size_t k, vf::Rng& r) {
	std::ostringstream o;
	switch (what) {
	case 0: { bool v = r.coin(); x.e.b[B()[k]] = v; o << " p" << k << ":=" << v; x.log += o.str(); put(x, B()[k], MV(v), x.b[k], r); x.b[k] = 1; break; }
	case 1: { int v = static_cast<int>(r.below(4)); x.e.u[k] = v; o << " u" << k << ":=" << v; x.log += o.str(); put(x, U()[k], MV(sv(v)), x.u[k], r); x.u[k] = 1; break; }
	default: { unsigned v = static_cast<unsigned>(r.below(1 << BW)); x.e.w[k] = v; o << " w" << k << ":=" << v; x.log += o.str(); put(x, W()[k], MV(carl::BVValue(BW, v)), x.w[k], r); x.w[k] = 1; }
	}
}
static void check_formula(World& x, vf::Rng& r) {
	Opt o; Gen g(r, o); Ref n = g.tree(static_cast<unsigned>(1 + r.below(3))); F f = build(n, r);
	std::string d = x.log + " in " + str(n); vf::note(d); vf::observe(d);
	bool want = eval(n, x.e);
	vf::op("model.substitute-formula"); F s = cm::substitute(f, x.m);
	VF_CHECK(val(s, x.e) == want, "formula.substitute", d << " gave " << s << " under " << estr(x.e));
	Env other = gen_env(r); // unassigned variables may take any value
	{ Env g2 = x.e; for (size_t k = 0; k < ref::NV; ++k) if (!x.a[k]) g2.a[k] = other.a[k]; for (size_t k = ref::NV; k-- > 0;) if (x.issub[k]) g2.a[k] = x.sub[k].eval(g2.a);
	  for (size_t k = 0; k < NB; ++k) if (!x.b[k]) g2.b[B()[k]] = other.b[B()[k]]; for (size_t k = 0; k < NU; ++k) if (!x.u[k]) g2.u[k] = other.u[k]; for (size_t k = 0; k < NW; ++k) if (!x.w[k]) g2.w[k] = other.w[k];
	  VF_CHECK(val(s, g2) == eval(n, g2), "formula.substitute", d << " gave " << s << " under " << estr(g2)); }
	walk(s, [&](const F& y) {
		if (y.getType() == FT::BOOL) for (size_t k = 0; k < NB; ++k) VF_CHECK(!(x.b[k] && y.boolean() == B()[k]), "formula.left-over", d << " gave " << s);
		if (y.getType() == FT::CONSTRAINT) for (size_t k = 0; k < ref::NV; ++k) VF_CHECK(!(x.a[k] && y.constraint().hasVariable(V()[k])), "formula.left-over", d << " gave " << s);
	});
	vf::op("model.satisfiedBy"); unsigned sat = cm::satisfiedBy(f, x.m);
	VF_CHECK(sat == (s.isTrue() ? 1u : s.isFalse() ? 0u : 2u), "formula.satisfiedBy", d << " gave " << sat);
	if (x.total()) { VF_CHECK(sat == (want ? 1u : 0u), "formula.total", d << " gave " << sat); }
	MV v = cm::evaluate(f, x.m); VF_CHECK(v.isBool() ? v.asBool() == want : v.isSubstitution(), "formula.evaluate", d << " gave " << v);
}
static void check_poly(World& x, vf::Rng& r) {
	ref::Poly p = pu::gen_poly(r, 3, 2, ref::NV); MP q = pu::build(p, r); std::string d = x.log + " in " + p.str(); vf::note(d); vf::observe(d);
	vf::op("model.substitute-polynomial"); ref::Poly s = pu::rpoly(cm::substitute(q, x.m));
	VF_CHECK(s.eval(x.e.a) == p.eval(x.e.a), "poly.substitute", d << " gave " << s.str());
	bool fix = true; for (size_t k = 0; k < ref::NV; ++k) { VF_CHECK(!(x.a[k] && !x.issub[k] && s.has(k) && ![&] { for (size_t j = 0; j < k; ++j) if (x.issub[j] && x.sub[j].has(k)) return true; return false; }()), "poly.left-over", d << " gave " << s.str()); if (p.has(k) && !x.fixed(k)) fix = false; }
	vf::op("model.evaluate-polynomial"); MV v = cm::evaluate(q, x.m);
	if (fix) { VF_CHECK(v.isRational() && v.asRational() == p.eval(x.e.a), "poly.evaluate", d << " gave " << v << " expected " << p.eval(x.e.a)); }
	else { VF_CHECK(v.isRational() ? v.asRational() == p.eval(x.e.a) : v.isSubstitution(), "poly.evaluate-partial", d << " gave " << v); }
	auto rel = static_cast<Relation>(r.below(6)); Con c(q, rel); vf::op("model.evaluate-constraint"); MV cv = cm::evaluate(c, x.m); bool want = holds(p.eval(x.e.a), rel);
	if (fix) { VF_CHECK(cv.isBool() && cv.asBool() == want, "constraint.evaluate", d << " " << rel << " gave " << cv); }
	else if (cv.isBool()) { VF_CHECK(cv.asBool() == want, "constraint.evaluate-partial", d << " " << rel << " gave " << cv); }
	Con cs = cm::substitute(c, x.m); VF_CHECK(holds(pu::rpoly(cs.lhs()).eval(x.e.a), cs.relation()) == want, "constraint.substitute", d << " " << rel << " gave " << cs);
	for (size_t k = 0; k < ref::NV; ++k) if (x.fixed(k)) { MV e = x.m.evaluated(V()[k]); Q got = e.isRational() ? e.asRational() : e.isRAN() && e.asRAN().is_numeric() ? e.asRAN().value() : Q(-987654); VF_CHECK((e.isRational() || e.isRAN()) && got == x.e.a[k], "model.evaluated", d << " " << V()[k] << " gave " << e << " expected " << x.e.a[k]); }
}
static void history(vf::Rng& r) {
	World x(r); size_t steps = 2 + r.below(12);
	if (r.chance(1, 3)) { for (size_t k = ref::NV; k-- > 0;) { set_arith(x, k, r); x.settle(); } for (size_t k = 0; k < NB; ++k) set_other(x, 0, k, r); for (size_t k = 0; k < NU; ++k) set_other(x, 1, k, r); for (size_t k = 0; k < NW; ++k) set_other(x, 2, k, r); }
	for (size_t s = 0; s < steps; ++s) {
		switch (r.below(6)) {
		case 0: case 1: case 2: set_arith(x, r.below(ref::NV), r); break;
		case 3: { unsigned w = static_cast<unsigned>(r.below(3)); set_other(x, w, r.below(w == 0 ? NB : w == 1 ? NU : NW), r); break; }
		case 4: { size_t k = r.below(ref::NV); x.log += " erase " + vf::str(V()[k]); vf::op("model.erase"); switch (r.below(3)) { case 0: x.m.erase(V()[k]); break; case 1: x.m.erase(x.m.find(V()[k])); break; default: { const M& cm_ = x.m; x.m.erase(cm_.find(V()[k])); } } x.a[k] = 0; x.issub[k] = 0; break; }
		default: { M c = x.m; x.m = c; x.log += " copy"; }
		}
		x.settle();
		size_t cnt = 0; for (auto* v : {&x.a, &x.b, &x.u, &x.w}) for (char c : *v) cnt += c != 0;
		VF_CHECK(x.m.size() == cnt && x.m.empty() == (cnt == 0), "model.size", x.log << " has " << x.m.size() << " expected " << cnt);
		for (size_t k = 0; k < ref::NV; ++k) VF_CHECK((x.m.find(V()[k]) != x.m.end()) == bool(x.a[k]), "model.find", x.log);
		if (r.coin()) check_poly(x, r); else check_formula(x, r);
	}
}
static void uf_case(vf::Rng& r) {
	static carl::UninterpretedFunction f1 = carl::newUninterpretedFunction("mf", {usort()}, usort()), f2 = carl::newUninterpretedFunction("mg", {usort(), usort()}, usort());
	M m; std::vector<int> uv; for (size_t k = 0; k < NU; ++k) { uv.push_back(static_cast<int>(r.below(4))); m.assign(U()[k], sv(uv.back())); }
	carl::UFModel m1(f1), m2(f2); std::map<std::vector<int>, int> t1, t2; std::string d;
	for (int i = 0; i < 4; ++i) if (r.coin()) { int v = static_cast<int>(r.below(4)); VF_CHECK(m1.extend({sv(i)}, sv(v)), "uf.extend", "f"); t1[{i}] = v; d += "f(" + std::to_string(i) + ")=" + std::to_string(v) + " "; }
	for (int i = 0; i < 16; ++i) if (r.coin()) { int v = static_cast<int>(r.below(4)); m2.extend({sv(i / 4), sv(i % 4)}, sv(v)); VF_CHECK(!m2.extend({sv(i / 4), sv(i % 4)}, sv(v)), "uf.extend-twice", "g"); t2[{i / 4, i % 4}] = v; d += "g(" + std::to_string(i / 4) + "," + std::to_string(i % 4) + ")=" + std::to_string(v) + " "; }
	m.assign(f1, m1); m.assign(f2, m2);
	auto look = [](const std::map<std::vector<int>, int>& t, const std::vector<int>& k) { auto it = t.find(k); return it == t.end() ? 0 : it->second; };
	std::function<std::pair<carl::UTerm, int>(unsigned, std::string&)> gen = [&](unsigned depth, std::string& s) -> std::pair<carl::UTerm, int> {
		if (depth == 0 || r.chance(1, 4)) { size_t k = r.below(NU); s += "u" + std::to_string(k); return {carl::UTerm(U()[k]), uv[k]}; }
		if (r.coin()) { s += "f("; auto a = gen(depth - 1, s); s += ")"; return {carl::UTerm(carl::newUFInstance(f1, std::vector<carl::UTerm>{a.first})), look(t1, {a.second})}; }
		s += "g("; auto a = gen(depth - 1, s); s += ","; auto b = gen(depth - 1, s); s += ")"; return {carl::UTerm(carl::newUFInstance(f2, std::vector<carl::UTerm>{a.first, b.first})), look(t2, {a.second, b.second})};
	};
	std::string s = d; for (size_t k = 0; k < NU; ++k) s += "u" + std::to_string(k) + "=" + std::to_string(uv[k]) + " ";
	auto a = gen(static_cast<unsigned>(r.below(4)), s); s += "="; auto b = gen(static_cast<unsigned>(r.below(4)), s); bool neg = r.coin(); if (neg) s += " negated"; vf::note(s); vf::observe(s);
	vf::op("model.uf"); bool want = (a.second == b.second) != neg;
	carl::UEquality ue(a.first, b.first, neg); MV v = cm::evaluate(ue, m); VF_CHECK(v.isBool() && v.asBool() == want, "uf.evaluate", s << " gave " << v);
	F f(ue); VF_CHECK(cm::satisfiedBy(f, m) == (want ? 1u : 0u), "uf.formula", s);
	for (int i = 0; i < 4; ++i) VF_CHECK(m1.get({sv(i)}).id() == sv(look(t1, {i})).id(), "uf.get", s);
}
/// one variable is a root of x^2 = c, the others are rational: the value is a + b * root
static void ran_case(vf::Rng& r) {
	World x(r); size_t k = 2 + r.below(ref::NV - 2); bool part = r.chance(1, 5); size_t miss = r.below(ref::NV);
	for (size_t j = 0; j < ref::NV; ++j) if (j != k && !(part && j == miss)) { x.e.a[j] = isint(j) || r.coin() ? Q(r.range(-3, 3)) : vf::gen_q(r, 4, 2); x.m.assign(V()[j], x.e.a[j]); x.a[j] = 1; x.log += " " + vf::str(V()[j]) + ":=" + x.e.a[j].get_str(); }
	static const int cs[] = {2, 3, 5, 7, 11}; int c = cs[r.below(5)]; bool neg = r.coin(); x.log += " " + vf::str(V()[k]) + ":=" + (neg ? "-" : "") + "sqrt(" + std::to_string(c) + ")";
	carl::UnivariatePolynomial<Q> up(V()[k], std::vector<Q>{Q(-c), Q(0), Q(1)}); auto roots = carl::real_roots(up).roots(); VF_CHECK(roots.size() == 2, "ran.roots", x.log);
	x.m.assign(V()[k], roots[neg ? 0 : 1]);
	for (size_t it = 0; it < 3; ++it) {
		ref::Poly p = pu::gen_poly(r, 3, 2, ref::NV) + ref::scale(ref::ppow(ref::Poly::var(k), 1 + static_cast<unsigned>(r.below(3))), Q(r.range(-2, 2))); MP q = pu::build(p, r);
		std::string d = x.log + " in " + p.str(); vf::note(d); vf::observe(d);
		bool full = true; for (size_t j = 0; j < ref::NV; ++j) if (j != k && p.has(j) && !x.a[j]) full = false;
		Q a = 0, b = 0; for (auto& [m, co] : p.t) { Q v = co; for (size_t j = 0; j < ref::NV; ++j) if (j != k) v *= ref::qpow(x.e.a[j], m[j]); v *= ref::qpow(Q(c), m[k] / 2); (m[k] % 2 ? b : a) += v; }
		if (neg) b = -b; int s = b == 0 ? sgn(a) : sgn(a) * sgn(b) >= 0 ? (sgn(a) ? sgn(a) : sgn(b)) : (a * a > b * b * c ? sgn(a) : sgn(b));
		auto rel = static_cast<Relation>(r.below(6)); bool want = holds(Q(s), rel); Con con(q, rel);
		vf::op("model.ran-constraint"); MV cv = cm::evaluate(con, x.m);
		if (full) { VF_CHECK(cv.isBool() && cv.asBool() == want, "ran.constraint", d << " " << rel << " gave " << cv << " expected " << want); }
		else if (cv.isBool()) { Con plain(q, rel); VF_CHECK(plain.isConsistent() != 2 || cv.asBool() == want, "ran.constraint-partial", d << " " << rel << " gave " << cv); }
		F f(q, rel); if (full) { vf::op("model.ran-formula"); VF_CHECK(cm::satisfiedBy(f, x.m) == (want ? 1u : 0u), "ran.formula", d << " " << rel); VF_CHECK(cm::satisfiedBy(F(FT::NOT, f), x.m) == (want ? 0u : 1u), "ran.negated", d << " " << rel); }
		if (full) { vf::op("model.ran-polynomial"); MV v = cm::evaluate(q, x.m); VF_CHECK(v.isRational() || v.isRAN(), "ran.polynomial", d << " gave " << v);
			if (v.isRational()) VF_CHECK(b == 0 && v.asRational() == a, "ran.polynomial", d << " gave " << v << " expected " << a << " + " << b << "*sqrt(" << c << ")");
			else if (v.isRAN()) { VF_CHECK(carl::sgn(v.asRAN()) == static_cast<carl::Sign>(s), "ran.polynomial-sign", d << " gave " << v); } }
	}
}
static std::pair<carl::BVTerm, ref::BV> gen_bv(vf::Rng& r, const Env& e, unsigned depth, std::string& s) {
	using T = carl::BVTermType;
	if (depth == 0 || r.chance(1, 6)) { BVSide b; if (r.chance(2, 3)) { b.var = static_cast<int>(r.below(NW)); s += "w" + std::to_string(b.var); } else { b.c = static_cast<unsigned>(r.below(1 << BW)); s += std::to_string(b.c); } return {bside(b), side(b, e)}; }
	unsigned o = static_cast<unsigned>(r.below(13)); s += "op" + std::to_string(o) + "("; auto a = gen_bv(r, e, depth - 1, s);
	if (o == 11) { s += ")"; return {carl::BVTerm(T::NOT, a.first), ref::bvnot(a.second)}; }
	if (o == 12) { s += ")"; return {carl::BVTerm(T::NEG, a.first), ref::bvneg(a.second)}; }
	s += ","; auto b = gen_bv(r, e, depth - 1, s); s += ")"; auto mk = [&](T t) { return carl::BVTerm(t, a.first, b.first); };
	switch (o) {
	case 0: return {mk(T::ADD), ref::bvadd(a.second, b.second)};
	case 1: return {mk(T::SUB), ref::bvsub(a.second, b.second)};
	case 2: return {mk(T::MUL), ref::bvmul(a.second, b.second)};
	case 3: return {mk(T::AND), ref::bvand(a.second, b.second)};
	case 4: return {mk(T::OR), ref::bvor(a.second, b.second)};
	case 5: return {mk(T::XOR), ref::bvxor(a.second, b.second)};
	case 6: return {mk(T::LSHIFT), ref::bvshl(a.second, b.second)};
	case 7: return {mk(T::RSHIFT_LOGIC), ref::bvlshr(a.second, b.second)};
	case 8: return {mk(T::RSHIFT_ARITH), ref::bvashr(a.second, b.second)};
	case 9: return {mk(T::DIV_U), ref::bvudiv(a.second, b.second)};
	default: return {mk(T::MOD_U), ref::bvurem(a.second, b.second)};
	}
}
static void bv_case(vf::Rng& r) {
	World x(r); for (size_t k = 0; k < NW; ++k) { x.m.assign(W()[k], carl::BVValue(BW, x.e.w[k])); x.log += " w" + std::to_string(k) + ":=" + std::to_string(x.e.w[k]); }
	std::string d = x.log + " in "; auto a = gen_bv(r, x.e, static_cast<unsigned>(r.below(4)), d); d += " ? "; auto b = gen_bv(r, x.e, static_cast<unsigned>(r.below(4)), d);
	// a middle part of the first term, put back to the full width
	if (r.coin()) { size_t lo = r.below(BW), hi = lo + r.below(BW - lo); d += " part " + std::to_string(hi) + ":" + std::to_string(lo); a.first = carl::BVTerm(carl::BVTermType::EXTRACT, a.first, hi, lo); a.second = ref::extract(a.second, hi, lo); size_t n = BW - (hi - lo + 1); bool sg = r.coin(); a.first = carl::BVTerm(sg ? carl::BVTermType::EXT_S : carl::BVTermType::EXT_U, a.first, n); a.second = sg ? ref::sext(a.second, n) : ref::zext(a.second, n); }
	vf::note(d); vf::observe(d);
	vf::op("model.bv-term"); MV v = cm::evaluate(a.first, x.m); bool ok = v.isBVValue() && v.asBVValue().width() == BW; for (size_t i = 0; ok && i < BW; ++i) ok = v.asBVValue()[i] == (mpz_tstbit(a.second.v.get_mpz_t(), i) != 0);
	VF_CHECK(ok, "bv.term", d << " gave " << v << " expected " << a.second.v);
	auto rel = static_cast<carl::BVCompareRelation>(r.below(10)); auto c = carl::BVConstraint::create(rel, a.first, b.first); bool want = bvholds(rel, a.second, b.second);
	vf::op("model.bv-constraint"); MV cv = cm::evaluate(c, x.m); VF_CHECK(cv.isBool() && cv.asBool() == want, "bv.constraint", d << " " << rel << " gave " << cv);
	VF_CHECK(cm::satisfiedBy(F(c), x.m) == (want ? 1u : 0u), "bv.formula", d << " " << rel);
}
int main(int argc, char** argv) {
	V(); B(); U(); W(); sv(0);
	vf::add_group("history", 6000, 150000, history);
	vf::add_group("uf", 10000, 200000, uf_case);
	vf::add_group("algebraic", 2000, 40000, ran_case);
	vf::add_group("bitvector", 8000, 150000, bv_case);
	return vf::run(argc, argv);
}
