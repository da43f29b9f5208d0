// Equality, ordering and hashing of algebraic objects.
#include <polyutil.h>
#include <axioms.h>
#include <carl/core/Relation.h>
#include <carl/core/Sign.h>
#include <carl/util/pointerOperations.h>
#include <carl/core/UnivariatePolynomial.h>

using pu::V;
static auto show = [](const auto& x) { return vf::str(x); };

static void var_case(vf::Rng& r) {
	std::vector<carl::Variable> v;
	static const std::vector<carl::VariableType> ty = {carl::VariableType::VT_BOOL, carl::VariableType::VT_REAL, carl::VariableType::VT_INT, carl::VariableType::VT_UNINTERPRETED, carl::VariableType::VT_BITVECTOR};
	static std::vector<carl::Variable> pool = [] {
		std::vector<carl::Variable> p{carl::Variable::NO_VARIABLE};
		for (int i = 0; i < 30; ++i) p.push_back(carl::freshVariable(ty[static_cast<size_t>(i) % ty.size()]));
		for (auto x : V()) p.push_back(x);
		return p;
	}();
	for (int i = 0; i < 6; ++i) v.push_back(r.pick(pool));
	v.push_back(v[0]);
	vf::op("cmp.variable");
	auto sh = [](carl::Variable x) { return vf::str(x.id()) + "/" + vf::str(x.type()); };
	ax::equality(v, "cmp.variable", sh);
	ax::order(v, "cmp.variable", sh);
	ax::hashing(v, "cmp.variable", sh);
	for (auto a : v) for (auto b : v) {
		ax::six(a, b, "cmp.variable", [&] { return sh(a) + " ? " + sh(b); });
		VF_CHECK((a == b) == (a.id() == b.id() && a.type() == b.type() && a.rank() == b.rank()), "cmp.variable:identity", sh(a) << " " << sh(b));
	}
	for (auto a : v) if (a != carl::Variable::NO_VARIABLE) {
		VF_CHECK(a > carl::Variable::NO_VARIABLE, "cmp.variable:no-variable", sh(a));
	}
	vf::observe(sh(v[0]) + sh(v[1]) + sh(v[2]) + sh(v[3]) + sh(v[4]));
}

/// a small family of closely related polynomials, each with a reference
static std::vector<ref::Poly> family(vf::Rng& r, size_t n) {
	std::vector<ref::Poly> v;
	size_t nv = 1 + r.below(ref::NV);
	ref::Poly base = r.chance(1, 10) ? pu::gen_poly(r, 24, 5, nv) : pu::gen_poly(r, 4, r.chance(1, 10) ? 30 : 3, nv);
	while (v.size() < n) {
		switch (r.below(9)) {
		case 0: v.push_back(base); break;
		case 1: { ref::Poly p = base; p.add(pu::gen_mono(r, 3, nv), pu::gen_c(r)); v.push_back(p); break; }
		case 2: { ref::Poly p; for (auto& [m, c] : base.t) p.add(m, r.chance(1, 3) ? Q(-c) : c); v.push_back(p); break; }
		case 3: { ref::Poly p; for (auto& [m, c] : base.t) p.add(m, r.chance(1, 4) ? Q(c + 1) : c); v.push_back(p); break; }
		case 4: v.push_back(ref::Poly(Q(r.range(-2, 2)))); break;
		case 5: v.push_back(ref::Poly()); break;
		case 6: v.push_back(ref::Poly(r.coin() ? Q(1) : pu::gen_c(r), pu::gen_mono(r, 3, nv))); break;
		case 7: { ref::Mono m = ref::mone(); m[r.below(nv)] = 1; v.push_back(ref::Poly(Q(1), m)); break; }
		default: v.push_back(pu::gen_poly(r, 5, 3, nv)); break;
		}
	}
	return v;
}

template<typename A, typename GA, typename B, typename GB>
static void mixed(const A& a, const GA& ga, const B& b, const GB& gb, const std::string& k) {
	auto d = [&] { return vf::str(a) + " ? " + vf::str(b); };
	VF_CHECK((a == b) == (ga == gb), k + ":eq", d() << " gives " << (a == b));
	VF_CHECK((a != b) == (ga != gb), k + ":neq", d() << " gives " << (a != b));
	VF_CHECK((a < b) == (ga < gb), k + ":less", d() << " gives " << (a < b));
	VF_CHECK((a <= b) == (ga <= gb), k + ":leq", d() << " gives " << (a <= b));
	VF_CHECK((a > b) == (ga > gb), k + ":greater", d() << " gives " << (a > b));
	VF_CHECK((a >= b) == (ga >= gb), k + ":geq", d() << " gives " << (a >= b));
}

struct Rep { bool isC = false, isV = false, isM = false, isT = false; Q c; carl::Variable v = carl::Variable::NO_VARIABLE; MA m; TQ t; };
static Rep rep(const ref::Poly& p) {
	Rep x;
	if (p.t.size() > 1) return x;
	x.isT = true;
	if (p.t.empty()) { x.isC = true; x.c = 0; x.t = TQ(Q(0)); return x; }
	auto& [m, c] = *p.t.begin();
	x.t = TQ(c, pu::mono(m));
	if (ref::mdeg(m) == 0) { x.isC = true; x.c = c; }
	if (c == 1) { x.isM = true; x.m = pu::mono(m); if (ref::mdeg(m) == 1) { x.isV = true; for (size_t i = 0; i < ref::NV; ++i) if (m[i]) x.v = V()[i]; } }
	return x;
}

static void mp_case(vf::Rng& r) {
	auto f = family(r, 6);
	std::vector<MP> v;
	std::vector<TQ> ts;
	std::vector<MA> ms;
	std::string content;
	for (auto& p : f) { v.push_back(pu::build(p, r)); content += p.str() + ";"; }
	vf::note(content);
	vf::op("cmp.polynomial");
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
		VF_CHECK((v[i] == v[j]) == (f[i] == f[j]), "cmp.mp:eq-value", v[i] << " == " << v[j] << " gives " << (v[i] == v[j]));
		ax::six(v[i], v[j], "cmp.mp", [&] { return vf::str(v[i]) + " ? " + vf::str(v[j]); });
	}
	ax::equality(v, "cmp.mp", show);
	ax::order(v, "cmp.mp", show);
	ax::hashing(v, "cmp.mp", show);
	for (size_t i = 0; i < v.size(); ++i) {
		Rep a = rep(f[i]);
		if (a.isT) ts.push_back(a.t);
		if (a.isM) ms.push_back(a.m);
		for (size_t j = 0; j < v.size(); ++j) {
			Rep b = rep(f[j]);
			const MP &p = v[i], &q = v[j];
			if (b.isT) { mixed(p, p, b.t, q, "cmp.mp-term"); mixed(b.t, q, p, p, "cmp.term-mp"); }
			if (b.isM) { mixed(p, p, b.m, q, "cmp.mp-monomial"); mixed(b.m, q, p, p, "cmp.monomial-mp"); vf::op("cmp.monomial-mp"); }
			if (b.isV) { mixed(p, p, b.v, q, "cmp.mp-variable"); mixed(b.v, q, p, p, "cmp.variable-mp"); vf::op("cmp.variable-mp"); }
			if (b.isC) { mixed(p, p, b.c, q, "cmp.mp-number"); mixed(b.c, q, p, p, "cmp.number-mp"); vf::op("cmp.number-mp"); }
			if (b.isC && b.c.get_den() == 1 && b.c.get_num().fits_sint_p()) VF_CHECK((p == static_cast<int>(b.c.get_num().get_si())) == (p == q), "cmp.mp-int:eq", p << " == " << b.c);
			if (!a.isT || !b.isT) continue;
			mixed(a.t, p, b.t, q, "cmp.term-term");
			if (b.isM) { mixed(a.t, p, b.m, q, "cmp.term-monomial"); mixed(b.m, q, a.t, p, "cmp.monomial-term"); vf::op("cmp.monomial-term"); }
			if (b.isV) { mixed(a.t, p, b.v, q, "cmp.term-variable"); mixed(b.v, q, a.t, p, "cmp.variable-term"); }
			if (b.isC) { mixed(a.t, p, b.c, q, "cmp.term-number"); mixed(b.c, q, a.t, p, "cmp.number-term"); }
			if (a.isM && b.isM) mixed(a.m, p, b.m, q, "cmp.monomial-monomial");
			if (a.isM && b.isV) { mixed(a.m, p, b.v, q, "cmp.monomial-variable"); mixed(b.v, q, a.m, p, "cmp.variable-monomial"); vf::op("cmp.monomial-variable"); }
		}
	}
	ax::equality(ts, "cmp.term", show);
	ax::order(ts, "cmp.term", show);
	ax::hashing(ts, "cmp.term", show);
	ax::equality(ms, "cmp.monomial", show);
	ax::order(ms, "cmp.monomial", show);
	ax::hashing(ms, "cmp.monomial", show);
	ax::order_fn(ms, "cmp.monomial-stdless", std::less<MA>(), std::equal_to<MA>(), show);
	// containers keyed by these objects find every equal object
	std::set<MP> st(v.begin(), v.end());
	std::unordered_set<MP> us(v.begin(), v.end());
	std::set<std::string> want;
	for (auto& p : f) want.insert(p.str());
	VF_CHECK(st.size() == want.size() && us.size() == want.size(), "cmp.mp:containers", content << " set " << st.size() << " hash set " << us.size() << " expected " << want.size());
	vf::observe(content);
}

/// comparison functors of the monomial orderings between a monomial and a variable
static void mv_case(vf::Rng& r) {
	ref::Mono m = pu::gen_mono(r, 3);
	if (r.chance(1, 3)) { m = ref::mone(); m[r.below(ref::NV)] = 1; }
	MA a = pu::mono(m);
	carl::Variable v = V()[r.below(ref::NV)];
	MA b = carl::createMonomial(v, 1);
	vf::op("cmp.ordering-variable");
	auto d = [&] { return vf::str(a) + " ? " + vf::str(v); };
	VF_CHECK(carl::Monomial::compareLexical(a, v) == carl::Monomial::compareLexical(a, b), "cmp.monomial-variable:compareLexical", d());
	VF_CHECK(carl::Monomial::compareGradedLexical(a, v) == carl::Monomial::compareGradedLexical(a, b), "cmp.monomial-variable:compareGradedLexical", d());
	vf::observe(d());
}

template<typename P>
static void up_axioms(const std::vector<P>& v, const std::string& k, bool cross) {
	auto sh = [](const P& p) { return vf::str(p.mainVar()) + ": " + vf::str(p); };
	auto lt = [](const P& a, const P& b) { return a < b; };
	auto eq = [](const P& a, const P& b) { return a == b; };
	auto low = [](const P& a, const P& b) { return std::less<P>(carl::PolynomialComparisonOrder::LowDegree)(a, b); };
	auto dflt = [](const P& a, const P& b) { return std::less<P>()(a, b); };
	auto lw = [](const P& a, const P& b) { return a.less(b, carl::PolynomialComparisonOrder::LowDegree); };
	(void)cross;
	ax::equality(v, k, sh);
	ax::order_fn(v, k, lt, eq, sh);
	ax::order_fn(v, k + ".low-degree", low, eq, sh);
	ax::order_fn(v, k + ".less", lw, eq, sh);
	ax::order_fn(v, k + ".default", dflt, eq, sh);
	ax::hashing(v, k, sh);
}
/// the comparable univariate polynomials: one main variable, or pairwise different as polynomials
static void up_case(vf::Rng& r) {
	std::vector<UP> v;
	std::vector<ref::Poly> f;
	size_t nm = r.coin() ? 1 : 3;
	std::string content;
	std::vector<Q> base;
	for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) base.push_back(vf::gen_q(r, 3, 2));
	for (int i = 0; i < 7; ++i) {
		std::vector<Q> c = base;
		switch (r.below(5)) {
		case 0: break;
		case 1: c.back() += 1; break;
		case 2: c.push_back(vf::gen_q(r, 3, 2)); break;
		case 3: c.resize(1 + r.below(c.size())); break;
		default: c.clear(); for (size_t j = 0, n = r.below(5); j < n; ++j) c.push_back(vf::gen_q(r, 3, 2)); break;
		}
		UP p(V()[r.below(nm)], c);
		f.push_back(pu::rpoly(p));
		v.push_back(p);
	}
	for (auto& p : v) content += vf::str(p.mainVar()) + ":" + vf::str(p) + ";";
	vf::note(content);
	vf::op("cmp.univariate");
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) {
		VF_CHECK((v[i] == v[j]) == (f[i] == f[j]) && (v[i] != v[j]) == !(f[i] == f[j]), "cmp.up:eq-value", v[i] << " == " << v[j] << " gives " << (v[i] == v[j]));
		VF_CHECK((v[i] == MP(v[j])) == (f[i] == f[j]) && (MP(v[i]) == v[j]) == (f[i] == f[j]) && (v[i] != MP(v[j])) == !(f[i] == f[j]) && (MP(v[i]) != v[j]) == !(f[i] == f[j]), "cmp.up-mp:eq", v[i] << " ? " << v[j]);
		if (f[j].t.empty() || (f[j].t.size() == 1 && ref::mdeg(f[j].t.begin()->first) == 0)) {
			Q c = f[j].t.empty() ? Q(0) : f[j].t.begin()->second;
			VF_CHECK((v[i] == c) == (f[i] == f[j]) && (c == v[i]) == (f[i] == f[j]), "cmp.up-number:eq", v[i] << " == " << c);
		}
	}
	// the same polynomial in two main variables
	std::vector<UP> w;
	for (size_t i = 0; i < v.size(); ++i) {
		bool dup = false;
		for (size_t j = 0; j < v.size(); ++j) if (f[i] == f[j] && v[i].mainVar() != v[j].mainVar()) dup = true;
		if (!dup) w.push_back(v[i]);
	}
	up_axioms(w, "cmp.up", false);
	if (w.size() != v.size()) { vf::op("cmp.univariate-cross"); up_axioms(v, "cmp.up-cross", true); }
	vf::observe(content);
}
static void ump_case(vf::Rng& r) {
	std::vector<UMP> v;
	std::vector<ref::Poly> f;
	size_t nm = r.coin() ? 1 : 2;
	std::string content;
	auto fam = family(r, 6);
	for (auto& p : fam) {
		MP q = pu::build(p, r);
		carl::Variable x = V()[r.below(nm)];
		v.push_back(carl::to_univariate_polynomial(q, x));
		f.push_back(p);
		content += vf::str(x) + ":" + p.str() + ";";
	}
	vf::note(content);
	vf::op("cmp.univariate-mp");
	for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j)
		VF_CHECK((v[i] == v[j]) == (f[i] == f[j]), "cmp.ump:eq-value", v[i] << " == " << v[j] << " gives " << (v[i] == v[j]));
	std::vector<UMP> w;
	for (size_t i = 0; i < v.size(); ++i) {
		bool dup = false;
		for (size_t j = 0; j < v.size(); ++j) if (f[i] == f[j] && v[i].mainVar() != v[j].mainVar()) dup = true;
		if (!dup) w.push_back(v[i]);
	}
	up_axioms(w, "cmp.ump", false);
	if (w.size() != v.size()) up_axioms(v, "cmp.up-cross", true);
	vf::observe(content);
}

/// relation symbols, signs and pointer comparators
static void rel_case(vf::Rng& r) {
	using R = carl::Relation;
	static const std::vector<R> rs = {R::EQ, R::NEQ, R::LESS, R::LEQ, R::GREATER, R::GEQ};
	Q a = vf::gen_q(r, 3, 2), b = r.chance(1, 4) ? a : vf::gen_q(r, 3, 2);
	if (r.chance(1, 8)) { a = vf::gen_mpq(r); b = r.coin() ? Q(a + vf::gen_q(r, 1, 1)) : vf::gen_mpq(r); }
	auto truth = [](const Q& x, R rel, const Q& y) { switch (rel) { case R::EQ: return x == y; case R::NEQ: return x != y; case R::LESS: return x < y; case R::LEQ: return x <= y; case R::GREATER: return x > y; default: return x >= y; } };
	vf::op("cmp.relation");
	for (R rel : rs) {
		std::string k = vf::str(rel);
		bool t = truth(a, rel, b);
		VF_CHECK(carl::evaluate(a, rel, b) == t, "cmp.relation:evaluate", a << " " << k << " " << b);
		VF_CHECK(carl::evaluate(Q(a - b), rel) == t && carl::evaluate(carl::sgn(Q(a - b)), rel) == t, "cmp.relation:evaluate-sign", a << " " << k << " " << b);
		VF_CHECK(truth(a, carl::inverse(rel), b) == !t, "cmp.relation:inverse", k << " on " << a << "," << b);
		VF_CHECK(truth(b, carl::turn_around(rel), a) == t, "cmp.relation:turn_around", k << " on " << a << "," << b);
		VF_CHECK(carl::isStrict(rel) == !truth(a, rel, a) || rel == R::NEQ, "cmp.relation:isStrict", k);
		VF_CHECK(carl::isStrict(rel) == !carl::isWeak(rel), "cmp.relation:isWeak", k);
	}
	std::vector<Q> vals{a, b, Q(0), Q(a + b), a};
	std::vector<std::shared_ptr<Q>> ps{nullptr};
	for (auto& x : vals) ps.push_back(std::make_shared<Q>(x));
	ps.push_back(ps[1]);
	ps.push_back(nullptr);
	std::vector<Q*> raw;
	for (auto& p : ps) raw.push_back(p.get());
	auto sh = [](const auto& p) { return p ? vf::str(*p) : std::string("null"); };
	ax::order_fn(ps, "cmp.shared-ptr", carl::less<std::shared_ptr<Q>>(), carl::equal_to<std::shared_ptr<Q>>(), sh);
	ax::order_fn(raw, "cmp.ptr", carl::less<Q*>(), carl::equal_to<Q*>(), sh);
	carl::hash<std::shared_ptr<Q>> hs;
	carl::hash<Q*> hr;
	for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ps.size(); ++j) {
		bool e = (!raw[i] && !raw[j]) || (raw[i] && raw[j] && *raw[i] == *raw[j]);
		VF_CHECK(carl::equal_to<Q*>()(raw[i], raw[j]) == e && carl::equal_to<std::shared_ptr<Q>>()(ps[i], ps[j]) == e, "cmp.ptr:eq-value", sh(raw[i]) << " " << sh(raw[j]));
		if (raw[i] && raw[j]) VF_CHECK(carl::less<Q*>()(raw[i], raw[j]) == (*raw[i] < *raw[j]), "cmp.ptr:less-value", sh(raw[i]) << " " << sh(raw[j]));
		if (e && raw[i]) VF_CHECK(hs(ps[i]) == hs(ps[j]) && hr(raw[i]) == hr(raw[j]), "cmp.ptr:hash", sh(raw[i]));
	}
	vf::observe(vf::str(a) + " " + vf::str(b));
}

int main(int argc, char** argv) {
	vf::add_group("var", 4000, 100000, var_case);
	vf::add_group("mp", 12000, 300000, mp_case);
	vf::add_group("mv", 8000, 100000, mv_case);
	vf::add_group("up", 12000, 300000, up_case);
	vf::add_group("ump", 6000, 150000, ump_case);
	vf::add_group("rel", 6000, 100000, rel_case);
	return vf::run(argc, argv);
}
