// C29: expressions with one square root and virtual substitution. Values are computed exactly in
// Q(sqrt(u)) at rational parameter values; truth of a substituted constraint is the sign of the
// polynomial at that value.
#define VF_REAL_VARS
#include <polyutil.h>
#include <carl/formula/Formula.h>
#include <carl/vs/SqrtEx.h>
// substitute.h is written for a client that provides these names
namespace smtrat {
using Rational = mpq_class;
using Factorization = carl::Factors<carl::MultivariatePolynomial<mpq_class>>;
using SqrtEx = carl::SqrtEx<carl::MultivariatePolynomial<mpq_class>>;
}
#include <carl/vs/substitute.h>
#include <carl/vs/zeros.h>
using pu::V;
using SX = carl::SqrtEx<MP>;
using Con = carl::Constraint<MP>;
using carl::Relation;
using CD = carl::vs::CaseDistinction<MP>;
using VT = carl::vs::Term<MP>;

// ------------------------------------------------------------ numbers a + b * sqrt(u)
static bool square(const Q& q, Q& s) {
	if (sgn(q) < 0 || !mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false;
	Z n, d; mpz_sqrt(n.get_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), q.get_den_mpz_t());
	s = Q(n) / Q(d); return true;
}
struct S { Q a, b, u; };
static int sign(const S& s) {
	int x = sgn(s.a), y = sgn(s.b) * (sgn(s.u) > 0 ? 1 : 0);
	if (x == y || y == 0) return x;
	if (x == 0) return y;
	int c = cmp(s.a * s.a, s.b * s.b * s.u);
	return c == 0 ? 0 : (c > 0 ? x : y);
}
static S canon(S s) { Q w = s.b * s.b * s.u, k; if (square(w, k)) return {s.a + (sgn(s.b) < 0 ? Q(-k) : k), 0, 0}; return {s.a, Q(sgn(s.b)), w}; }
static bool same(const S& x, const S& y) { S p = canon(x), q = canon(y); return p.a == q.a && p.b == q.b && p.u == q.u; }
static S add(const S& x, const S& y) { return {x.a + y.a, x.b + y.b, x.u}; }
static S mul(const S& x, const S& y) { return {x.a * y.a + x.b * y.b * x.u, x.a * y.b + x.b * y.a, x.u}; }
static std::string sstr(const S& s) { return vf::str(s.a) + "+" + vf::str(s.b) + "*sqrt(" + vf::str(s.u) + ")"; }
using Env = std::vector<Q>;
static Q at(const MP& p, const Env& e) { return pu::rpoly(p).eval(e); }
/// value of an expression, if it has one at these parameters
static bool value(const SX& x, const Env& e, S& out) {
	Q d = at(x.denominator(), e), r = at(x.radicand(), e);
	if (d == 0 || sgn(r) < 0) return false;
	out = {at(x.constantPart(), e) / d, at(x.factor(), e) / d, r};
	return true;
}
static std::string estr(const Env& e) { std::string s; for (size_t i = 0; i < e.size(); ++i) s += vf::str(V()[i]) + "=" + vf::str(e[i]) + " "; return s; }
static Env gen_env(vf::Rng& r) { Env e; for (size_t i = 0; i < ref::NV; ++i) e.push_back(r.chance(2, 3) ? Q(r.range(-4, 4)) : vf::gen_q(r, 5, 3)); return e; }
/// value of sum c_i x^i
static S horner(const std::vector<Q>& c, const S& x) { S s{0, 0, x.u}; for (size_t i = c.size(); i > 0; --i) s = add(mul(s, x), S{c[i - 1], 0, x.u}); return s; }
static std::vector<Q> coeffs(const ref::Poly& p, size_t v, const Env& e) {
	std::vector<Q> c;
	for (auto& [m, k] : p.t) {
		Q t = k;
		for (size_t i = 0; i < ref::NV; ++i) if (i != v) t *= ref::qpow(e[i], m[i]);
		if (c.size() <= m[v]) c.resize(m[v] + 1);
		c[m[v]] += t;
	}
	while (!c.empty() && c.back() == 0) c.pop_back();
	return c;
}
static std::vector<Q> dcoeffs(std::vector<Q> c) { std::vector<Q> d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * Q(static_cast<unsigned long>(i))); return d; }
static bool holds(int s, Relation r) {
	switch (r) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	case Relation::GEQ: return s >= 0;
	}
	throw std::runtime_error("relation");
}
static bool holds(const Con& c, const Env& e) { return holds(sgn(at(c.lhs(), e)), c.relation()); }
static bool holds(const CD& d, const Env& e) {
	for (auto& k : d) { bool ok = true; for (auto& c : k) ok = ok && holds(c, e); if (ok) return true; }
	return false;
}
static std::string dstr(const CD& d) { std::ostringstream o; for (auto& k : d) { o << "("; for (auto& c : k) o << c << ", "; o << ") "; } return o.str(); }
static const Relation RELS[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static Relation gen_rel(vf::Rng& r) { return RELS[r.below(6)]; }

// ------------------------------------------------------------ generators
static ref::Poly gen_p(vf::Rng& r, size_t x, bool cst = false) { // polynomial in up to two parameters
	if (cst || r.chance(1, 3)) return ref::Poly(r.coin() ? Q(r.range(-6, 6)) : vf::gen_q(r, 9, 4));
	ref::Poly p(Q(r.range(-3, 3)));
	size_t n = 1 + r.below(2);
	for (size_t i = 0; i < n; ++i) {
		size_t v; do v = r.below(3); while (v == x);
		ref::Poly t = ref::Poly::var(v); if (r.chance(1, 4)) t = t * ref::Poly::var(v);
		p = p + ref::scale(t, r.chance(1, 6) ? vf::gen_q(r, 5, 3) : Q(r.range(-3, 3)));
	}
	return p;
}
static ref::Poly gen_rad(vf::Rng& r, size_t x, bool cst) {
	switch (r.below(5)) {
	case 0: return ref::Poly(r.coin() ? Q(r.range(0, 20)) : Q(abs(vf::gen_q(r, 30, 5))));
	case 1: { ref::Poly p = gen_p(r, x, cst); return p * p + ref::Poly(Q(r.range(0, 3))); }
	case 2: { ref::Poly a = gen_p(r, x, cst), b = gen_p(r, x, cst), c = gen_p(r, x, cst), p = b * b - ref::scale(a * c, 4); if (p.t.size() == 1 && p.t.begin()->first == ref::mone() && p.t.begin()->second < 0) p = -p; return p; }
	default: { ref::Poly p = gen_p(r, x, cst); if (p.t.size() == 1 && p.t.begin()->first == ref::mone() && p.t.begin()->second < 0) p = -p; return p; }
	}
}
struct Parts { ref::Poly c, f, d, r; };
static bool is_const(const ref::Poly& p) { return p.t.empty() || (p.t.size() == 1 && p.t.begin()->first == ref::mone()); }
static Parts gen_parts(vf::Rng& r, size_t x, bool cst) {
	Parts p{gen_p(r, x, cst), gen_p(r, x, cst), gen_p(r, x, cst), gen_rad(r, x, cst)};
	if (r.chance(1, 4)) { ref::Poly g = gen_p(r, x, cst); p.c = p.c * g; p.f = p.f * g; p.d = p.d * g; }
	while (p.d.t.empty()) p.d = r.coin() ? ref::Poly(Q(1)) : gen_p(r, x, cst);
	if (r.chance(1, 6)) p.f = ref::Poly();
	if (r.chance(1, 6)) p.c = ref::Poly();
	return p;
}
static SX mk(const Parts& p, vf::Rng& r) { return SX(pu::build(p.c, r), pu::build(p.f, r), pu::build(p.d, r), pu::build(p.r, r)); }
static bool pvalue(const Parts& p, const Env& e, S& out) {
	Q d = p.d.eval(e), r = p.r.eval(e);
	if (d == 0 || sgn(r) < 0) return false;
	out = {p.c.eval(e) / d, p.f.eval(e) / d, r};
	return true;
}
static std::string desc(const Parts& p) { std::ostringstream o; o << "(" << p.c.str() << " + (" << p.f.str() << ")*sqrt(" << p.r.str() << "))/(" << p.d.str() << ")"; return o.str(); }

// ------------------------------------------------------------ expressions
static void expr_case(vf::Rng& r) {
	bool cst = r.chance(1, 4);
	Parts p = gen_parts(r, 9, cst), q = gen_parts(r, 9, cst);
	q.r = p.r;
	std::string d = desc(p) + " and " + desc(q);
	vf::note(d); vf::observe(d);
	SX a = mk(p, r), b = mk(q, r);
	d += " built " + vf::str(a) + " and " + vf::str(b);
	// the root of a radicand that is the square of a polynomial is that polynomial: known up to sign only
	bool signless = !is_const(p.r) && !a.hasSqrt();
	bool signless2 = !is_const(q.r) && !b.hasSqrt();
	ref::Poly lin = gen_p(r, 9, cst); SX l(pu::build(lin, r));
	vf::op("arithmetic");
	SX sum = a + b, dif = a - b, pro = a * b, sl = a + l, ls = l + a, dl = a - l, ld = l - a, pl = a * l, lp = l * a;
	bool candiv = !b.hasSqrt() && !carl::isZero(b.constantPart());
	SX quo; if (candiv) quo = a / b;
	SX cp; cp = a; SX as(a); as = pu::build(lin, r);
	VF_CHECK(cp == a && std::hash<SX>()(cp) == std::hash<SX>()(a), "expr:copy", d);
	VF_CHECK(as == l && !as.hasSqrt(), "expr:assign", d);
	VF_CHECK(a == mk(p, r), "expr:same-parts", d);
	VF_CHECK(a.hasSqrt() || carl::isZero(a.radicand()), "expr:radicand", d);
	if (a.isPolynomial()) { vf::op("asPolynomial"); MP y = a.asPolynomial(); for (int i = 0; i < 4; ++i) { Env e = gen_env(r); S v; if (value(a, e, v)) VF_CHECK(same(v, S{at(y, e), 0, 0}), "expr:asPolynomial", d << " gave " << y); } }
	if (a.isRational() && r.coin()) { vf::op("asRational"); S v; if (value(a, Env(ref::NV), v)) VF_CHECK(same(v, S{a.asRational(), 0, 0}), "expr:asRational", d << " gave " << a.asRational()); }
	if (a.isInteger()) { S v; VF_CHECK(value(a, Env(ref::NV), v) && canon(v).b == 0 && canon(v).a.get_den() == 1, "expr:isInteger", d); }
	else if (a.isRational()) { S v; if (value(a, Env(ref::NV), v)) VF_CHECK(canon(v).b != 0 || canon(v).a.get_den() != 1, "expr:isInteger", d); }
	{ carl::carlVariables vs; carl::variables(a, vs); for (auto* m : {&a.constantPart(), &a.factor(), &a.denominator(), &a.radicand()}) for (auto v : carl::variables(*m)) VF_CHECK(vs.has(v), "expr:variables", d); VF_CHECK(a.isConstant() == vs.empty(), "expr:isConstant", d); }
	size_t seen = 0;
	for (int i = 0; i < 14; ++i) {
		Env e = gen_env(r);
		std::map<carl::Variable, Q> m; for (size_t k = 0; k < ref::NV; ++k) m[V()[k]] = e[k];
		S x, y, va, vb;
		if (!pvalue(p, e, x)) continue;
		if (!value(a, e, va)) { VF_CHECK(false, "expr:construct-domain", d << " at " << estr(e)); continue; }
		++seen;
		std::string w = d + " at " + estr(e);
		VF_CHECK(same(va, x) || (signless && same(va, S{x.a, -x.b, x.u})), "expr:construct", w << " value " << sstr(va) << " expected " << sstr(x));
		// evaluation
		{
			Q f = at(a.factor(), e), k; bool exact = square(va.u, k);
			if (exact || f != 0) {
				int dir = exact && r.coin() ? 0 : (r.coin() ? 1 : -1);
				vf::op("evaluate");
				Q got; bool ok = a.evaluate(got, m, dir);
				VF_CHECK(ok == exact, "expr:evaluate-exact", w);
				if (exact) VF_CHECK(same(va, S{got, 0, 0}), "expr:evaluate", w << " gave " << got);
				else {
					int s = sign(S{got - va.a, -va.b, va.u});
					VF_CHECK(s == 0 || s == dir, "expr:evaluate-rounding", w << " direction " << dir << " gave " << got);
					Q err = got - va.a; // |err - b sqrt(u)| small: compare squares
					Q scale = abs(va.a) + abs(va.b) * (va.u + 1) + 1, lim = scale / 1000000;
					VF_CHECK(sign(S{err - lim, -va.b, va.u}) < 0 && sign(S{err + lim, -va.b, va.u}) > 0, "expr:evaluate-far", w << " gave " << got);
				}
			}
			// partial substitution
			std::map<carl::Variable, Q> part; for (auto& z : m) if (r.coin()) part.insert(z);
			MP den = carl::substitute(a.denominator(), part), rad = carl::substitute(a.radicand(), part);
			vf::op("substitute");
			SX sb = a.substitute(part); S v;
			bool sl2 = !rad.isConstant() && !sb.hasSqrt();
			if (value(sb, e, v)) VF_CHECK(same(v, va) || (sl2 && same(v, S{va.a, -va.b, va.u})), "expr:substitute", w << " gave " << sb);
			else VF_CHECK(false, "expr:substitute-domain", w << " gave " << sb);
		}
		S lv{lin.eval(e), 0, va.u}, v;
		S nl{-lv.a, 0, va.u};
		auto check = [&](const SX& g, const S& want, const char* key) { if (!value(g, e, v)) VF_CHECK(false, std::string("expr:domain:") + key, w << " gave " << g); else VF_CHECK(same(v, want), std::string("expr:") + key, w << " gave " << g << " value " << sstr(v) << " expected " << sstr(want)); };
		check(sl, add(va, lv), "add-poly"); check(ls, add(va, lv), "poly-add");
		check(dl, add(va, nl), "sub-poly"); check(ld, add(lv, S{-va.a, -va.b, va.u}), "poly-sub");
		check(pl, mul(va, lv), "mul-poly"); check(lp, mul(va, lv), "poly-mul");
		if (!value(b, e, vb)) continue;
		S ub = vb; if (!b.hasSqrt()) ub.u = va.u; S ua = va; if (!a.hasSqrt()) ua.u = vb.u;
		if (a.hasSqrt() && b.hasSqrt()) { ua = va; ub = vb; }
		check(sum, add(ua, ub), "add"); check(dif, add(ua, S{-ub.a, -ub.b, ub.u}), "sub"); check(pro, mul(ua, ub), "mul");
		if (candiv && vb.a != 0) check(quo, S{va.a / vb.a, va.b / vb.a, va.u}, "div");
	}
	(void)signless2; (void)seen;
}
/// polynomial with an expression in place of a variable
static void sub_case(vf::Rng& r) {
	size_t x = r.below(3);
	Parts p = gen_parts(r, x, r.chance(1, 5));
	ref::Poly f; unsigned deg = static_cast<unsigned>(r.below(5));
	for (unsigned i = 0; i <= deg; ++i) if (i == deg || r.coin()) f = f + gen_p(r, x) * ref::ppow(ref::Poly::var(x), i);
	std::string d = f.str() + " with " + desc(p) + " for " + vf::str(V()[x]);
	vf::note(d); vf::observe(d);
	SX a = mk(p, r);
	vf::op("subBySqrtEx");
	SX g = SX::subBySqrtEx(pu::build(f, r), V()[x], a);
	d += " gave " + vf::str(g);
	for (int i = 0; i < 14; ++i) {
		Env e = gen_env(r); S va, v;
		if (!value(a, e, va)) continue;
		if (!value(g, e, v)) { VF_CHECK(false, "sub:domain", d << " at " << estr(e)); continue; }
		S want = horner(coeffs(f, x, e), va);
		bool sl = a.hasSqrt() && !g.hasSqrt();
		VF_CHECK(same(v, want), "sub:value", d << " at " << estr(e) << " value " << sstr(v) << " expected " << sstr(want)); (void)sl;
	}
}
// ------------------------------------------------------------ zeros
static std::vector<S> roots2(const std::vector<Q>& c) { // degree at most 2, not zero
	std::vector<S> z;
	if (c.size() == 2) z.push_back({-c[0] / c[1], 0, 0});
	if (c.size() == 3) {
		Q D = c[1] * c[1] - 4 * c[2] * c[0];
		if (sgn(D) >= 0) { Q h = 2 * c[2]; z.push_back({-c[1] / h, -1 / h, D}); if (D != 0) z.push_back({-c[1] / h, 1 / h, D}); }
	}
	return z;
}
static ref::Poly gen_quad(vf::Rng& r, size_t x, unsigned deg) { ref::Poly f; for (unsigned i = 0; i <= deg; ++i) if (i == deg || r.chance(2, 3)) f = f + gen_p(r, x) * ref::ppow(ref::Poly::var(x), i); return f; }
static void zeros_case(vf::Rng& r) {
	size_t x = r.below(3);
	std::vector<ref::Poly> fs; size_t n = 1 + r.below(3);
	for (size_t i = 0; i < n; ++i) fs.push_back(gen_quad(r, x, n == 1 ? 1 + static_cast<unsigned>(r.below(2)) : static_cast<unsigned>(r.below(n == 2 ? 3 : 2))));
	ref::Poly f(Q(1)); for (auto& g : fs) f = f * g;
	Relation rel = gen_rel(r);
	Con c(pu::build(f, r), rel);
	std::string d = vf::str(c) + " from " + f.str() + " for " + vf::str(V()[x]);
	vf::note(d); vf::observe(d);
	std::vector<carl::vs::zero<MP>> zs;
	vf::op("gather_zeros");
	bool ok = carl::vs::gather_zeros(c, V()[x], zs);
	{ std::ostringstream o; o << " gave"; for (auto& z : zs) o << " " << z; d += o.str(); }
	if (!ok) { VF_CHECK(pu::rpoly(c.lhs()).deg(x) > 2, "zeros:refused", d); return; }
	if (!c.hasVariable(V()[x])) { VF_CHECK(zs.empty(), "zeros:free", d); return; }
	for (int i = 0; i < 12; ++i) {
		Env e = gen_env(r);
		auto cf = coeffs(pu::rpoly(c.lhs()), x, e);
		if (cf.empty()) continue;
		std::vector<S> want, got;
		auto put = [](std::vector<S>& l, const S& s) { for (auto& t : l) if (same(t, s)) return; l.push_back(s); };
		for (auto& g : fs) { auto k = coeffs(g, x, e); for (auto& z : roots2(k)) put(want, z); }
		// the constraint may keep a part of the polynomial with the same solutions only
		for (auto it = want.begin(); it != want.end();) if (sign(horner(cf, *it)) != 0) it = want.erase(it); else ++it;
		bool dom = true;
		for (auto& z : zs) {
			bool side = true; for (auto& s : z.side_condition) side = side && holds(s, e);
			if (!side) continue;
			S v; if (!value(z.sqrt_ex, e, v)) { dom = false; VF_CHECK(false, "zeros:domain", d << " at " << estr(e) << " expression " << z); continue; }
			put(got, v);
		}
		if (!dom) continue;
		for (auto& v : got) VF_CHECK(sign(horner(cf, v)) == 0, "zeros:not-a-root", d << " at " << estr(e) << " value " << sstr(v));
		for (auto& v : want) { bool in = false; for (auto& w : got) in = in || same(v, w); VF_CHECK(in, "zeros:missing", d << " at " << estr(e) << " root " << sstr(v)); }
	}
}
// ------------------------------------------------------------ substitution
static void vs_case(vf::Rng& r) {
	size_t x = r.below(3);
	unsigned deg = r.chance(1, 6) ? 3 : static_cast<unsigned>(r.below(3));
	Con c(pu::build(gen_quad(r, x, deg), r), gen_rel(r));
	Parts p = gen_parts(r, x, r.chance(1, 4));
	SX a = mk(p, r);
	bool paper = r.chance(1, 3);
	unsigned kind = static_cast<unsigned>(r.below(4));
	VT t = kind == 0 ? VT::normal(a) : kind == 1 ? VT::plus_eps(a) : kind == 2 ? VT::minus_infty() : VT::plus_infty();
	std::string d = vf::str(c) + " with " + vf::str(t) + " for " + vf::str(V()[x]) + (paper ? " paper" : "");
	vf::note(d); vf::observe(d);
	if (c.isConsistent() != 2) return;
	CD res; bool ok;
	vf::op("virtual-substitution");
	if (paper) { carl::Variables dv; carl::vs::detail::EvalDoubleIntervalMap dm; carl::Variable xv = V()[x]; ok = carl::vs::detail::substitute(c, carl::vs::detail::Substitution<MP>(xv, t), res, true, dv, dm); }
	else { auto o = carl::vs::substitute(c, V()[x], t); ok = static_cast<bool>(o); if (ok) res = *o; }
	if (!ok) return;
	d += " gave " + dstr(res);
	for (auto& k : res) for (auto& q : k) VF_CHECK(!q.hasVariable(V()[x]), "vs:variable-left", d);
	for (int i = 0; i < 14; ++i) {
		Env e = gen_env(r); S v{0, 0, 0};
		if (kind < 2 && !value(a, e, v)) continue;
		auto cf = coeffs(pu::rpoly(c.lhs()), x, e);
		int s;
		if (kind == 0) s = sign(horner(cf, v));
		else if (kind == 1) { s = 0; for (auto k = cf; !k.empty() && s == 0; k = dcoeffs(k)) s = sign(horner(k, v)); }
		else s = cf.empty() ? 0 : sgn(cf.back()) * (kind == 2 && cf.size() % 2 == 0 ? -1 : 1);
		static const char* names[] = {"normal", "epsilon", "minus-infinity", "plus-infinity"};
		VF_CHECK(holds(res, e) == holds(s, c.relation()), std::string("vs:") + names[kind] + (paper ? ":paper" : ""), d << " at " << estr(e) << " expected " << holds(s, c.relation()));
	}
}
static int sign3(const S& x, const Q& c, const Q& v) { // sign of x + c*sqrt(v)
	int a = sign(x), b = sgn(v) > 0 ? sgn(c) : 0;
	if (a == b || b == 0) return a;
	if (a == 0) return b;
	S q = mul(x, x); q.a -= c * c * v;
	int k = sign(q);
	return k == 0 ? 0 : (k > 0 ? a : b);
}
/// comparisons of a variable with a number
static void varcomp_case(vf::Rng& r) {
	size_t x = r.below(3);
	std::vector<Q> c{Q(r.range(-5, 5)), Q(r.range(-5, 5)), Q(r.range(1, 4))};
	S z{r.coin() ? Q(r.range(-4, 4)) : vf::gen_q(r, 9, 4), 0, 0};
	using R = carl::RealAlgebraicNumber<Q>;
	R num(z.a);
	std::string how = vf::str(z.a);
	if (r.chance(3, 4)) {
		auto zs = roots2(c);
		if (!zs.empty()) {
			std::vector<Q> f = c;
			if (r.chance(1, 3)) { Q k(r.range(-6, 6)); f = {-k * c[0], c[0] - k * c[1], c[1] - k * c[2], c[2]}; }
			if (r.coin()) for (auto& y : f) y = -y;
			auto rr = carl::ran::real_roots(UP(V()[x], f));
			// the roots of c among those, largest or smallest
			bool hi = r.coin(); z = hi == (zs.size() == 1 || sign(add(zs[1], S{-zs[0].a, -zs[0].b, zs[0].u})) > 0) ? zs.back() : zs[0];
			bool found = false;
			for (auto& y : rr.roots()) {
				if (y.is_numeric()) { if (same(S{y.value(), 0, 0}, z)) { num = y; found = true; } }
				else { auto i = y.interval(); if (sign(add(z, S{-i.lower(), 0, z.u})) > 0 && sign(add(z, S{-i.upper(), 0, z.u})) < 0) { num = y; found = true; } }
			}
			if (!found) throw std::runtime_error("root not found");
			how = sstr(z);
		}
	}
	Relation rel = gen_rel(r); bool neg = r.coin();
	carl::VariableComparison<MP> vc(V()[x], num, rel, neg);
	Parts p = gen_parts(r, x, r.chance(1, 3));
	SX a = mk(p, r);
	unsigned kind = static_cast<unsigned>(r.below(3));
	VT t = kind == 0 ? VT::normal(a) : kind == 1 ? VT::plus_eps(a) : VT::minus_infty();
	std::string d = vf::str(vc) + " number " + how + " with " + vf::str(t);
	vf::note(d); vf::observe(d);
	vf::op("substitute-comparison");
	auto o = carl::vs::substitute(vc, V()[x], t);
	if (!VF_CHECK(o.has_value(), "varcomp:refused", d)) return;
	if (!VF_CHECK(std::holds_alternative<CD>(*o), "varcomp:kind", d)) return;
	const CD& res = std::get<CD>(*o);
	d += " gave " + dstr(res);
	std::vector<carl::vs::zero<MP>> g;
	VF_CHECK(carl::vs::gather_zeros(vc, V()[x], g) && g.size() == 1, "varcomp:zeros", d);
	if (g.size() == 1) { S v; VF_CHECK(value(g[0].sqrt_ex, Env(ref::NV), v) && same(v, z), "varcomp:zero", d << " zero " << g[0]); }
	for (int i = 0; i < 10; ++i) {
		Env e = gen_env(r); S v{0, 0, 0};
		if (kind < 2 && !value(a, e, v)) continue;
		int s = kind == 2 ? -1 : sign3(S{v.a - z.a, v.b, v.u}, -z.b, z.u);
		if (kind == 1 && s == 0) s = 1;
		VF_CHECK(holds(res, e) == (holds(s, rel) != neg), "varcomp:truth", d << " at " << estr(e) << " expected " << (holds(s, rel) != neg));
	}
}
/// disjunctions of conjunctions: products split into factors, trivial parts removed
static void split_case(vf::Rng& r) {
	CD cd; size_t n = 1 + r.below(3);
	for (size_t i = 0; i < n; ++i) {
		cd.emplace_back(); size_t k = r.below(3);
		for (size_t j = 0; j < k; ++j) {
			ref::Poly p(Q(1)); size_t m = 1 + r.below(3); for (size_t l = 0; l < m; ++l) p = p * (r.chance(1, 5) ? gen_p(r, 9) * gen_p(r, 9) + ref::Poly(Q(1)) : gen_p(r, 9));
			cd.back().push_back(Con(pu::build(p, r), gen_rel(r)));
		}
	}
	std::string d = dstr(cd);
	vf::note(d); vf::observe(d);
	CD s = cd; vf::op("simplify"); carl::vs::detail::simplify(s);
	CD q = cd; bool neq = r.chance(1, 3); vf::op("splitProducts"); bool okq = carl::vs::detail::splitProducts(q, neq);
	std::vector<std::pair<Con, CD>> single;
	for (auto& k : cd) for (auto& c : k) { single.emplace_back(c, carl::vs::detail::splitProducts(c, neq)); }
	CD comb; std::vector<CD> two; two.push_back(cd); two.push_back(CD(cd.rbegin(), cd.rend())); two.push_back(s);
	vf::op("combine"); bool okc = carl::vs::detail::combine(two, comb);
	for (int i = 0; i < 12; ++i) {
		Env e = gen_env(r); bool want = holds(cd, e);
		VF_CHECK(holds(s, e) == want, "split:simplify", d << " gave " << dstr(s) << " at " << estr(e));
		if (okq) VF_CHECK(holds(q, e) == want, std::string("split:products") + (neq ? ":neq" : ""), d << " gave " << dstr(q) << " at " << estr(e));
		if (okc) VF_CHECK(holds(comb, e) == want, "split:combine", d << " gave " << dstr(comb) << " at " << estr(e));
		for (auto& z : single) VF_CHECK(holds(z.second, e) == holds(z.first, e), std::string("split:constraint") + (neq ? ":neq" : ""), z.first << " gave " << dstr(z.second) << " at " << estr(e));
	}
}
int main(int argc, char** argv) {
	V();
	vf::add_group("expression", 6000, 30000, expr_case);
	vf::add_group("substitute", 4000, 20000, sub_case);
	vf::add_group("zeros", 5000, 25000, zeros_case);
	vf::add_group("virtual", 8000, 40000, vs_case);
	vf::add_group("comparison", 2000, 10000, varcomp_case); vf::grows();
	vf::add_group("split", 3000, 15000, split_case);
	return vf::run(argc, argv);
}
