// C03: monomial and term operations against exponent vectors.
#include <polyutil.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/Complexity.h>
using namespace ref;
using pu::mono; using pu::rmono; using pu::V;

using IL = std::initializer_list<std::pair<carl::Variable, carl::exponent>>;
static Mono gen(vf::Rng& r) {
	switch (r.below(8)) {
	case 0: return mone();
	case 1: { Mono m = mone(); m[r.below(NV)] = 1; return m; }
	case 2: { Mono m = mone(); for (auto& e : m) e = static_cast<unsigned>(r.below(4)); return m; }
	case 3: { Mono m = mone(); for (auto& e : m) e = 2 * static_cast<unsigned>(r.below(3)); return m; }
	case 4: { Mono m = mone(); m[r.below(NV)] = static_cast<unsigned>(r.range(1, 1000000)); if (r.coin()) m[r.below(NV)] = static_cast<unsigned>(r.range(0, 70000)); return m; }
	case 5: { Mono m = mone(); m[r.below(NV)] = static_cast<unsigned>(r.below(3)); m[r.below(NV)] = static_cast<unsigned>(r.below(3)); return m; }
	default: return pu::gen_mono(r, 3);
	}
}
// a monomial related to m (multiple, divisor, neighbour)
static Mono related(const Mono& m, vf::Rng& r) {
	Mono n = m;
	size_t k = 1 + r.below(2);
	for (size_t i = 0; i < k; ++i) {
		size_t v = r.below(NV);
		switch (r.below(4)) {
		case 0: n[v] += 1 + static_cast<unsigned>(r.below(3)); break;
		case 1: if (n[v]) n[v]--; break;
		case 2: n[v] = 0; break;
		default: std::swap(n[v], n[r.below(NV)]);
		}
	}
	return n;
}
static void ckm(const MA& got, const Mono& want, const char* key, const std::string& d) {
	vf::op(key);
	bool one = mdeg(want) == 0;
	VF_CHECK((got == nullptr) == one || (one && got && got->exponents().empty()), std::string(key) + ":null", d << " gave " << got);
	VF_CHECK(rmono(got) == want, key, d << " gave " << got << " expected 1" << mstr(want));
	if (got) {
		unsigned long td = 0;
		bool sorted = true;
		for (size_t i = 0; i < got->exponents().size(); ++i) {
			td += got->exponents()[i].second;
			if (got->exponents()[i].second == 0) sorted = false;
			if (i && !(got->exponents()[i - 1].first < got->exponents()[i].first)) sorted = false;
		}
		VF_CHECK(sorted && td == got->tdeg(), std::string(key) + ":canonical", d << " gave malformed " << got << " with degree " << got->tdeg());
	}
}
static int cres(carl::CompareResult c) { return c == carl::CompareResult::LESS ? -1 : c == carl::CompareResult::EQUAL ? 0 : 1; }

static void pair_case(vf::Rng& r) {
	Mono a = gen(r), b = r.coin() ? gen(r) : related(a, r);
	MA x = mono(a), y = mono(b);
	std::string d = "1" + mstr(a) + " , 1" + mstr(b);
	vf::note(d);
	vf::observe(d);
	ckm(x, a, "mono.create", d);
	ckm(x * y, mmul(a, b), "mono.mul", d);
	size_t v = r.below(NV), w = r.below(NV);
	Mono mv = mone(), mw = mone(); mv[v] = 1; mw[w] = 1;
	ckm(x * V()[v], mmul(a, mv), "mono.mul-var", d + " var " + std::to_string(v));
	ckm(V()[v] * x, mmul(a, mv), "mono.var-mul", d + " var " + std::to_string(v));
	ckm(V()[v] * V()[w], mmul(mv, mw), "mono.var-var", std::to_string(v) + "," + std::to_string(w));
	ckm(carl::Monomial::lcm(x, y), mlcm(a, b), "mono.lcm", d);
	if (x && y) ckm(carl::gcd(x, y), mgcd(a, b), "mono.gcd", d);
	else { MA g = carl::gcd(x, y); VF_CHECK(g == nullptr || g == x || g == y, "mono.gcd-one", d << " gave " << g); } // documented: the other argument
	if (x || y) ckm(carl::Monomial::calcLcmAndDivideBy(x, y), mquo(mlcm(a, b), b), "mono.lcmdiv", d);
	if (x) {
		VF_CHECK(x->divisible(y) == mdivides(b, a), "mono.divisible", d << " -> " << x->divisible(y));
		MA q;
		bool ok = x->divide(y, q);
		vf::op(ok ? "mono.divide-yes" : "mono.divide-no");
		VF_CHECK(ok == mdivides(b, a), "mono.divide-verdict", d << " -> " << ok);
		if (ok && mdivides(b, a)) ckm(q, mquo(a, b), "mono.divide", d);
		MA q2;
		bool okv = x->divide(V()[v], q2);
		VF_CHECK(okv == (a[v] > 0), "mono.divide-var-verdict", d << " var " << v);
		if (okv && a[v]) ckm(q2, mquo(a, mv), "mono.divide-var", d);
		Mono dr = a; dr[v] = 0;
		ckm(x->dropVariable(V()[v]), dr, "mono.drop", d + " var " + std::to_string(v));
		bool sq = true; Mono half = mone();
		for (size_t i = 0; i < NV; ++i) { if (a[i] % 2) sq = false; half[i] = a[i] / 2; }
		VF_CHECK(x->isSquare() == sq, "mono.isSquare", d);
		MA s = x->sqrt();
		if (sq) ckm(s, half, "mono.sqrt", d); else VF_CHECK(s == nullptr, "mono.sqrt-none", d << " gave " << s);
		Mono sep = mone(); size_t nv = 0; bool isint = true;
		for (size_t i = 0; i < NV; ++i) if (a[i]) { sep[i] = 1; ++nv; if (V()[i].type() != carl::VariableType::VT_INT) isint = false; }
		ckm(carl::separable_part(*x), sep, "mono.separable", d);
		VF_CHECK(x->tdeg() == mdeg(a) && carl::total_degree(*x) == mdeg(a), "mono.tdeg", d << " tdeg " << x->tdeg());
		VF_CHECK(x->exponentOfVariable(V()[v]) == a[v], "mono.exponent", d);
		VF_CHECK(x->has(V()[v]) == (a[v] > 0), "mono.has", d);
		VF_CHECK(x->nrVariables() == nv, "mono.nrVariables", d);
		VF_CHECK(x->integerValued() == isint, "mono.integerValued", d);
		VF_CHECK(!x->isConstant() && x->isLinear() == (mdeg(a) == 1) && x->isAtMostLinear() == (mdeg(a) <= 1), "mono.linear", d);
		bool only = true;
		for (size_t i = 0; i < NV; ++i) if (i != v && a[i]) only = false;
		VF_CHECK(x->hasNoOtherVariable(V()[v]) == only, "mono.hasNoOtherVariable", d << " var " << v);
		if (nv == 1) VF_CHECK(a[pu::vi(x->getSingleVariable())] > 0, "mono.singleVariable", d);
		carl::carlVariables vs;
		carl::variables(*x, vs);
		VF_CHECK(vs.size() == nv, "mono.variables", d);
		for (size_t i = 0; i < NV; ++i) if (a[i]) VF_CHECK(vs.has(V()[i]), "mono.variables", d);
		unsigned n = static_cast<unsigned>(r.below(4));
		auto dv = carl::derivative(x, V()[v], n);
		mpz_class f = 1; for (unsigned i = 0; i < n; ++i) f *= (a[v] >= i ? a[v] - i : 0);
		vf::op("mono.derivative");
		VF_CHECK(mpz_class(static_cast<unsigned long>(dv.first)) == f, "mono.derivative-factor", d << " var " << v << " n " << n << " gave " << dv.first);
		if (f != 0) { Mono da = a; da[v] -= n; ckm(dv.second, da, "mono.derivative", d + " var " + std::to_string(v) + " n " + std::to_string(n)); }
		if (mdeg(a) < 40) {
			std::map<carl::Variable, Q> ev;
			Q e = 1;
			for (size_t i = 0; i < NV; ++i) { Q c = vf::gen_q(r); ev[V()[i]] = c; e *= qpow(c, a[i]); }
			VF_CHECK(carl::evaluate(*x, ev) == e, "mono.evaluate", d);
		}
	}
	unsigned k = static_cast<unsigned>(r.below(r.chance(1, 8) ? 80 : 6));
	Mono pk = a; for (auto& e : pk) e *= k;
	ckm(carl::pow(x, k), pk, "mono.pow", d + " ^ " + std::to_string(k));
	Mono vk = mone(); vk[v] = k + 1;
	ckm(carl::pow(V()[v], k + 1), vk, "mono.varpow", std::to_string(v));
	// comparison
	int want = mcmp(a, b);
	VF_CHECK(cres(carl::Monomial::compareGradedLexical(x, y)) == want, "mono.cmp-graded", d);
	VF_CHECK((x < y) == (want < 0) && (x > y) == (want > 0) && (x <= y) == (want <= 0) && (x >= y) == (want >= 0) && (x == y) == (want == 0) && (x != y) == (want != 0), "mono.operators", d);
	VF_CHECK(carl::GrLexOrdering::less(x, y) == (want < 0) && carl::GrLexOrdering::equal(x, y) == (want == 0), "mono.ordering", d);
	int wv = mcmp(a, mv);
	VF_CHECK((x < V()[v]) == (wv < 0) && (V()[v] < x) == (wv > 0) && (x == V()[v]) == (wv == 0) && (x <= V()[v]) == (wv <= 0) && (x >= V()[v]) == (wv >= 0) && (x > V()[v]) == (wv > 0), "mono.operators-var", d << " var " << v);
	if (want == 0) VF_CHECK(std::hash<MA>()(x) == std::hash<MA>()(y) && x.get() == y.get(), "mono.unique", d);
}
static void order_case(vf::Rng& r) {
	Mono a = gen(r), b = r.coin() ? gen(r) : related(a, r), c = r.coin() ? gen(r) : related(b, r);
	MA x = mono(a), y = mono(b), z = mono(c);
	std::string d = "1" + mstr(a) + " , 1" + mstr(b) + " , 1" + mstr(c);
	vf::note(d); vf::observe(d);
	vf::op("mono.order-axioms");
	auto ax = [&](auto less, const char* n, bool grad) {
		std::string k = std::string("mono.order.") + n;
		VF_CHECK(!less(x, x), k + ":irreflexive", d);
		VF_CHECK(!(less(x, y) && less(y, x)), k + ":antisymmetric", d);
		VF_CHECK(less(x, y) || less(y, x) || a == b, k + ":total", d);
		VF_CHECK(!(less(x, y) && less(y, z)) || less(x, z), k + ":transitive", d);
		if (x) VF_CHECK(less(MA(), x), k + ":one-lowest", d);
		VF_CHECK(less(x, y) == less(x * z, y * z), k + (grad ? ":multiplicative" : ":multiplicative-lex"), d);
	};
	ax([](const MA& p, const MA& q) { return p < q; }, "graded", true);
	ax([](const MA& p, const MA& q) { return carl::Monomial::compareLexical(p, q) == carl::CompareResult::LESS; }, "lex", false);
}
static void create_case(vf::Rng& r) {
	// creation from unsorted lists, totals given or not
	Mono a = gen(r);
	if (mdeg(a) == 0) a[0] = 1;
	std::vector<std::pair<carl::Variable, carl::exponent>> c;
	for (size_t i = 0; i < NV; ++i) if (a[i]) c.emplace_back(V()[i], a[i]);
	std::string d = "1" + mstr(a);
	vf::observe(d);
	MA ref = mono(a);
	auto sorted = c;
	ckm(carl::createMonomial(std::vector<std::pair<carl::Variable, carl::exponent>>(sorted)), a, "mono.create-list", d);
	ckm(carl::createMonomial(std::vector<std::pair<carl::Variable, carl::exponent>>(sorted), carl::exponent(mdeg(a))), a, "mono.create-list-deg", d);
	for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
	MA u;
	if (c.size() == 1) u = carl::createMonomial(IL{c[0]});
	else if (c.size() == 2) u = carl::createMonomial(IL{c[0], c[1]});
	else if (c.size() == 3) u = carl::createMonomial(IL{c[0], c[1], c[2]});
	else if (c.size() == 4) u = carl::createMonomial(IL{c[0], c[1], c[2], c[3]});
	else return;
	ckm(u, a, "mono.create-unsorted", d);
	VF_CHECK(u.get() == ref.get(), "mono.unique-unsorted", d);
}
static Poly rp(const TQ& t) { return pu::rpoly(t); }
static void term_case(vf::Rng& r) {
	Mono a = gen(r), b = r.coin() ? gen(r) : related(a, r);
	Q ca = r.chance(1, 8) ? Q(0) : pu::gen_c(r), cb = pu::gen_c(r);
	if (r.chance(1, 4)) ca = ca * ca;
	TQ s = ca == 0 ? TQ() : TQ(ca, mono(a)), t(cb, mono(b));
	if (ca == 0) a = mone();
	Poly ps(ca, a), pt(cb, b);
	size_t v = r.below(NV);
	std::string d = ps.str() + " , " + pt.str() + " var " + std::to_string(v);
	vf::note(d); vf::observe(d);
	vf::op("term.all");
	VF_CHECK(rp(s * t) == ps * pt, "term.mul", d << " gave " << s * t);
	VF_CHECK(rp(s * mono(b)) == ps * Poly(1, b), "term.mul-mono", d);
	VF_CHECK(rp(mono(b) * s) == ps * Poly(1, b), "term.mono-mul", d);
	VF_CHECK(rp(s * V()[v]) == ps * Poly::var(v), "term.mul-var", d);
	VF_CHECK(rp(V()[v] * s) == ps * Poly::var(v), "term.var-mul", d);
	VF_CHECK(rp(s * cb) == scale(ps, cb), "term.mul-c", d);
	VF_CHECK(rp(cb * s) == scale(ps, cb), "term.c-mul", d);
	VF_CHECK(rp(s * Q(0)).zero(), "term.mul-zero", d);
	VF_CHECK(rp(-s) == -ps, "term.neg", d);
	VF_CHECK(rp(s / cb) == scale(ps, 1 / cb), "term.div-c", d);
	VF_CHECK(rp(TQ(cb, V()[v], 3)) == scale(ppow(Poly::var(v), 3), cb), "term.ctor", d);
	VF_CHECK(rp(V()[v] * cb) == scale(Poly::var(v), cb) && rp(cb * V()[v]) == scale(Poly::var(v), cb), "term.var-c", d);
	VF_CHECK(rp(mono(b) * cb) == pt && rp(cb * mono(b)) == pt, "term.mono-c", d);
	VF_CHECK(s.tdeg() == mdeg(a), "term.tdeg", d);
	VF_CHECK(s.isConstant() == (mdeg(a) == 0) && s.isLinear() == (mdeg(a) <= 1) && s.has(V()[v]) == (a[v] > 0), "term.queries", d);
	{
		TQ q; bool dv = t.divide(TQ(ca == 0 ? Q(1) : ca, mono(a)), q);
		VF_CHECK(dv == mdivides(a, b), "term.divide-verdict", d);
		if (dv && mdivides(a, b)) VF_CHECK(rp(q) == Poly(cb / (ca == 0 ? Q(1) : ca), mquo(b, a)), "term.divide", d << " gave " << q);
		TQ q1; bool d1 = cb != 0 && s.divide(cb, q1);
		if (cb != 0) VF_CHECK(d1 && rp(q1) == scale(ps, 1 / cb) && rp(s.divide(cb)) == scale(ps, 1 / cb), "term.divide-number", d << " gave " << q1);
		VF_CHECK(rp(s / static_cast<carl::uint>(7)) == scale(ps, Q(1, 7)), "term.divide-uint", d);
		VF_CHECK(t.divisible(TQ(Q(2), mono(a))) == mdivides(a, b), "term.divisible", d);
		TQ q2; bool d2 = t.divide(mono(a), q2);
		VF_CHECK(d2 == mdivides(a, b), "term.divide-mono-verdict", d);
		if (d2 && mdivides(a, b)) VF_CHECK(rp(q2) == Poly(cb, mquo(b, a)), "term.divide-mono", d);
		TQ q3; bool d3 = carl::try_divide(t, V()[v], q3);
		VF_CHECK(d3 == (b[v] > 0), "term.divide-var-verdict", d);
		if (d3 && b[v]) { Mono mv = mone(); mv[v] = 1; VF_CHECK(rp(q3) == Poly(cb, mquo(b, mv)), "term.divide-var", d); }
		TQ q4; if (carl::try_divide(t, cb, q4)) VF_CHECK(rp(q4) == Poly(1, b), "term.divide-coeff", d);
	}
	if (t.monomial()) VF_CHECK(rp(t.dropVariable(V()[v])) == [&] { Mono m = b; m[v] = 0; return Poly(cb, m); }(), "term.drop", d);
	{
		TQ rt; Q c2 = cb * cb; Mono b2 = mmul(b, b);
		bool ok = TQ(c2, mono(b2)).sqrt(rt);
		VF_CHECK(ok, "term.sqrt-verdict", d);
		if (ok) VF_CHECK(rp(rt) * rp(rt) == Poly(c2, b2), "term.sqrt", d);
		bool ok2 = t.sqrt(rt);
		if (ok2) VF_CHECK(rp(rt) * rp(rt) == pt, "term.sqrt-sound", d);
		bool sq = true; for (auto e : b) if (e % 2) sq = false;
		VF_CHECK(t.isSquare() == (sq && cb >= 0), "term.isSquare", d);
	}
	if (mdeg(a) < 30) {
		unsigned k = static_cast<unsigned>(r.below(r.chance(1, 10) ? 30 : 5));
		if (ca != 0) VF_CHECK(rp(carl::pow(s, k)) == ppow(ps, k), "term.pow", d << "^" << k);
		std::map<carl::Variable, Q> sub; std::map<size_t, Poly> rsub;
		for (size_t i = 0; i < NV; ++i) if (r.coin()) { Q c = vf::gen_q(r); sub[V()[i]] = c; rsub[i] = Poly(c); }
		VF_CHECK(rp(carl::substitute(s, sub)) == subst(ps, rsub), "term.substitute", d);
	}
	if (mdeg(b) < 1000) VF_CHECK(rp(carl::derivative(t, V()[v], 1)) == deriv(pt, v), "term.derivative", d);
	int mc = mcmp(a, b);
	int want = mc ? mc : (ca < cb ? -1 : ca > cb ? 1 : 0);
	VF_CHECK((s < t) == (want < 0) && (s > t) == (want > 0) && (s <= t) == (want <= 0) && (s >= t) == (want >= 0) && (s == t) == (want == 0) && (s != t) == (want != 0), "term.compare", d);
	if (want == 0) VF_CHECK(std::hash<TQ>()(s) == std::hash<TQ>()(t), "term.hash", d);
}
int main(int argc, char** argv) {
	V();
	vf::add_group("pair", 60000, 1500000, pair_case);
	vf::add_group("order", 60000, 1500000, order_case);
	vf::add_group("create", 10000, 200000, create_case);
	vf::add_group("term", 40000, 1000000, term_case);
	return vf::run(argc, argv);
}
