// C05: multivariate polynomial arithmetic against the sparse reference model.
#include <polyutil.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
using namespace ref;
using pu::mono; using pu::V;
using ZMP = carl::MultivariatePolynomial<Z>;
using CO = MP::ConstructorOperation;

template<typename A, typename B>
static void bin(const A& a, const Poly& ra, const B& b, const Poly& rb, const std::string& key, const std::string& d) {
	vf::op("op." + key);
	CK(MP(a + b), ra + rb, "mp.add." + key, d);
	CK(MP(a - b), ra - rb, "mp.sub." + key, d);
	CK(MP(a * b), ra * rb, "mp.mul." + key, d);
}
template<typename B>
static void inplace(const MP& a, const Poly& ra, const B& b, const Poly& rb, const std::string& key, const std::string& d) {
	MP x = a; x += b; CK(x, ra + rb, "mp.iadd." + key, d);
	MP y = a; y -= b; CK(y, ra - rb, "mp.isub." + key, d);
	MP z = a; z *= b; CK(z, ra * rb, "mp.imul." + key, d);
}
/// an operand related to the polynomial: one of its own terms / negated / constant part
static Poly operand_term(const Poly& p, vf::Rng& r) {
	if (!p.zero() && r.chance(2, 3)) {
		auto it = p.t.begin();
		std::advance(it, r.below(p.t.size()));
		Mono m = r.chance(1, 3) ? p.lmon() : it->first;
		Q c = p.t.at(m);
		switch (r.below(4)) { case 0: c = -c; break; case 1: c = pu::gen_c(r); break; case 2: c = c > 0 ? 1 : -1; break; default: break; }
		return Poly(c, m);
	}
	return Poly(pu::gen_c(r), pu::gen_mono(r));
}
static void ops_case(vf::Rng& r) {
	// now and then long operands, or few terms with high powers
	bool big = r.chance(1, 25), high = !big && r.chance(1, 15);
	Poly ra = big ? pu::gen_poly(r, 40, 4) : high ? pu::gen_poly(r, 4, 30) : pu::gen_poly(r), rb = big ? pu::gen_poly(r, 20, 4) : high ? pu::gen_poly(r, 4, 30) : pu::gen_poly(r);
	if (r.chance(1, 5)) rb = r.coin() ? -ra : ra;
	else if (r.chance(1, 4) && !ra.zero()) { rb = -Poly(ra.lcoeff(), ra.lmon()) + pu::gen_poly(r, 2); }
	MP a = pu::build(ra, r), b = pu::build(rb, r);
	Poly rt = operand_term(ra, r);
	TQ t(rt.t.begin()->second, mono(rt.t.begin()->first));
	Mono m = rt.t.begin()->first;
	// coefficients of +-1 on a chosen monomial make monomial operands cancel
	if (r.chance(1, 3)) { ra = ra - Poly(ra.coeff(m), m) + Poly(r.coin() ? 1 : -1, m); a = pu::build(ra, r); }
	size_t v = r.below(NV);
	if (r.chance(1, 4)) { Mono mv = mone(); mv[v] = 1; ra = ra - Poly(ra.coeff(mv), mv) + Poly(r.coin() ? 1 : -1, mv); a = pu::build(ra, r); }
	Q c = r.chance(1, 6) ? Q(0) : r.chance(1, 3) ? Q(-ra.constpart()) : vf::gen_q(r);
	std::string d = ra.str() + " ; " + rb.str() + " ; term " + rt.str() + " ; v" + std::to_string(v) + " ; " + c.get_str();
	vf::note(d); vf::observe(d);
	CK(a, ra, "mp.build", d);
	bin(a, ra, b, rb, "poly-poly", d);
	bin(a, ra, t, rt, "poly-term", d); bin(t, rt, a, ra, "term-poly", d);
	MA mm = mono(m);
	Poly rm(1, m);
	bin(a, ra, mm, rm, mm ? "poly-mono" : "poly-one", d); bin(mm, rm, a, ra, mm ? "mono-poly" : "one-poly", d);
	bin(a, ra, V()[v], Poly::var(v), "poly-var", d); bin(V()[v], Poly::var(v), a, ra, "var-poly", d);
	bin(a, ra, c, Poly(c), "poly-num", d); bin(c, Poly(c), a, ra, "num-poly", d);
	// polynomials arising from non-polynomial operands
	{
		TQ t2(pu::gen_c(r), mono(r.coin() ? m : pu::gen_mono(r))); Poly rt2 = pu::rpoly(t2);
		CK(t + t2, rt + rt2, "mp.add.term-term", d); CK(t - t2, rt - rt2, "mp.sub.term-term", d);
		CK(t + V()[v], rt + Poly::var(v), "mp.add.term-var", d); CK(t - V()[v], rt - Poly::var(v), "mp.sub.term-var", d);
		CK(V()[v] + t, rt + Poly::var(v), "mp.add.var-term", d); CK(V()[v] - t, Poly::var(v) - rt, "mp.sub.var-term", d);
		CK(t + c, rt + Poly(c), "mp.add.term-num", d); CK(t - c, rt - Poly(c), "mp.sub.term-num", d);
		CK(c + t, rt + Poly(c), "mp.add.num-term", d); CK(c - t, Poly(c) - rt, "mp.sub.num-term", d);
		CK(V()[v] + c, Poly::var(v) + Poly(c), "mp.add.var-num", d); CK(V()[v] - c, Poly::var(v) - Poly(c), "mp.sub.var-num", d);
		CK(c + V()[v], Poly::var(v) + Poly(c), "mp.add.num-var", d); CK(c - V()[v], Poly(c) - Poly::var(v), "mp.sub.num-var", d);
		if (mm) {
			CK(t + mm, rt + rm, "mp.add.term-mono", d); CK(t - mm, rt - rm, "mp.sub.term-mono", d);
			CK(mm + t, rt + rm, "mp.add.mono-term", d); CK(mm - t, rm - rt, "mp.sub.mono-term", d);
			CK(mm + c, rm + Poly(c), "mp.add.mono-num", d); CK(mm - c, rm - Poly(c), "mp.sub.mono-num", d);
			CK(c + mm, rm + Poly(c), "mp.add.num-mono", d); CK(c - mm, Poly(c) - rm, "mp.sub.num-mono", d);
		}
	}
	inplace(a, ra, b, rb, "poly", d);
	inplace(a, ra, t, rt, "term", d);
	inplace(a, ra, mm, rm, mm ? "mono" : "one", d);
	inplace(a, ra, V()[v], Poly::var(v), "var", d);
	inplace(a, ra, c, Poly(c), "num", d);
	inplace(a, ra, TQ(Q(0), nullptr), Poly(), "zero-term", d);
	{ MP x = a; x += x; CK(x, scale(ra, 2), "mp.iadd.self", d); }
	{ MP x = a; x -= x; CK(x, Poly(), "mp.isub.self", d); }
	{ MP x = a; x *= x; CK(x, ra * ra, "mp.imul.self", d); }
	CK(-a, -ra, "mp.neg", d);
	if (c != 0) { CK(a / c, scale(ra, 1 / c), "mp.div.num", d); MP x = a; x /= c; CK(x, scale(ra, 1 / c), "mp.idiv.num", d); CK(carl::divide(a, c), scale(ra, 1 / c), "mp.divide.num", d); }
	CK(a / 3ul, scale(ra, Q(1, 3)), "mp.div.ulong", d);
	{ MP x = a; x.subtractProduct(t, b); CK(x, ra - rt * rb, ra.zero() ? "mp.subtractProduct-zero" : "mp.subtractProduct", d); }
	{ MP x = a; x.addTerm(t); CK(x, ra + rt, "mp.addTerm", d); }
	unsigned e = static_cast<unsigned>(r.below(ra.t.size() > 10 ? 3 : ra.t.size() > 3 ? 4 : ra.t.size() > 2 ? 7 : 20));
	if (!(ra.zero() && e == 0)) CK(carl::pow(a, e), ppow(ra, e), "mp.pow", d << " ^ " << e);
	else CK(carl::pow(a, e), Poly(1), "mp.pow-zero-zero", d);
	if (e) CK(carl::pow_naive(a, e), ppow(ra, e), "mp.pow_naive", d << " ^ " << e);
	// constructor forms
	CK(MP(CO::ADD, std::vector<MP>({a, b, a})), ra + rb + ra, "mp.ctor.add", d);
	CK(MP(CO::SUB, std::vector<MP>({a, b, a})), ra - rb - ra, "mp.ctor.sub", d);
	CK(MP(CO::SUB, std::vector<MP>({a})), -ra, "mp.ctor.minus", d);
	CK(MP(CO::MUL, std::vector<MP>({a, b})), ra * rb, "mp.ctor.mul", d);
	if (c != 0) CK(MP(CO::DIV, std::vector<MP>({a, MP(c), MP(Q(2))})), scale(ra, 1 / (2 * c)), "mp.ctor.div", d);
	// operands stay what they were
	CK(a, ra, "mp.operand-changed", d); CK(b, rb, "mp.operand-changed", d);
}
static void query_case(vf::Rng& r) {
	Poly ra = r.chance(1, 12) ? (r.coin() ? pu::gen_poly(r, 50, 5) : pu::gen_poly(r, 5, 40)) : pu::gen_poly(r, 8), rb = r.chance(1, 3) ? ra : pu::gen_poly(r, 4);
	MP a = pu::build(ra, r), b = pu::build(rb, r);
	size_t v = r.below(NV);
	std::string d = ra.str() + " ; " + rb.str() + " ; v" + std::to_string(v);
	vf::note(d); vf::observe(d); vf::op("mp.query");
	VF_CHECK(carl::isZero(a) == ra.zero() && carl::is_zero(a) == ra.zero(), "mp.isZero", d);
	VF_CHECK(carl::isOne(a) == (ra == Poly(1)) && carl::is_one(a) == (ra == Poly(1)), "mp.isOne", d);
	VF_CHECK(a.isConstant() == ra.constant() && carl::is_constant(a) == ra.constant() && a.isNumber() == ra.constant(), "mp.isConstant", d);
	VF_CHECK(a.nrTerms() == ra.t.size() && a.size() == ra.t.size(), "mp.nrTerms", d);
	VF_CHECK(a.constantPart() == ra.constpart(), "mp.constantPart", d);
	VF_CHECK(a.hasConstantTerm() == (ra.constpart() != 0), "mp.hasConstantTerm", d);
	VF_CHECK(a.totalDegree() == ra.tdeg() && carl::total_degree(a) == ra.tdeg(), "mp.totalDegree", d);
	VF_CHECK(a.isLinear() == (ra.tdeg() <= 1), "mp.isLinear", d);
	if (!ra.constant()) VF_CHECK(carl::is_linear(a) == (ra.tdeg() <= 1), "mp.is_linear", d);
	VF_CHECK(a.degree(V()[v]) == ra.deg(v), "mp.degree", d);
	VF_CHECK(a.has(V()[v]) == ra.has(v), "mp.has", d);
	size_t nv = 0, one = 0; for (size_t i = 0; i < NV; ++i) if (ra.has(i)) { ++nv; one = i; }
	VF_CHECK(a.isUnivariate() == (nv <= 1), "mp.isUnivariate", d);
	if (nv == 1 && ra.t.size() == 1) VF_CHECK(a.getSingleVariable() == V()[one], "mp.getSingleVariable", d);
	VF_CHECK(a.isVariable() == (nv == 1 && ra == Poly::var(one)), "mp.isVariable", d);
	bool tsos = true, intv = true;
	for (auto& [m, c] : ra.t) { if (c < 0) tsos = false; if (c.get_den() != 1) intv = false; for (size_t i = 0; i < NV; ++i) { if (m[i] % 2) tsos = false; if (m[i] && V()[i].type() != carl::VariableType::VT_INT) intv = false; } }
	VF_CHECK(a.isTsos() == tsos, "mp.isTsos", d);
	VF_CHECK(a.integerValued() == intv, "mp.integerValued", d);
	for (unsigned e = 0; e <= ra.deg(v) + 1; ++e) CK(a.coeff(V()[v], e), ra.coeff_in(v, e), "mp.coeff", d << " exponent " << e);
	if (!ra.zero()) {
		CK(a.lcoeff(V()[v]), ra.coeff_in(v, ra.deg(v)), "mp.lcoeff-var", d);
		VF_CHECK(a.lcoeff() == ra.lcoeff(), "mp.lcoeff", d);
		Poly lt(ra.lcoeff(), ra.lmon());
		CK(a.tail(), ra - lt, "mp.tail", d);
		CK(a.tail(true), ra - lt, "mp.tail-ordered", d);
		MP s = a; s.stripLT(); CK(s, ra - lt, "mp.stripLT", d);
		// coprime coefficients
		mpz_class g = 0, l = 1;
		for (auto& [m, c] : ra.t) { g = gcd(g, c.get_num()); l = lcm(l, c.get_den()); }
		Q f(l, g); f.canonicalize();
		if (ra.lcoeff() < 0) f = -f;
		VF_CHECK(a.coprimeFactor() == f, "mp.coprimeFactor", d << " gave " << a.coprimeFactor());
		CK(a.coprimeCoefficients(), scale(ra, f), "mp.coprimeCoefficients", d);
		CK(a.coprimeCoefficientsSignPreserving(), scale(ra, abs(f)), "mp.coprimeCoefficientsSignPreserving", d);
		if (!ra.constant()) {
			mpz_class g2 = 0, l2 = 1;
			for (auto& [m, c] : ra.t) if (mdeg(m)) { g2 = gcd(g2, c.get_num()); l2 = lcm(l2, c.get_den()); }
			Q f2(l2, g2); f2.canonicalize();
			if (ra.lcoeff() < 0) f2 = -f2;
			VF_CHECK(a.coprimeFactorWithoutConstant() == f2, "mp.coprimeFactorWithoutConstant", d << " gave " << a.coprimeFactorWithoutConstant() << " expected " << f2);
		}
		CK(a.normalize(), scale(ra, 1 / ra.lcoeff()), "mp.normalize", d);
		VF_CHECK(a.mainDenom() == l, "mp.mainDenom", d);
		MP q; bool ok = MP(a.lterm() * a.lterm()).sqrt(q);
		VF_CHECK(ok, "mp.sqrt-verdict", d);
		if (ok) VF_CHECK(pu::rpoly(q) * pu::rpoly(q) == lt * lt, "mp.sqrt", d);
	} else {
		CK(a.coprimeCoefficients(), ra, "mp.coprimeCoefficients", d);
		CK(a.normalize(), ra, "mp.normalize", d);
	}
	MP q; if (a.sqrt(q)) VF_CHECK(pu::rpoly(q) * pu::rpoly(q) == ra, "mp.sqrt-sound", d);
	VF_CHECK((a == b) == (ra == rb) && (a != b) == (ra != rb), "mp.eq", d);
	if (ra == rb) VF_CHECK(std::hash<MP>()(a) == std::hash<MP>()(b), "mp.hash", d);
	a.makeOrdered(); CK(a, ra, "mp.makeOrdered", d);
	// copies, moves, self-assignment
	MP c(a); CK(c, ra, "mp.copy", d);
	MP m(std::move(c)); CK(m, ra, "mp.move", d);
	c = m; CK(c, ra, "mp.assign", d);
	MP e; e = std::move(c); CK(e, ra, "mp.move-assign", d);
	e = *&e; CK(e, ra, "mp.self-assign", d);
}
// random histories over a few live polynomials, in-place forms only
static void history_case(vf::Rng& r) {
	const size_t K = 3;
	std::vector<MP> x(K); std::vector<Poly> rx(K);
	for (size_t i = 0; i < K; ++i) { rx[i] = pu::gen_poly(r, 4, 2, 3); x[i] = pu::build(rx[i], r); }
	std::string d;
	for (size_t i = 0; i < K; ++i) d += "x" + std::to_string(i) + "=" + rx[i].str() + "; ";
	int n = static_cast<int>(r.range(4, 14));
	for (int s = 0; s < n; ++s) {
		size_t i = r.below(K), j = r.below(K), v = r.below(3);
		Poly t = operand_term(rx[i], r);
		TQ tt(t.t.begin()->second, mono(t.t.begin()->first));
		Q c = r.coin() ? Q(-rx[i].constpart()) : vf::gen_q(r);
		std::ostringstream o;
		unsigned k = static_cast<unsigned>(r.below(14));
		o << "op" << k << "(" << i << "," << j << "," << t.str() << ",v" << v << "," << c << ") ";
		d += o.str();
		vf::note(d);
		switch (k) {
		case 0: x[i] += x[j]; rx[i] = rx[i] + rx[j]; break;
		case 1: x[i] -= x[j]; rx[i] = rx[i] - rx[j]; break;
		case 2: if (rx[i].t.size() * rx[j].t.size() > 40) break; x[i] *= x[j]; rx[i] = rx[i] * rx[j]; break;
		case 3: x[i] += tt; rx[i] = rx[i] + t; break;
		case 4: x[i] -= tt; rx[i] = rx[i] - t; break;
		case 5: x[i] += tt.monomial(); rx[i] = rx[i] + Poly(1, t.t.begin()->first); break;
		case 6: x[i] -= tt.monomial(); rx[i] = rx[i] - Poly(1, t.t.begin()->first); break;
		case 7: x[i] += V()[v]; rx[i] = rx[i] + Poly::var(v); break;
		case 8: x[i] -= V()[v]; rx[i] = rx[i] - Poly::var(v); break;
		case 9: x[i] += c; rx[i] = rx[i] + Poly(c); break;
		case 10: x[i].addTerm(tt); rx[i] = rx[i] + t; break;
		case 11: if (rx[j].t.size() > 12) break; x[i].subtractProduct(tt, x[j]); rx[i] = rx[i] - t * rx[j]; break;
		case 12: if (!rx[i].zero()) { x[i].stripLT(); rx[i].t.erase(rx[i].lmon()); } break;
		default: x[i].makeOrdered(); break;
		}
		vf::op("mp.history.op" + std::to_string(k));
		std::string why;
		std::string key = "mp.history.op" + std::to_string(k);
		if (!VF_CHECK(pu::canonical(x[i], why), key + ":canonical", d << ": " << why << " in " << x[i])) return;
		if (!VF_CHECK(pu::rpoly(x[i]) == rx[i], key, d << " gave " << x[i] << " expected " << rx[i].str())) return;
	}
	vf::observe(d);
}
// integer coefficients
static void int_case(vf::Rng& r) {
	auto gen = [&] { Poly p; size_t n = r.below(6); for (size_t i = 0; i < n; ++i) p.add(pu::gen_mono(r, 3), Q(r.chance(1, 6) ? vf::gen_mpz(r) : vf::gen_small(r, 6))); return p; };
	auto mk = [&](const Poly& p) { std::vector<carl::Term<Z>> ts; for (auto& [m, c] : p.t) ts.emplace_back(Z(c.get_num()), mono(m)); return ZMP(ts, false, false); };
	Poly ra = gen(), rb = gen();
	ZMP a = mk(ra), b = mk(rb);
	std::string d = ra.str() + " ; " + rb.str();
	vf::note(d); vf::observe(d); vf::op("mp.int");
	auto ck = [&](const ZMP& got, const Poly& want, const char* k) {
		std::string why;
		VF_CHECK(pu::canonical(got, why), std::string("mpz.") + k + ":canonical", d << ": " << why << " in " << got);
		VF_CHECK(pu::rpoly(got) == want, std::string("mpz.") + k, d << " gave " << got << " expected " << want.str());
	};
	ck(a + b, ra + rb, "add"); ck(a - b, ra - rb, "sub"); ck(a * b, ra * rb, "mul"); ck(-a, -ra, "neg");
	Z c = vf::gen_mpz(r);
	ck(a + c, ra + Poly(Q(c)), "add-num"); ck(a - c, ra - Poly(Q(c)), "sub-num"); ck(a * c, scale(ra, Q(c)), "mul-num"); ck(c - a, Poly(Q(c)) - ra, "num-sub");
	if (!ra.zero()) {
		mpz_class g = 0;
		for (auto& [m, q] : ra.t) g = gcd(g, q.get_num());
		VF_CHECK(abs(a.numericContent()) == g, "mpz.numericContent", d << " gave " << a.numericContent());
	}
}
int main(int argc, char** argv) {
	V();
	vf::add_group("ops", 30000, 300000, ops_case);
	vf::add_group("query", 50000, 500000, query_case);
	vf::add_group("history", 80000, 800000, history_case);
	vf::add_group("int", 40000, 300000, int_case);
	return vf::run(argc, argv);
}
