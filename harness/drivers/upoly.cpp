// C07: univariate polynomials over Z, Q, GF(p) and multivariate coefficients
// against coefficient-list arithmetic.
#include <polyutil.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/numbers/GFNumber.h>
using GF = carl::GFNumber<Z>; using Field = carl::GaloisField<Z>;
using pu::V;

// ---- coefficient rings: the reference element R, the library element C
struct RZ { using C = Z; using R = Z; static constexpr bool field = false;
	R gen(vf::Rng& r) { return r.chance(1, 12) ? vf::gen_mpz(r) : vf::gen_small(r, 9); }
	C mk(const R& a) { return a; } R un(const C& c) { return c; } R norm(const R& a) { return a; } bool z(const R& a) { return a == 0; } std::string s(const R& a) { return a.get_str(); } };
struct RQ { using C = Q; using R = Q; static constexpr bool field = true;
	R gen(vf::Rng& r) { return r.chance(1, 12) ? vf::gen_mpq(r) : vf::gen_q(r, 6, 4); }
	C mk(const R& a) { return a; } R un(const C& c) { return c; } R norm(const R& a) { return a; } bool z(const R& a) { return a == 0; } std::string s(const R& a) { return a.get_str(); } };
struct RG { using C = GF; using R = Z; static constexpr bool field = true; Z p; const Field* f;
	explicit RG(unsigned q) : p(q), f(carl::GaloisFieldManager<Z>::getInstance().getField(q)) {}
	R gen(vf::Rng& r) { return norm(r.chance(1, 3) ? vf::gen_mpz(r) : vf::gen_small(r, 9)); }
	C mk(const R& a) { return GF(a, f); } R un(const C& c) { return norm(c.representingInteger()); }
	R norm(const R& a) { R x; mpz_fdiv_r(x.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return x; } bool z(const R& a) { return norm(a) == 0; } std::string s(const R& a) { return a.get_str() + "%" + p.get_str(); } };
struct RP { using C = MP; using R = ref::Poly; static constexpr bool field = false; vf::Rng* rg; size_t mv;
	R gen(vf::Rng& r) { ref::Poly p = pu::gen_poly(r, 3, 2), q; for (auto& [m, c] : p.t) if (m[mv] == 0) q.add(m, c); return q; }
	C mk(const R& a) { return pu::build(a, *rg); } R un(const C& c) { return pu::rpoly(c); } R norm(const R& a) { return a; } bool z(const R& a) { return a.zero(); } std::string s(const R& a) { return "(" + a.str() + ")"; } };

template<typename Ring> struct Suite {
	using C = typename Ring::C; using R = typename Ring::R; using P = carl::UnivariatePolynomial<C>; using L = std::vector<R>;
	Ring R_; std::string name; carl::Variable x;
	std::string d;
	R zero() { return R(0); }
	L strip(L a) { for (auto& c : a) c = R_.norm(c); while (!a.empty() && R_.z(a.back())) a.pop_back(); return a; }
	L add(const L& a, const L& b) { L c(std::max(a.size(), b.size()), zero()); for (size_t i = 0; i < a.size(); ++i) c[i] = c[i] + a[i]; for (size_t i = 0; i < b.size(); ++i) c[i] = c[i] + b[i]; return strip(c); }
	L neg(const L& a) { L c; for (auto& t : a) c.push_back(zero() - t); return strip(c); }
	L mul(const L& a, const L& b) { if (a.empty() || b.empty()) return {}; L c(a.size() + b.size() - 1, zero()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = c[i + j] + a[i] * b[j]; return strip(c); }
	L sc(const L& a, const R& k) { return mul(a, strip({k})); }
	R eval(const L& a, const R& v) { R s = zero(), pw = R(1); for (auto& c : a) { s = s + c * pw; pw = pw * v; } return R_.norm(s); }
	std::string str(const L& a) { std::string s; for (auto& c : a) s += R_.s(c) + " "; return "[" + s + "]"; }
	L gen(vf::Rng& r) {
		L a; size_t n = r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 8) ? 12 : 5);
		for (size_t i = 0; i < n; ++i) a.push_back(r.chance(1, 4) ? zero() : R_.gen(r));
		return strip(a);
	}
	std::vector<C> vec(const L& a) { std::vector<C> v; for (auto& c : a) v.push_back(R_.mk(c)); return v; }
	P build(const L& a, vf::Rng& r) {
		switch (r.below(5)) {
		case 0: return P(x, vec(a));
		case 1: { auto v = vec(a); for (size_t i = r.below(3); i > 0; --i) v.push_back(R_.mk(zero())); return P(x, std::move(v)); }
		case 2: { P p(x); for (size_t i = 0; i < a.size(); ++i) p += P(x, R_.mk(a[i]), i); return p; }
		case 3: { std::map<carl::uint, C> m; for (size_t i = 0; i < a.size(); ++i) if (!R_.z(a[i]) || r.coin()) m.emplace(i, R_.mk(a[i])); return P(x, m); }
		default: { P p(x); for (size_t i = a.size(); i > 0; --i) { p *= x; p += R_.mk(a[i - 1]); } return p; }
		}
	}
	L un(const P& p) { L a; for (auto& c : p.coefficients()) a.push_back(R_.un(c)); return a; }
	void ck(const P& p, const L& want, const std::string& key) {
		L got = un(p);
		VF_CHECK(got.empty() || !R_.z(got.back()), name + "." + key + ":canonical", d << ": leading zero kept in " << str(got));
		VF_CHECK(p.mainVar() == x, name + "." + key + ":mainvar", d);
		VF_CHECK(strip(got) == want, name + "." + key, d << " gave " << str(got) << " expected " << str(want));
	}
	void arith(vf::Rng& r) {
		L a = gen(r), b = gen(r);
		if (r.chance(1, 6)) b = neg(a);
		if (r.chance(1, 6)) { b = a; if (!b.empty()) { b[r.below(b.size())] = R_.gen(r); b = strip(b); } }
		R k = r.chance(1, 8) ? zero() : R_.gen(r);
		d = str(a) + " , " + str(b) + " , " + R_.s(k);
		vf::note(name + " " + d); if (a.size() > 1) vf::observe(name + d); vf::op(name + ".arith");
		P p = build(a, r), q = build(b, r); C c = R_.mk(k); L kk = strip({k});
		ck(p, a, "ctor"); ck(q, b, "ctor");
		ck(P(p), a, "copy"); { P t(p); P u(std::move(t)); ck(u, a, "move"); P w(V()[5]); w = p; ck(w, a, "assign"); P w2(V()[5]); w2 = std::move(w); ck(w2, a, "move-assign"); }
		ck(p + q, add(a, b), "add"); ck(p - q, add(a, neg(b)), "sub"); ck(p * q, mul(a, b), "mul"); ck(-p, neg(a), "neg");
		if constexpr (!std::is_same<C, MP>::value) { ck(p + c, add(a, kk), "add-c"); ck(c + p, add(a, kk), "c-add"); VF_CHECK((p == c) == (a == kk) && (c == p) == (a == kk), name + ".eq-c", d); }
		ck(p - c, add(a, neg(kk)), "sub-c"); ck(c - p, add(kk, neg(a)), "c-sub");
		ck(p * c, mul(a, kk), "mul-c"); ck(c * p, mul(a, kk), "c-mul");
		ck(p * x, mul(a, {zero(), R(1)}), "mul-var"); ck(x * p, mul(a, {zero(), R(1)}), "var-mul");
		{ P t = p; t += q; ck(t, add(a, b), "iadd"); } { P t = p; t -= q; ck(t, add(a, neg(b)), "isub"); } { P t = p; t *= q; ck(t, mul(a, b), "imul"); }
		{ P t = p; t += c; ck(t, add(a, kk), "iadd-c"); } { P t = p; t -= c; ck(t, add(a, neg(kk)), "isub-c"); } { P t = p; t *= c; ck(t, mul(a, kk), "imul-c"); } { P t = p; t *= x; ck(t, mul(a, {zero(), R(1)}), "imul-var"); }
		{ P t = p; t += t; ck(t, add(a, a), "iadd-self"); } { P t = p; t *= t; ck(t, mul(a, a), "imul-self"); } { P t = p; t -= t; ck(t, {}, "isub-self"); }
		// history of in-place operations
		{ P t = p; L w = a; int n = 1 + static_cast<int>(r.below(5)); std::string dd = d; d += " history";
		  for (int i = 0; i < n; ++i) switch (r.below(6)) {
			case 0: t += q; w = add(w, b); d += " +="; break; case 1: t -= q; w = add(w, neg(b)); d += " -="; break;
			case 2: if (w.size() < 40) { t *= q; w = mul(w, b); d += " *="; } break; case 3: t *= c; w = mul(w, kk); d += " *=c"; break;
			case 4: t *= x; w = mul(w, {zero(), R(1)}); d += " *=x"; break; default: if (!w.empty()) { t.truncate(); w.pop_back(); w = strip(w); d += " trunc"; } }
		  ck(t, w, "history"); d = dd; }
		unsigned e = static_cast<unsigned>(r.below(5)); L pw = strip({R(1)}); for (unsigned i = 0; i < e; ++i) pw = mul(pw, a);
		ck(carl::pow(p, e), pw, "pow"); ck(p.pow(e), pw, "pow-member");
		{ L n = a; for (size_t i = 1; i < n.size(); i += 2) n[i] = zero() - n[i]; ck(p.negateVariable(), strip(n), "negateVariable"); }
		{ L n(a.rbegin(), a.rend()); ck(p.reverseCoefficients(), strip(n), "reverse"); }
		if (!a.empty()) { P t = p; t.truncate(); L n = a; n.pop_back(); ck(t, strip(n), "truncate");
			VF_CHECK(p.degree() == a.size() - 1 && R_.un(p.lcoeff()) == R_.norm(a.back()) && R_.un(p.tcoeff()) == R_.norm(a.front()), name + ".degree-lcoeff", d);
			VF_CHECK(p.zeroIsRoot() == R_.z(a[0]), name + ".zeroIsRoot", d); }
		ck(p.one(), strip({R(1)}), "one");
		VF_CHECK(carl::isZero(p) == a.empty() && carl::is_zero(p) == a.empty(), name + ".isZero", d);
		VF_CHECK(carl::isOne(p) == (a == strip({R(1)})) && carl::is_one(p) == (a == strip({R(1)})), name + ".isOne", d);
		VF_CHECK(carl::is_constant(p) == (a.size() <= 1) && p.isLinearInMainVar() == (a.size() <= 2), name + ".is_constant", d);
		VF_CHECK((p == q) == (a == b) && (q == p) == (a == b) && (p != q) == (a != b), name + ".eq", d);
		R v = R_.gen(r);
		VF_CHECK(R_.un(p.evaluate(R_.mk(v))) == eval(a, v), name + ".evaluate-member", d << " at " << R_.s(v));
		VF_CHECK(R_.un(carl::evaluate(p, R_.mk(v))) == eval(a, v), name + ".evaluate", d << " at " << R_.s(v));
	}
};
static Q lcm_den(const std::vector<Q>& a) { Z l = 1; for (auto& c : a) { Z g; mpz_gcd(g.get_mpz_t(), l.get_mpz_t(), c.get_den_mpz_t()); l = l * c.get_den() / g; } return Q(l); }
static Q qcontent(const std::vector<Q>& a) { Q l = lcm_den(a); Z g = 0; for (auto& c : a) { Q t = c * l; mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), t.get_num_mpz_t()); } return Q(g) / l; }
static std::vector<Q> qv(const carl::UnivariatePolynomial<Z>& p) { std::vector<Q> v; for (auto& c : p.coefficients()) v.emplace_back(c); return v; }
static std::vector<Q> qv(const UP& p) { return p.coefficients(); }
static std::vector<Q> sc(const std::vector<Q>& a, const Q& k) { std::vector<Q> r; for (auto& c : a) r.push_back(c * k); return r; }

template<typename Ring> static void numeric_extra(Suite<Ring>& S, vf::Rng& r) {
	using C = typename Ring::C; using P = carl::UnivariatePolynomial<C>;
	auto a = S.gen(r);
	std::vector<Q> qa; for (auto& c : a) qa.emplace_back(c);
	S.d = S.str(a); vf::note(S.name + " content " + S.d); if (a.size() > 1) vf::observe(S.name + "c" + S.d); vf::op(S.name + ".content");
	P p = S.build(a, r); const std::string n = S.name; const std::string d = S.d;
	Q cont = qcontent(qa);
	VF_CHECK(p.isNumber() == (a.size() <= 1) && p.isUnivariate() && Q(p.constantPart()) == (a.empty() ? Q(0) : qa[0]), n + ".isNumber", d);
	if (a.empty()) {
		VF_CHECK(carl::isZero(carl::primitive_part(p)) && carl::isZero(carl::content(p)) && carl::isZero(p.normalized()), n + ".content-zero", d);
		if constexpr (Ring::field) { VF_CHECK(Q(p.numericContent()) == 0 && carl::isZero(p.coprimeCoefficients()) && carl::isZero(p.coprimeCoefficientsSignPreserving()), n + ".coprime-zero", d); }
		return;
	}
	VF_CHECK(Q(p.mainDenom()) == lcm_den(qa), n + ".mainDenom", d << " gave " << p.mainDenom());
	if constexpr (Ring::field) {
	VF_CHECK(Q(abs(Q(p.numericContent()))) == cont, n + ".numericContent", d << " gave " << p.numericContent() << " expected " << cont);
	VF_CHECK(Q(p.numericUnit()) == (qa.back() > 0 ? 1 : -1), n + ".numericUnit", d);
	VF_CHECK(carl::total_degree(p) == a.size() - 1, n + ".total_degree", d);
	{ auto cc = qv(p.coprimeCoefficients()); VF_CHECK(cc == sc(qa, 1 / cont) || cc == sc(qa, -1 / cont), n + ".coprimeCoefficients", d << " gave " << p.coprimeCoefficients()); }
	{ auto cc = qv(p.coprimeCoefficientsSignPreserving()); VF_CHECK(cc == sc(qa, 1 / cont), n + ".coprimeCoefficientsSignPreserving", d << " gave " << p.coprimeCoefficientsSignPreserving()); }
	VF_CHECK(Q(abs(Q(p.coprimeFactor()))) == 1 / cont, n + ".coprimeFactor", d << " gave " << p.coprimeFactor());
	}
	// normal part, content, primitive part: p = unit * content * primitive
	Q unit = Ring::field ? qa.back() : (qa.back() > 0 ? Q(1) : Q(-1));
	VF_CHECK(Q(p.unitPart()) == unit && p.isNormal() == (unit == 1), n + ".unitPart", d);
	VF_CHECK(qv(p.normalized()) == sc(qa, 1 / unit), n + ".normalized", d << " gave " << p.normalized());
	Q nc = Ring::field ? Q(1) : cont;
	{ P np = p.normalized(); VF_CHECK(Q(carl::content(np)) == nc, n + ".content", d << " gave " << carl::content(np)); }
	VF_CHECK(qv(carl::primitive_part(p)) == sc(qa, 1 / (unit * nc)), n + ".primitive_part", d << " gave " << carl::primitive_part(p));
	// scaling and exact division by a constant
	C k = S.R_.gen(r); if (k == 0) k = 3;
	{ P t = p * k; VF_CHECK(qv(P(t / k)) == qa, n + ".div-c", d << " / " << k); t /= k; VF_CHECK(qv(t) == qa, n + ".idiv-c", d << " / " << k); }
	{ Z zk = vf::gen_small(r, 9); P t = p * C(zk); VF_CHECK(qv(t) == (zk == 0 ? std::vector<Q>() : sc(qa, Q(zk))), n + ".mul-int", d << " * " << zk); }
	// synthetic division: either reports the value, or divides exactly
	{
		C z = r.coin() ? C(vf::gen_small(r, 4)) : S.R_.gen(r);
		P t = p; auto w = a;
		if (r.coin()) { t = p * P(S.x, {C(-z), C(1)}); w = S.mul(a, S.strip({typename Ring::R(-z), typename Ring::R(1)})); }
		P before = t; C rem = t.syntheticDivision(z);
		VF_CHECK(rem == C(S.eval(w, z)), n + ".syntheticDivision-rem", S.str(w) << " at " << z << " gave " << rem);
		if (rem == 0 && w.size() > 1) VF_CHECK(S.mul(t.coefficients(), S.strip({typename Ring::R(-z), typename Ring::R(1)})) == w, n + ".syntheticDivision", S.str(w) << " at " << z << " gave " << t);
		else VF_CHECK(t == before, n + ".syntheticDivision-unchanged", S.str(w) << " at " << z << " gave " << t);
	}
	// conversions
	{ ref::Poly want; ref::Mono m = ref::mone(); for (auto& c : qa) { want.add(m, c); m[pu::vi(S.x)]++; }
	  if constexpr (std::is_same<C, Q>::value) { CK(MP(p), want, n + ".to-multivariate", d); UMP u = p.template convert<MP>(); VF_CHECK(pu::rpoly(u) == want && u.mainVar() == S.x, n + ".convert", d); VF_CHECK(u.toNumberCoefficients() == p, n + ".toNumberCoefficients", d); VF_CHECK(u.isNumber() == p.isNumber() && u.isUnivariate() && u.constantPart() == p.constantPart(), n + ".converted-info", d);
		if (a.size() > 1) VF_CHECK(carl::to_univariate_polynomial(MP(p)) == p, n + ".to_univariate", d); } }
	if constexpr (std::is_same<C, Z>::value) {
		UP u = p.template convert<Q>(); VF_CHECK(qv(u) == qa, n + ".convert", d); VF_CHECK(qv(u.toIntegerDomain()) == qa, n + ".toIntegerDomain", d);
		unsigned q = r.coin() ? 7 : 2; const Field* f = carl::GaloisFieldManager<Z>::getInstance().getField(q);
		auto g = p.toFiniteDomain(f); auto b = g.toIntegerDomain();
		VF_CHECK(g.coefficients().empty() || !carl::isZero(g.lcoeff()), n + ".toFiniteDomain:canonical", d);
		std::vector<Z> m1, m2; for (auto& c : a) { Z t; mpz_fdiv_r_ui(t.get_mpz_t(), c.get_mpz_t(), q); m1.push_back(t); } while (!m1.empty() && m1.back() == 0) m1.pop_back();
		for (auto& c : b.coefficients()) { Z t; mpz_fdiv_r_ui(t.get_mpz_t(), c.get_mpz_t(), q); m2.push_back(t); }
		VF_CHECK(m1 == m2, n + ".finite-roundtrip", d << " mod " << q << " gave " << b);
		Z md = 2 + static_cast<long>(r.below(6)); P t = p; t.mod(md);
		bool ok = t.coefficients().empty() || t.lcoeff() != 0; for (size_t i = 0; i < a.size(); ++i) { Z c = i < t.coefficients().size() ? t.coefficients()[i] : Z(0); ok = ok && (c - a[i]) % md == 0 && abs(c) < md; }
		VF_CHECK(ok, n + ".mod", d << " mod " << md << " gave " << t);
	}
}
static void z_case(vf::Rng& r) { Suite<RZ> S{RZ(), "z", V()[r.below(ref::NV)], ""}; if (r.chance(1, 3)) numeric_extra(S, r); else S.arith(r); }
static void q_case(vf::Rng& r) { Suite<RQ> S{RQ(), "q", V()[r.below(ref::NV)], ""}; if (r.chance(1, 3)) numeric_extra(S, r); else S.arith(r); }
static void gf_case(vf::Rng& r) {
	const unsigned ps[] = {2, 3, 5, 7, 101, 65521}; unsigned p = ps[r.below(6)];
	Suite<RG> S{RG(p), "gf", V()[r.below(ref::NV)], ""}; S.arith(r);
	auto a = S.gen(r); if (!a.empty()) { S.d = S.str(a); auto q = S.build(a, r); auto n = q.normalized(); VF_CHECK(carl::isOne(n.lcoeff()) && S.un(n * q.lcoeff()) == a, "gf.normalized", S.d << " gave " << n); }
}
static void mp_case(vf::Rng& r) {
	size_t mv = r.below(ref::NV);
	Suite<RP> S{RP{&r, mv}, "mp", V()[mv], ""}; S.arith(r);
	auto a = S.gen(r); UMP p = S.build(a, r); std::string d = S.str(a); vf::note("mp info " + d);
	ref::Poly w; for (size_t i = 0; i < a.size(); ++i) { ref::Mono m = ref::mone(); m[mv] = static_cast<unsigned>(i); w = w + a[i] * ref::Poly(1, m); }
	CK(MP(p), w, "mp.to-multivariate", d);
	VF_CHECK(pu::rpoly(carl::to_univariate_polynomial(MP(p), V()[mv])) == w, "mp.to_univariate", d);
	VF_CHECK(carl::total_degree(p) == w.tdeg(), "mp.total_degree", d);
	bool num = true, uni = true; for (auto& c : a) { if (c.tdeg() > 0) uni = false; } num = uni && a.size() <= 1;
	VF_CHECK(p.isNumber() == num && p.isUnivariate() == uni && p.constantPart() == w.constpart(), "mp.isNumber", d);
	for (size_t i = 0; i < ref::NV; ++i) if (i != mv) VF_CHECK(p.has(V()[i]) == w.has(i), "mp.has", d);
	// multiplying by another variable
	size_t ov = (mv + 1) % ref::NV; ref::Mono om = ref::mone(); om[ov] = 1; auto b = a; for (auto& c : b) c = c * ref::Poly(1, om);
	{ S.d = d; S.ck(p * V()[ov], b, "mul-othervar"); UMP t = p; t *= V()[ov]; S.ck(t, b, "imul-othervar"); }
	if (!w.zero()) {
		std::vector<Q> cs; for (auto& [m, c] : w.t) cs.push_back(c); Q cont = qcontent(cs);
		VF_CHECK(Q(p.mainDenom()) == lcm_den(cs), "mp.mainDenom", d << " gave " << p.mainDenom());
		VF_CHECK(Q(abs(p.numericContent())) == cont, "mp.numericContent", d << " gave " << p.numericContent() << " expected " << cont);
		VF_CHECK(Q(abs(p.coprimeFactor())) == 1 / cont, "mp.coprimeFactor", d << " gave " << p.coprimeFactor());
		ref::Poly cc = pu::rpoly(p.coprimeCoefficients()); VF_CHECK(cc == ref::scale(w, 1 / cont) || cc == ref::scale(w, -1 / cont), "mp.coprimeCoefficients", d);
		VF_CHECK(pu::rpoly(p.coprimeCoefficientsSignPreserving()) == ref::scale(w, 1 / cont), "mp.coprimeCoefficientsSignPreserving", d);
		VF_CHECK(p.isNormal() == (pu::rpoly(p.unitPart()) == ref::Poly(1)), "mp.isNormal", d);
		VF_CHECK(pu::rpoly(p.normalized()) == w || pu::rpoly(p.normalized()) == ref::scale(w, -1), "mp.normalized", d);
		VF_CHECK(p.normalized().isNormal(), "mp.normalized-normal", d);
		Q k = pu::gen_c(r); VF_CHECK(pu::rpoly(UMP(p / MP(k))) == ref::scale(w, 1 / k), "mp.div-number", d << " / " << k);
	}
}
int main(int argc, char** argv) {
	vf::add_group("z", 25000, 1000000, z_case);
	vf::add_group("q", 25000, 1000000, q_case);
	vf::add_group("gf", 15000, 600000, gf_case);
	vf::add_group("mp", 10000, 300000, mp_case);
	return vf::run(argc, argv);
}
