// C08: polynomial division.
#include <polyutil.h>
#include <upoly.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/numbers/GFNumber.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using pu::V; using ur::L;
using GF = carl::GFNumber<Z>; using UZ = carl::UnivariatePolynomial<Z>; using UG = carl::UnivariatePolynomial<GF>;

static L genl(vf::Rng& r, size_t maxdeg, bool integral = false) {
	L a; size_t n = r.chance(1, 12) ? 0 : 1 + r.below(maxdeg + 1);
	for (size_t i = 0; i < n; ++i) a.push_back(r.chance(1, 4) ? Q(0) : integral ? Q(vf::gen_small(r, 9)) : r.chance(1, 15) ? vf::gen_mpq(r) : vf::gen_q(r, 6, 4));
	return ur::strip(a);
}
static L genl_nz(vf::Rng& r, size_t d, bool integral = false) { L a; do a = genl(r, d, integral); while (a.empty()); return a; }
template<typename P> static L lst(const P& p) { L a; for (auto& c : p.coefficients()) a.emplace_back(c); return a; }
static UZ uz(carl::Variable x, const L& a) { std::vector<Z> v; for (auto& c : a) v.push_back(c.get_num()); return UZ(x, std::move(v)); }

static void uq_case(vf::Rng& r) {
	L a = genl(r, 9), b = genl_nz(r, 5);
	if (r.chance(1, 4)) a = ur::mul(b, genl(r, 4));
	std::string d = ur::str(a) + " / " + ur::str(b); vf::note(d); if (a.size() >= b.size() && b.size() > 1) vf::observe(d); vf::op("uq.divide");
	auto x = V()[r.below(ref::NV)];
	UP p(x, a), q(x, b);
	L wq, wr; ur::divmod(a, b, wq, wr);
	auto res = carl::divide(p, q);
	VF_CHECK(lst(res.quotient) == wq && lst(res.remainder) == wr, "uq.divide", d << " gave " << res.quotient << " rest " << res.remainder);
	VF_CHECK(lst(carl::remainder(p, q)) == wr, "uq.remainder", d << " gave " << carl::remainder(p, q));
	Q k = pu::gen_c(r);
	VF_CHECK(lst(UP(p / k)) == ur::sc(a, 1 / k), "uq.div-number", d << " by " << k);
	// scaled division
	Q pre = ur::Q(1); for (int i = 0; i <= std::max(0, ur::deg(a) - ur::deg(b)); ++i) pre *= b.back();
	L wp = ur::mod(ur::sc(a, pre), b); L got = lst(carl::remainder(p, q, pre));
	VF_CHECK(got == wp || (a.size() < b.size() && got == a), "uq.remainder-prefactor", d << " gave " << ur::str(got));
}
static void uz_case(vf::Rng& r) {
	L a = genl(r, 8, true), b = genl_nz(r, 4, true);
	bool exact = r.coin(); L f;
	if (exact) { f = genl(r, 4, true); a = ur::mul(b, f); }
	std::string d = ur::str(a) + " / " + ur::str(b); vf::note(d); if (a.size() >= b.size() && b.size() > 1) vf::observe(d); vf::op("uz.divide");
	auto x = V()[r.below(ref::NV)]; UZ p = uz(x, a), q = uz(x, b);
	auto res = carl::divide(p, q);
	VF_CHECK(ur::add(ur::mul(lst(res.quotient), b), lst(res.remainder)) == a, "uz.divide-identity", d << " gave " << res.quotient << " rest " << res.remainder);
	if (exact) VF_CHECK(lst(res.quotient) == f && carl::isZero(res.remainder), "uz.divide-exact", d << " gave " << res.quotient << " rest " << res.remainder);
	if (b.back() == 1 || b.back() == -1) VF_CHECK(ur::deg(lst(res.remainder)) < ur::deg(b), "uz.divide-degree", d << " gave " << res.quotient << " rest " << res.remainder);
	// pseudo division with an explicit prefactor
	Q pre = 1; for (int i = 0; i <= std::max(0, ur::deg(a) - ur::deg(b)); ++i) pre *= b.back();
	L wp = ur::mod(ur::sc(a, pre), b); L got = lst(carl::remainder(p, q, pre.get_num()));
	VF_CHECK(got == wp || (a.size() < b.size() && got == a), "uz.remainder-prefactor", d << " gave " << ur::str(got));
}
static void gf_case(vf::Rng& r) {
	const unsigned ps[] = {2, 3, 5, 7, 101, 65521}; unsigned p = ps[r.below(6)]; auto* f = carl::GaloisFieldManager<Z>::getInstance().getField(p);
	auto x = V()[r.below(ref::NV)];
	auto mk = [&](size_t n) { std::vector<GF> v; for (size_t i = 0; i < n; ++i) v.emplace_back(Z(vf::gen_small(r, 200)), f); return UG(x, std::move(v)); };
	UG a = mk(r.below(9)), b = mk(1 + r.below(5)); if (carl::isZero(b)) b = UG(x, GF(Z(1), f));
	std::string d = vf::str(a) + " / " + vf::str(b); vf::note(d); vf::observe(d); vf::op("gf.divide");
	auto res = carl::divide(a, b);
	// identity in plain integer arithmetic modulo p
	auto li = [&](const UG& u) { L v; for (auto& c : u.coefficients()) v.emplace_back(c.representingInteger()); return v; };
	L df = ur::sub(li(a), ur::add(ur::mul(li(res.quotient), li(b)), li(res.remainder)));
	bool ok = true; for (auto& c : df) ok = ok && c.get_num() % p == 0;
	VF_CHECK(ok, "gf.divide-identity", d << " gave " << res.quotient << " rest " << res.remainder);
	VF_CHECK(carl::isZero(res.remainder) || res.remainder.degree() < b.degree(), "gf.divide-degree", d << " gave " << res.quotient << " rest " << res.remainder);
	VF_CHECK(carl::isZero(res.remainder) || li(res.remainder).back().get_num() % p != 0, "gf.divide-canonical", d);
	UG rem = carl::remainder(a, b);
	VF_CHECK(rem == res.remainder, "gf.remainder", d << " gave " << rem << " expected " << res.remainder);
}
static void mp_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4);
	ref::Poly a = pu::gen_poly(r, 5, 3, nv), b = pu::gen_poly_nz(r, 4, 2, nv);
	if (r.chance(1, 20)) { a = pu::gen_poly(r, 20, 6, nv); b = pu::gen_poly_nz(r, 10, 3, nv); } // long operands
	if (r.chance(1, 20)) { nv = std::min<size_t>(nv, 2); a = pu::gen_poly(r, 4, 20, nv); b = pu::gen_poly_nz(r, 3, 6, nv); } // high powers
	if (r.chance(1, 2)) a = b * pu::gen_poly(r, b.t.size() > 4 ? 8 : 4, 2, nv);
	if (r.chance(1, 6)) { ref::Poly e(pu::gen_c(r), pu::gen_mono(r, 2, nv)); a = a + e; }
	if (r.chance(1, 20)) a = r.coin() ? b : ref::scale(b, pu::gen_c(r));
	std::string d = "(" + a.str() + ") / (" + b.str() + ")"; vf::note(d); if (!a.zero() && !b.constant()) vf::observe(d); vf::op("mp.divide");
	MP p = pu::build(a, r), q = pu::build(b, r);
	ref::Poly wq, wr; ref::divmod(a, b, wq, wr);
	CK(carl::quotient(p, q), wq, "mp.quotient", d); CK(carl::remainder(p, q), wr, "mp.remainder", d);
	CK(p, a, "mp.dividend-unchanged", d); CK(q, b, "mp.divisor-unchanged", d);
	ref::Poly before = pu::gen_poly(r, 3, 2, nv); MP res = pu::build(before, r);
	bool ok = carl::try_divide(p, q, res);
	VF_CHECK(ok == wr.zero(), "mp.try_divide-verdict", d);
	if (ok) CK(res, wq, "mp.try_divide", d); else CK(res, before, "mp.try_divide-unchanged", d);
	if (wr.zero()) CK(p / q, wq, "mp.operator/", d);
	Q k = pu::gen_c(r);
	CK(carl::divide(p, k), ref::scale(a, 1 / k), "mp.divide-number", d << " by " << k);
	// several unsuccessful attempts must not disturb later ones
	if (r.chance(1, 8)) { for (int i = 0; i < 5; ++i) { MP x; carl::try_divide(q * MP(V()[0]) + MP(Q(1)), q * q, x); } MP x; if (carl::try_divide(q * p, q, x)) CK(x, a, "mp.try_divide-repeat", d); else VF_CHECK(false, "mp.try_divide-repeat", d); }
	// terms
	if (!a.zero()) {
		TQ t = p.lterm(); TQ s;
		CK(MP(carl::divide(t, k)), ref::scale(pu::rpoly(t), 1 / k), "term.divide-number", d);
		VF_CHECK(carl::try_divide(t, k, s) && pu::rpoly(s) == ref::scale(pu::rpoly(t), 1 / k), "term.try_divide-number", d);
		size_t v = r.below(ref::NV); TQ s2; ref::Mono m = pu::rmono(t.monomial()); bool tv = carl::try_divide(t, V()[v], s2);
		VF_CHECK(tv == (m[v] > 0), "term.try_divide-var-verdict", d); if (tv) { m[v]--; VF_CHECK(pu::rpoly(s2) == ref::Poly(t.coeff(), m), "term.try_divide-var", d); }
	}
}
static std::vector<ref::Poly> list(const ref::Poly& p, size_t v) { std::vector<ref::Poly> c; if (p.zero()) return c; for (unsigned i = 0; i <= p.deg(v); ++i) c.push_back(p.coeff_in(v, i)); return c; }
static ref::Poly join(const std::vector<ref::Poly>& c, size_t v) { ref::Poly p; for (size_t i = 0; i < c.size(); ++i) { ref::Mono m = ref::mone(); m[v] = static_cast<unsigned>(i); p = p + c[i] * ref::Poly(1, m); } return p; }
/// lc(b)^(deg a - deg b + 1) a mod b
static ref::Poly prem(const ref::Poly& a, const ref::Poly& b, size_t v) {
	auto A = list(a, v), B = list(b, v);
	if (A.size() < B.size()) return a;
	size_t steps = A.size() - B.size() + 1;
	for (size_t s = 0; s < steps; ++s) {
		size_t top = A.size() - 1; ref::Poly l = A[top]; size_t sh = top - (B.size() - 1);
		for (auto& c : A) c = c * B.back();
		for (size_t i = 0; i < B.size(); ++i) A[sh + i] = A[sh + i] - l * B[i];
		A.pop_back();
	}
	return join(A, v);
}
static void prem_case(vf::Rng& r) {
	size_t v = r.below(3); size_t nv = 3;
	ref::Poly a = pu::gen_poly(r, 5, 3, nv), b = pu::gen_poly_nz(r, 4, 2, nv);
	if (r.chance(1, 10)) { a = pu::gen_poly(r, 4, 9, 2); b = pu::gen_poly_nz(r, 2, 3, 2); } // wide gaps between the powers
	if (r.chance(1, 5)) a = b * pu::gen_poly(r, 3, 2, nv);
	std::string d = "(" + a.str() + ") prem (" + b.str() + ") in v" + std::to_string(v); vf::note(d); if (a.deg(v) >= b.deg(v) && b.deg(v) > 0) vf::observe(d); vf::op("ump.prem");
	MP p = pu::build(a, r), q = pu::build(b, r);
	ref::Poly w = b.deg(v) == 0 ? ref::Poly() : prem(a, b, v);
	CK(carl::pseudo_remainder(p, q, V()[v]), w, "mp.pseudo_remainder", d);
	UMP up = carl::to_univariate_polynomial(p, V()[v]), uq = carl::to_univariate_polynomial(q, V()[v]);
	UMP pr = carl::pseudo_remainder(up, uq);
	VF_CHECK(pu::rpoly(pr) == w, "ump.pseudo_remainder", d << " gave " << pr << " expected " << w.str());
	VF_CHECK(carl::isZero(pr) || !carl::isZero(pr.lcoeff()), "ump.pseudo_remainder:canonical", d);
	// exact division of a polynomial with polynomial coefficients by one
	ref::Poly c = pu::gen_poly_nz(r, 2, 2, nv); ref::Poly c0; for (auto& [m, k] : c.t) if (m[v] == 0) c0.add(m, k); if (c0.zero()) c0 = ref::Poly(3);
	ref::Poly t = r.coin() ? a * c0 : a; ref::Poly wq, wr; ref::divmod(t, c0, wq, wr);
	UMP ut = carl::to_univariate_polynomial(pu::build(t, r), V()[v]), res(V()[v]);
	bool ok = carl::try_divide(ut, pu::build(c0, r), res);
	VF_CHECK(ok == wr.zero(), "ump.try_divide-verdict", t.str() << " / " << c0.str());
	if (ok) VF_CHECK(pu::rpoly(res) == wq, "ump.try_divide", t.str() << " / " << c0.str() << " gave " << res);
	Q k = pu::gen_c(r); auto dn = carl::divide(ut, k);
	VF_CHECK(pu::rpoly(dn.quotient) == ref::scale(t, 1 / k) && carl::isZero(dn.remainder), "ump.divide-number", t.str() << " / " << k);
}
/// failing and succeeding divisions must give back everything they allocate
static void leak_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3); ref::Poly a = pu::gen_poly_nz(r, 4, 2, nv), b = pu::gen_poly_nz(r, 3, 2, nv);
	std::string d = "(" + a.str() + ") / (" + b.str() + ")"; vf::note(d); vf::observe(d); vf::op("mp.leak");
	MP p = pu::build(a, r), q = pu::build(b, r);
	auto round = [&](int n) { for (int i = 0; i < n; ++i) { MP x; carl::try_divide(p, q, x); MP y = carl::quotient(p, q), z = carl::remainder(p, q); MP s = p * q - y; } };
	round(20); size_t m0 = __sanitizer_get_current_allocated_bytes(); round(60); size_t m1 = __sanitizer_get_current_allocated_bytes();
	VF_CHECK(m1 < m0 + 60 * 16, "mp.memory-growth", d << ": " << m0 << " -> " << m1);
}
int main(int argc, char** argv) {
	vf::add_group("uq", 30000, 1000000, uq_case);
	vf::add_group("uz", 20000, 800000, uz_case);
	vf::add_group("gf", 20000, 800000, gf_case);
	vf::add_group("mp", 20000, 600000, mp_case);
	vf::add_group("prem", 10000, 300000, prem_case);
	vf::add_group("leak", 400, 10000, leak_case);
	return vf::run(argc, argv);
}
