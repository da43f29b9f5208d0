// C09 (univariate part): gcd, extended gcd, squarefree parts and factorisations.
#include <polyutil.h>
#include <upoly.h>
#include <carl/core/polynomialfunctions/GCD_univariate.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
#include <carl/numbers/GFNumber.h>
#include <carl/core/DiophantineEquation.h>
using pu::V; using ur::L;
using GF = carl::GFNumber<Z>; using UG = carl::UnivariatePolynomial<GF>;
static L genl(vf::Rng& r, size_t maxdeg, long num = 6, long den = 4) {
	L a; do { a.clear(); size_t n = 1 + r.below(maxdeg + 1);
	for (size_t i = 0; i < n; ++i) a.push_back(r.chance(1, 5) ? Q(0) : vf::gen_q(r, num, den)); a = ur::strip(a); } while (a.empty());
	return a;
}
static L lin(vf::Rng& r) { return r.chance(1, 4) ? L{Q(0), Q(1)} : r.coin() ? L{Q(vf::gen_small(r, 5)), Q(1)} : L{vf::gen_q(r, 5, 3), Q(1 + static_cast<long>(r.below(3)))}; }
/// products of few factors with multiplicities
static L genprod(vf::Rng& r, size_t maxdeg) {
	L a{vf::gen_q(r, 4, 3)}; if (a[0] == 0) a[0] = 1;
	size_t k = 1 + r.below(4);
	for (size_t i = 0; i < k; ++i) { L f = r.coin() ? lin(r) : genl(r, 2, 4, 2); unsigned e = 1 + static_cast<unsigned>(r.below(3)); L n = ur::mul(a, ur::pow(f, e)); if (n.size() <= maxdeg + 1) a = n; }
	return a;
}
static void gcd_case(vf::Rng& r) {
	L a, b;
	if (r.coin()) { L g = genl(r, 3, 5, 2); a = ur::mul(g, genl(r, 4, 5, 2)); b = ur::mul(g, genl(r, 4, 5, 2)); }
	else if (r.coin()) { a = genprod(r, 8); b = r.chance(1, 3) ? ur::der(a) : genprod(r, 8); if (b.empty()) b = L{Q(2)}; }
	else { a = genl(r, 6); b = genl(r, 6); }
	std::string d = ur::str(a) + " , " + ur::str(b); vf::note(d); if (a.size() > 1 && b.size() > 1) vf::observe(d); vf::op("gcd");
	auto x = V()[r.below(ref::NV)]; UP p(x, a), q(x, b); L w = ur::gcd(a, b);
	UP g = carl::gcd(p, q);
	VF_CHECK(ur::monic(g.coefficients()) == w && g.mainVar() == x, "gcd", d << " gave " << g << " expected " << ur::str(w));
	VF_CHECK(g.lcoeff() == 1, "gcd-monic", d << " gave " << g);
	UP s(x), t(x); UP e = carl::extended_gcd(p, q, s, t);
	VF_CHECK(ur::monic(e.coefficients()) == w, "extended_gcd", d << " gave " << e);
	VF_CHECK(ur::add(ur::mul(s.coefficients(), a), ur::mul(t.coefficients(), b)) == e.coefficients(), "extended_gcd-identity", d << " gave " << e << " with " << s << " and " << t);
	VF_CHECK(p.coefficients() == a && q.coefficients() == b, "gcd-inputs", d);
}
static void gf_case(vf::Rng& r) {
	const unsigned ps[] = {2, 3, 5, 7, 101, 65521}; unsigned p = ps[r.below(6)]; auto* f = carl::GaloisFieldManager<Z>::getInstance().getField(p);
	auto x = V()[r.below(ref::NV)];
	auto mk = [&](size_t n) { std::vector<GF> v; for (size_t i = 0; i < n; ++i) v.emplace_back(Z(vf::gen_small(r, 200)), f); UG u(x, std::move(v)); return carl::isZero(u) ? UG(x, GF(Z(1), f)) : u; };
	UG g = mk(1 + r.below(3)), a = mk(1 + r.below(4)) * g, b = mk(1 + r.below(4)) * g;
	std::string d = vf::str(a) + " , " + vf::str(b); vf::note(d); vf::observe(d); vf::op("gcd-gf");
	auto li = [&](const UG& u) { std::vector<Z> v; for (auto& c : u.coefficients()) { Z t; mpz_fdiv_r_ui(t.get_mpz_t(), c.representingInteger().get_mpz_t(), p); v.push_back(t); } while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
	// reference Euclid modulo p
	auto inv = [&](const Z& z) { Z t, P = p; mpz_invert(t.get_mpz_t(), z.get_mpz_t(), P.get_mpz_t()); return t; };
	auto md = [&](std::vector<Z> A, const std::vector<Z>& B) { Z iv = inv(B.back()); while (A.size() >= B.size()) { Z q = A.back() * iv % p; size_t s = A.size() - B.size(); for (size_t i = 0; i < B.size(); ++i) { A[s + i] = (A[s + i] - q * B[i]) % p; if (A[s + i] < 0) A[s + i] += p; } while (!A.empty() && A.back() == 0) A.pop_back(); } return A; };
	auto A = li(a), B = li(b); while (!B.empty()) { auto R = md(A, B); A = B; B = R; }
	Z iv = inv(A.back()); for (auto& c : A) c = c * iv % p;
	UG h = carl::gcd(a, b); VF_CHECK(li(h) == A, "gf.gcd", d << " gave " << h);
	UG s(x), t(x); UG e = carl::extended_gcd(a, b, s, t); VF_CHECK(li(e) == A, "gf.extended_gcd", d << " gave " << e);
	VF_CHECK(li(s * a + t * b) == A, "gf.extended_gcd-identity", d << " gave " << s << " and " << t);
}
static void sqf_case(vf::Rng& r) {
	L a = r.chance(1, 4) ? genl(r, 6) : genprod(r, 9);
	std::string d = ur::str(a); vf::note(d); if (a.size() > 2) vf::observe(d); vf::op("squarefree");
	auto x = V()[r.below(ref::NV)]; UP p(x, a);
	UP s = carl::squareFreePart(p);
	VF_CHECK(ur::monic(s.coefficients()) == ur::monic(ur::sqf(a)) || a.size() <= 2, "squareFreePart", d << " gave " << s);
	if (a.size() <= 1) return;
	auto m = carl::squareFreeFactorization(p);
	L prod{1}; bool ok = true; std::vector<L> fs;
	for (auto& [e, f] : m) { ok = ok && e >= 1 && ur::squarefree(f.coefficients()) && !carl::isZero(f); prod = ur::mul(prod, ur::pow(f.coefficients(), static_cast<unsigned>(e))); fs.push_back(f.coefficients()); }
	for (size_t i = 0; i < fs.size(); ++i) for (size_t j = i + 1; j < fs.size(); ++j) ok = ok && ur::deg(ur::gcd(fs[i], fs[j])) == 0;
	std::ostringstream o; for (auto& [e, f] : m) o << "(" << f << ")^" << e << " ";
	VF_CHECK(ok, "squareFreeFactorization-squarefree", d << " gave " << o.str());
	VF_CHECK(prod == a, "squareFreeFactorization-product", d << " gave " << o.str());
}
static void fac_case(vf::Rng& r) {
	L a = r.chance(1, 4) ? genl(r, 5) : genprod(r, 9);
	// keep the divisor enumeration of the library small
	Q cont; { Z l = 1; for (auto& c : a) { Z g; mpz_lcm(g.get_mpz_t(), l.get_mpz_t(), c.get_den_mpz_t()); l = g; } bool big = false; for (auto& c : a) if (abs(Z(Q(c * l).get_num())) > 2000000) big = true; if (big) a = genl(r, 4, 5, 2); }
	std::string d = ur::str(a); vf::note(d); if (a.size() > 2) vf::observe(d); vf::op("factorization");
	auto x = V()[r.below(ref::NV)]; UP p(x, a);
	auto m = carl::factorization(p);
	L prod{1}; bool ok = true; std::vector<L> fs;
	for (auto& [f, e] : m) { ok = ok && e >= 1; prod = ur::mul(prod, ur::pow(f.coefficients(), static_cast<unsigned>(e))); if (!carl::is_constant(f)) { ok = ok && ur::squarefree(f.coefficients()); fs.push_back(f.coefficients()); } }
	std::ostringstream o; for (auto& [f, e] : m) o << "(" << f << ")^" << e << " ";
	VF_CHECK(prod == a, "factorization-product", d << " gave " << o.str());
	for (size_t i = 0; i < fs.size(); ++i) for (size_t j = i + 1; j < fs.size(); ++j) ok = ok && ur::deg(ur::gcd(fs[i], fs[j])) == 0;
	VF_CHECK(ok, "factorization-squarefree", d << " gave " << o.str());
}
static std::string lst(const std::vector<Z>& v) { std::string s; for (auto& x : v) s += x.get_str() + " "; return s; }
/// Bezout coefficients of integers and solutions of linear equations over the integers
static void int_case(vf::Rng& r) {
	using MZ = carl::MultivariatePolynomial<Z>;
	Z a = r.coin() ? Z(vf::gen_small(r, 60)) : vf::gen_mpz(r), b = r.chance(1, 8) ? Z(-a) : r.coin() ? Z(vf::gen_small(r, 60)) : vf::gen_mpz(r);
	std::string d = a.get_str() + " , " + b.get_str(); vf::note(d); vf::observe(d); vf::op("extended gcd of integers");
	Z g, s, t; mpz_gcd(g.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
	Z e = carl::extended_gcd_integer<Z>(a, b, s, t);
	VF_CHECK(e == g && s * a + t * b == g, "int.extended_gcd", d << " gave " << e << " with " << s << " and " << t);
	size_t n = 1 + r.below(ref::NV); std::vector<Z> c; Z h = 0; MZ p;
	for (size_t i = 0; i < n; ++i) { Z k = vf::gen_small(r, 40); if (k == 0) k = 1; if (r.coin()) k *= 6; c.push_back(k); mpz_gcd(h.get_mpz_t(), h.get_mpz_t(), k.get_mpz_t()); p += MZ(carl::Term<Z>(k, V()[i], 1)); }
	Z k = h * Z(r.chance(1, 6) ? 0 : vf::gen_small(r, 50)); p += k;
	std::string pd = vf::str(p); vf::note(pd); vf::op("linear Diophantine equation");
	auto sol = carl::solveDiophantine(p);
	if (!VF_CHECK(sol.size() == n, "dioph.size", pd << " gave " << lst(sol))) return;
	// the solution lists the values in the order of the terms
	Z sum = 0; size_t i = 0; for (auto& x : p) if (x.monomial()) sum += x.coeff() * sol[i++];
	VF_CHECK(sum + k == 0, "dioph.solution", pd << " gave " << lst(sol));
}
int main(int argc, char** argv) {
	vf::add_group("gcd", 20000, 800000, gcd_case);
	vf::add_group("gf", 15000, 600000, gf_case);
	vf::add_group("sqf", 15000, 600000, sqf_case);
	vf::add_group("fac", 15000, 600000, fac_case);
	vf::add_group("int", 20000, 600000, int_case);
	return vf::run(argc, argv);
}
