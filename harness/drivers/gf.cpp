// C02: residue-class numbers, prime enumeration, factorisation.
#include <vf.h>
#include <carl/numbers/numbers.h>
#include <carl/numbers/PrimeFactory.h>
#include <carl/numbers/FactorizationFactory.h>
using Z = mpz_class;
using GF = carl::GFNumber<Z>; using Field = carl::GaloisField<Z>;
static Z md(const Z& a, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static const unsigned primes[] = {2, 3, 5, 7, 11, 13, 101, 251, 65521, 1000003, 2147483647u};
static Z gmod(const GF& g, const Z& m) { return md(g.representingInteger(), m); }

static const Field* field(vf::Rng& r, Z& m) {
	unsigned p = primes[r.below(11)], k = r.chance(1, 3) ? 1 + static_cast<unsigned>(r.below(4)) : 1;
	m = 1; for (unsigned i = 0; i < k; ++i) m *= p;
	const Field* f = carl::GaloisFieldManager<Z>::getInstance().getField(p, k);
	VF_CHECK(f->p() == p && f->k() == k && f->size() == m, "gf.field", p << "^" << k << " has size " << f->size());
	VF_CHECK((carl::GaloisFieldManager<Z>::getInstance().getField(p, k)) == f, "gf.field-shared", p << "^" << k);
	return f;
}
static Z gen(vf::Rng& r, const Z& m) {
	switch (r.below(5)) {
	case 0: return vf::gen_mpz(r);
	case 1: return Z(m * r.range(-3, 3) + r.range(-1, 1));
	case 2: return Z(m / 2 + r.range(-2, 2)) * (r.coin() ? 1 : -1);
	default: return vf::gen_small(r, 30);
	}
}
static void reduced(const GF& g, const Z& m, const Z& want, const std::string& key, const std::string& d) {
	VF_CHECK(gmod(g, m) == md(want, m), key, d << " gave " << g << " expected " << md(want, m));
	// representative is the symmetric one
	Z n = g.representingInteger();
	VF_CHECK(2 * n <= m && 2 * n >= -m, key + ":reduced", d << " gave " << g);
	VF_CHECK(carl::isZero(g) == (md(want, m) == 0) && g.isZero() == (md(want, m) == 0), key + ":isZero", d << " gave " << g);
	VF_CHECK(carl::isOne(g) == (md(want, m) == 1 % m) && g.isOne() == carl::isOne(g) && g.isUnit() == g.isOne(), key + ":isOne", d << " gave " << g);
}
static void arith_case(vf::Rng& r) {
	Z m; const Field* f = field(r, m);
	Z a = gen(r, m), b = gen(r, m);
	if (r.chance(1, 5)) b = a + m * r.range(-2, 2);
	std::string d = a.get_str() + " , " + b.get_str() + " mod " + m.get_str();
	vf::note(d); vf::observe(d); vf::op("gf.arith");
	VF_CHECK(md(f->modulo(a), m) == md(a, m), "gf.modulo", d << " gave " << f->modulo(a));
	{ Z s = f->symmetricModulo(a); VF_CHECK(md(s, m) == md(a, m) && 2 * s <= m && 2 * s >= -m, "gf.symmetricModulo", d << " gave " << s); VF_CHECK(f->symmetricModulo(Z(a + m)) == s && f->symmetricModulo(Z(a - 3 * m)) == s, "gf.symmetricModulo-unique", d); }
	GF x(a, f), y(b, f);
	reduced(x, m, a, "gf.ctor", d);
	reduced(x + y, m, a + b, "gf.add", d); reduced(x - y, m, a - b, "gf.sub", d); reduced(x * y, m, a * b, "gf.mul", d); reduced(-x, m, -a, "gf.neg", d);
	reduced(x + b, m, a + b, "gf.add-int", d); reduced(x - b, m, a - b, "gf.sub-int", d); reduced(x * b, m, a * b, "gf.mul-int", d);
	reduced(b + x, m, a + b, "gf.int-add", d); reduced(b - x, m, b - a, "gf.int-sub", d); reduced(b * x, m, a * b, "gf.int-mul", d);
	{ GF t = x; t += y; reduced(t, m, a + b, "gf.iadd", d); } { GF t = x; t -= y; reduced(t, m, a - b, "gf.isub", d); } { GF t = x; t *= y; reduced(t, m, a * b, "gf.imul", d); }
	{ GF t = x; t += b; reduced(t, m, a + b, "gf.iadd-int", d); } { GF t = x; t -= b; reduced(t, m, a - b, "gf.isub-int", d); } { GF t = x; t *= b; reduced(t, m, a * b, "gf.imul-int", d); }
	{ GF t = x; ++t; reduced(t, m, a + 1, "gf.inc", d); } { GF t = x; --t; reduced(t, m, a - 1, "gf.dec", d); }
	{ GF t = x; t += t; reduced(t, m, 2 * a, "gf.iadd-self", d); } { GF t = x; t *= t; reduced(t, m, a * a, "gf.imul-self", d); }
	{ GF t = x; t.normalize(); reduced(t, m, a, "gf.normalize", d); }
	Z g; mpz_gcd(g.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t());
	if (g == 1) {
		GF inv = y.inverse();
		VF_CHECK(md(inv.representingInteger() * b, m) == md(Z(1), m), "gf.inverse", d << " gave " << inv);
		GF q = x / y;
		VF_CHECK(md(q.representingInteger() * b - a, m) == 0, "gf.div", d << " gave " << q);
		VF_CHECK(md(carl::quotient(x, y).representingInteger() * b - a, m) == 0, "gf.quotient", d);
		GF t = x; t /= y;
		VF_CHECK(md(t.representingInteger() * b - a, m) == 0, "gf.idiv", d << " gave " << t);
	}
	bool eq = md(a - b, m) == 0;
	VF_CHECK((x == y) == eq && (y == x) == eq && (x != y) == !eq, "gf.eq", d);
	VF_CHECK((x == b) == eq && (b == x) == eq && (x != b) == !eq && (b != x) == !eq, "gf.eq-int", d);
	int c = static_cast<int>(r.range(-6, 6));
	bool eqc = md(a - c, m) == 0;
	VF_CHECK((x == c) == eqc && (c == x) == eqc && (x != c) == !eqc && (c != x) == !eqc, "gf.eq-native", d << " with " << c);
	// numbers without a field mix with numbers of a field
	GF z(b);
	reduced(x + z, m, a + b, "gf.add-nofield", d); reduced(z * x, m, a * b, "gf.mul-nofield", d); reduced(z - x, m, b - a, "gf.sub-nofield", d);
	{ GF t = z; t += x; reduced(t, m, a + b, "gf.iadd-nofield", d); } { GF t = z; t *= x; reduced(t, m, a * b, "gf.imul-nofield", d); } { GF t = z; t -= x; if (!x.isZero()) reduced(t, m, b - a, "gf.isub-nofield", d); }
	{ GF t = x; t += z; reduced(t, m, a + b, "gf.iadd-withnofield", d); } { GF t = x; t *= z; reduced(t, m, a * b, "gf.imul-withnofield", d); } { GF t = x; t -= z; reduced(t, m, a - b, "gf.isub-withnofield", d); }
	// moving to another field
	Z m2; const Field* f2 = field(r, m2);
	reduced(x.toGF(f2), m2, x.representingInteger(), "gf.toGF", d);
}
static bool isprime(unsigned long n) { if (n < 2) return false; for (unsigned long i = 2; i * i <= n; ++i) if (n % i == 0) return false; return true; }
/// mostly small; some past the square of the 60th prime
static size_t index(vf::Rng& r) { return r.below(r.chance(1, 40) ? 9000 : 600); }
static void prime_case(vf::Rng& r) {
	vf::op("primes");
	static std::vector<unsigned long> ref = [] { std::vector<unsigned long> v; for (unsigned long n = 2; v.size() < 9100; ++n) if (isprime(n)) v.push_back(n); return v; }();
	carl::PrimeFactory<carl::uint> a; carl::PrimeFactory<Z> b;
	std::string d = "primes";
	size_t ia = 0, ib = 0, steps = 1 + r.below(60);
	for (size_t s = 0; s < steps; ++s) {
		switch (r.below(4)) {
		case 0: { unsigned long p = a.nextPrime(); VF_CHECK(p == ref[ia], "prime.next-uint", "position " << ia << " gave " << p); ++ia; break; }
		case 1: { Z p = b.nextPrime(); VF_CHECK(p == ref[ib], "prime.next-mpz", "position " << ib << " gave " << p); ++ib; break; }
		case 2: { size_t i = index(r); size_t before = a.size(); unsigned long p = a[i]; VF_CHECK(p == ref[i], "prime.index-uint", i << " gave " << p); if (i >= before) ia = a.size(); break; }
		default: { size_t i = index(r); size_t before = b.size(); Z p = b[i]; VF_CHECK(p == ref[i], "prime.index-mpz", i << " gave " << p); if (i >= before) ib = b.size(); }
		}
	}
	vf::observe("p" + std::to_string(ia) + "," + std::to_string(ib) + "," + std::to_string(steps));
}
static void factor_case(vf::Rng& r) {
	vf::op("factorization");
	carl::FactorizationFactory<carl::uint> ff;
	std::string d;
	std::vector<std::pair<unsigned long, const std::vector<carl::uint>*>> kept;
	for (int s = 0; s < 6; ++s) {
		unsigned long n = r.chance(1, 8) ? r.below(3) : r.below(r.coin() ? 100 : 4000);
		d += std::to_string(n) + " ";
		vf::note(d);
		const auto& v = ff(n);
		kept.emplace_back(n, &v);
		for (auto& [k, p] : kept) {
			if (k == 0) { VF_CHECK(p->empty(), "factor.zero", d); continue; }
			if (k == 1) { VF_CHECK(p->size() == 1 && (*p)[0] == 1, "factor.one", d); continue; }
			unsigned long prod = 1; bool ok = true;
			for (auto q : *p) { prod *= q; ok = ok && isprime(q); }
			VF_CHECK(ok && prod == k, "factor.product", d << ": factors of " << k << " multiply to " << prod);
		}
	}
	vf::observe(d);
}
int main(int argc, char** argv) {
	vf::add_group("arith", 80000, 3000000, arith_case);
	vf::add_group("prime", 4000, 40000, prime_case);
	vf::add_group("factor", 8000, 100000, factor_case);
	return vf::run(argc, argv);
}
