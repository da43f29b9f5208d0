// Algebraic numbers drawn from the reference number fields.
#pragma once
#include <polyutil.h>
#include <upoly.h>
#include <numfield.h>
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>
using RAN = carl::real_algebraic_number_interval<Q>;
using IQ = carl::Interval<Q>;
using BT = carl::BoundType;

namespace ru {
using ur::L;
inline L gen_elem(vf::Rng& r, const nf::Field& k, bool low) {
	L e;
	size_t n = k.m.size() - 1;
	if (low) { e.resize(n); size_t i = r.below(n); e[i] = r.coin() ? Q(1) : vf::gen_q(r, 3, 2); if (r.coin()) e[0] += vf::gen_q(r, 4, 2); }
	else for (size_t i = 0; i < n; ++i) e.push_back(r.coin() ? Q(0) : vf::gen_q(r, 3, 2));
	return ur::strip(e);
}
/// number with an isolating interval of random width; the defining polynomial may have other roots
inline RAN make(vf::Rng& r, const nf::Field& k, const L& e) {
	L m = k.minpoly(e);
	if (m.size() == 2 && r.coin()) return RAN(Q(-m[0]));
	if (r.chance(1, 4)) { L f = ur::mul(m, L{Q(r.range(-9, 9)), Q(1)}); if (ur::squarefree(f)) m = f; }
	if (r.chance(1, 6)) { L f = ur::mul(m, L{Q(-static_cast<long>(r.below(9)) - 2), Q(0), Q(1)}); if (ur::squarefree(f) && f.size() < 7) m = f; }
	if (r.chance(1, 3)) m = ur::sc(m, pu::gen_c(r));
	for (Q w = r.coin() ? Q(2) : Q(1, 100);; w /= 2) {
		auto [lo, hi] = k.enclose(e, w);
		if (lo == hi) { lo -= w; hi += w; }
		lo -= w / 3; hi += w / 5;
		{ // short endpoints
			mpz_class z; Q g = w / 16, t = lo / g;
			mpz_fdiv_q(z.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t()); lo = Q(z) * g;
			t = hi / g;
			mpz_cdiv_q(z.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t()); hi = Q(z) * g;
		}
		if (r.coin()) { // round outwards to get shared endpoints
			mpz_class f;
			mpz_fdiv_q(f.get_mpz_t(), lo.get_num_mpz_t(), lo.get_den_mpz_t()); Q l2(f);
			mpz_cdiv_q(f.get_mpz_t(), hi.get_num_mpz_t(), hi.get_den_mpz_t()); Q h2(f);
			if (ur::eval(m, l2) != 0 && ur::eval(m, h2) != 0 && ur::count(m, l2, h2) == 1) { lo = l2; hi = h2; }
		}
		if (ur::eval(m, lo) != 0 && ur::eval(m, hi) != 0 && ur::count(m, lo, hi) == 1) return RAN(UP(pu::V()[0], m), IQ(lo, BT::STRICT, hi, BT::STRICT));
	}
}
/// value of a polynomial whose variables 1..n have values in the field
inline L value(const nf::Field& k, const ref::Poly& p, const std::vector<L>& val) {
	L s;
	for (auto& [m, c] : p.t) {
		L x{c};
		for (size_t i = 0; i < ref::NV; ++i) for (unsigned j = 0; j < m[i]; ++j) x = k.mul(x, val[i]);
		s = ur::add(s, x);
	}
	return k.red(s);
}
/// does the number still denote e?
inline bool denotes(const nf::Field& k, const RAN& x, const L& e) {
	if (x.is_numeric()) return k.cmp(e, x.value() == 0 ? L{} : L{x.value()}) == 0;
	const auto& i = x.interval();
	if (k.cmp(e, i.lower() == 0 ? L{} : L{i.lower()}) <= 0 || k.cmp(e, i.upper() == 0 ? L{} : L{i.upper()}) >= 0) return false;
	L p(x.polynomial().coefficients());
	if (ur::count_open(p, i.lower(), i.upper()) != 1) return false;
	L at;
	for (size_t j = p.size(); j > 0; --j) at = ur::add(k.mul(at, e), p[j - 1] == 0 ? L{} : L{p[j - 1]});
	return k.red(at).empty();
}
inline L cst(const Q& q) { return q == 0 ? L{} : L{q}; }
}
