#define VF_REAL_VARS
// C27: real root isolation. Univariate results are compared with bisection on a rational Sturm chain, results
// at algebraic sample points with a Sturm chain over the number field that contains the point.
#include <ranutil.h>
using pu::V; using ur::L;

static L factor(vf::Rng& r) {
	switch (r.below(9)) {
	case 0: return {Q(r.range(-6, 6)), Q(1)};
	case 1: { Q a = vf::gen_q(r, 9, 5), b = vf::gen_q(r, 5, 3); return b == 0 ? L{1} : L{a, b}; }
	case 2: return {Q(-static_cast<long>(r.below(20))), Q(0), Q(1)};
	case 3: return {Q(0), Q(1)};
	case 4: return {Q(r.range(1, 9)), Q(0), Q(1)};                                             // no real root
	case 5: { Q c = vf::gen_q(r, 4, 3), e = Q(1, r.range(2, 2000)); return ur::mul(L{Q(-c), Q(1)}, L{Q(-c - e), Q(1)}); } // cluster
	case 6: { Q c = vf::gen_q(r, 4, 3); Q e(1, r.range(2, 5000)); return {Q(c * c - e * e * 2), Q(-2 * c), Q(1)}; } // irrational cluster
	case 7: { L f; size_t n = 3 + r.below(3); for (size_t j = 0; j < n; ++j) f.push_back(Q(r.range(-9, 9))); return ur::strip(f); }
	default: { L f; size_t n = 2 + r.below(4); for (size_t j = 0; j < n; ++j) f.push_back(vf::gen_q(r, 9, 4)); return ur::strip(f); }
	}
}
static L genp(vf::Rng& r) {
	L a{r.chance(1, 4) ? pu::gen_c(r) : Q(1)};
	if (r.chance(1, 12)) { // Chebyshev-like, Wilkinson-like and Mignotte-like
		switch (r.below(3)) {
		case 0: { L t0{1}, t1{0, 1}; for (size_t n = 2 + r.below(6); n > 0; --n) { L t2 = ur::sub(ur::mul({0, 2}, t1), t0); t0 = t1; t1 = t2; } return t1; }
		case 1: { for (long i = 1; i <= static_cast<long>(3 + r.below(7)); ++i) a = ur::mul(a, L{Q(-i), Q(1)}); return a; }
		default: { long n = 3 + static_cast<long>(r.below(5)); L f(static_cast<size_t>(n) + 1); f[static_cast<size_t>(n)] = 1; Q c(r.range(3, 30)); f[2] -= 2 * c * c; f[1] += 4 * c; f[0] -= 2; return ur::strip(f); }
		}
	}
	for (size_t k = 1 + r.below(4), i = 0; i < k; ++i) {
		L f = factor(r);
		if (f.empty()) f = {3};
		a = ur::mul(a, ur::pow(f, r.chance(1, 5) ? 2 + static_cast<unsigned>(r.below(2)) : 1));
		if (a.size() > 10) break;
	}
	return a;
}
static std::string istr(const IQ& i) { return vf::str(i); }
static IQ gen_interval(vf::Rng& r, const L& a) {
	auto bt = [&] { return r.coin() ? BT::STRICT : BT::WEAK; };
	// endpoints at or near roots
	std::vector<Q> c{0, vf::gen_q(r, 12, 4), vf::gen_q(r, 3, 2), Q(r.range(-9, 9))};
	for (auto& i : ur::isolate(a)) { c.push_back(i.lo); c.push_back(i.hi); if (i.exact) c.push_back(i.lo); }
	for (long k = -6; k <= 6; ++k) if (ur::eval(a, Q(k)) == 0) { c.push_back(k); c.push_back(k); c.push_back(k); }
	Q lo = r.pick(c), hi = r.pick(c);
	if (hi < lo) std::swap(lo, hi);
	switch (r.below(8)) {
	case 0: return IQ::unboundedInterval();
	case 1: return IQ(lo, bt(), Q(0), BT::INFTY);
	case 2: return IQ(Q(0), BT::INFTY, hi, bt());
	case 3: return IQ(lo, BT::WEAK, lo, BT::WEAK);
	case 4: { Q w = ur::cauchy(a.empty() ? L{1} : a); return r.coin() ? IQ(w, bt(), Q(w + 3), bt()) : IQ(Q(-w - 2), bt(), Q(-w), bt()); }
	default: if (lo == hi) hi += 1; return IQ(lo, bt(), hi, bt());
	}
}
static bool in(const IQ& i, const Q& x) {
	if (i.lowerBoundType() == BT::STRICT && !(x > i.lower())) return false;
	if (i.lowerBoundType() == BT::WEAK && !(x >= i.lower())) return false;
	if (i.upperBoundType() == BT::STRICT && !(x < i.upper())) return false;
	if (i.upperBoundType() == BT::WEAK && !(x <= i.upper())) return false;
	return true;
}
/// the roots of a (square-free, not zero) inside of the interval, by reference bisection
static std::vector<ur::Iso> expected(const L& a, const IQ& iv) {
	std::vector<ur::Iso> out;
	L s = ur::sqf(a);
	for (auto i : ur::isolate(a)) {
		if (!i.exact) for (const Q& e : {iv.lower(), iv.upper()}) if (i.lo < e && e < i.hi) { // decide against the endpoints
			if (ur::eval(s, e) == 0) { i = {e, e, true}; break; }
			if (ur::sgn(ur::eval(s, e)) == ur::sgn(ur::eval(s, i.lo))) i.lo = e; else i.hi = e;
		}
		if (i.exact ? in(iv, i.lo) : in(iv, Q((i.lo + i.hi) / 2))) out.push_back(i);
	}
	return out;
}
/// every number of the list is a different root of a, in increasing order
static void uni(vf::Rng& r) {
	L a = genp(r);
	if (r.chance(1, 60)) a = {};
	IQ iv = gen_interval(r, a);
	std::string d = ur::str(a) + " in " + istr(iv);
	vf::note(d);
	vf::op("real_roots");
	UP p(V()[r.below(3)], a);
	auto res = [&] {
		switch (r.below(3)) {
		case 0: return carl::real_roots(p, iv);
		case 1: { std::vector<MP> c; for (auto& x : a) c.emplace_back(x); return carl::real_roots(UMP(p.mainVar(), c), iv); }
		default: if (iv.isInfinite()) return carl::real_roots(p); return carl::real_roots(p, std::map<carl::Variable, RAN>{{V()[3], RAN(Q(1))}}, iv);
		}
	}();
	VF_CHECK(res.is_nullified() == a.empty(), "real_roots:nullified", d);
	if (res.is_nullified()) return;
	VF_CHECK(res.is_univariate() && !res.is_non_univariate(), "real_roots:kind", d);
	auto want = expected(a, iv);
	if (!want.empty()) vf::observe(d);
	vf::op(want.empty() ? "without-roots" : want.size() == 1 ? "one-root" : "several-roots");
	const auto& got = res.roots();
	std::string gs;
	for (auto& g : got) gs += " " + vf::str(g);
	if (!vf::check(got.size() == want.size(), "real_roots:count", [&] { return d + " gave" + gs + " expected " + std::to_string(want.size()); })) return;
	L s = ur::sqf(a);
	for (size_t i = 0; i < got.size(); ++i) {
		if (got[i].is_numeric()) {
			VF_CHECK(ur::eval(a, got[i].value()) == 0, "real_roots:value", d << " gave" << gs);
			VF_CHECK(want[i].exact ? got[i].value() == want[i].lo : (want[i].lo < got[i].value() && got[i].value() < want[i].hi), "real_roots:which", d << " root " << i << " gave" << gs);
		} else {
			IQ g = got[i].interval();
			VF_CHECK(g.lowerBoundType() == BT::STRICT && g.upperBoundType() == BT::STRICT, "real_roots:interval", d << " gave" << gs);
			// exactly one root of a, and it is the expected one
			VF_CHECK(ur::count_open(s, g.lower(), g.upper()) == 1, "real_roots:isolating", d << " gave" << gs);
			VF_CHECK(want[i].exact ? (g.lower() < want[i].lo && want[i].lo < g.upper()) : (std::max(g.lower(), want[i].lo) < std::min(g.upper(), want[i].hi) && ur::count_open(s, std::max(g.lower(), want[i].lo), std::min(g.upper(), want[i].hi)) == 1), "real_roots:which", d << " root " << i << " gave" << gs);
			VF_CHECK(ur::mod(a, ur::gcd(a, L(got[i].polynomial().coefficients()))).empty() && ur::count_open(ur::gcd(a, L(got[i].polynomial().coefficients())), g.lower(), g.upper()) == 1, "real_roots:polynomial", d << " gave" << gs);
			VF_CHECK(ur::count_open(L(got[i].polynomial().coefficients()), g.lower(), g.upper()) == 1, "real_roots:defining", d << " gave" << gs);
		}
		if (i) VF_CHECK((got[i - 1] < got[i] && !(got[i] <= got[i - 1])), "real_roots:order", d << " gave" << gs);
	}
}

// ---------------------------------------------------------------- at algebraic points
using ru::gen_elem; using ru::make;
static void multi(vf::Rng& r) {
	const nf::Field& k = nf::fields()[r.below(6)];
	size_t na = 1 + (k.m.size() <= 5 && r.chance(1, 3) ? 1 : 0);
	std::map<carl::Variable, RAN> map;
	std::vector<L> val(ref::NV);
	std::string d;
	for (size_t i = 0; i < na; ++i) {
		L e = r.chance(1, 6) ? L{vf::gen_q(r, 3, 2)} : gen_elem(r, k, true);
		e = ur::strip(e);
		val[i + 1] = e;
		RAN x = make(r, k, e);
		d += " v" + std::to_string(i + 1) + "=" + vf::str(x);
		map.emplace(V()[i + 1], x);
	}
	// polynomial in v0 with coefficients in the assigned variables
	ref::Poly p;
	auto lin = [&] { ref::Poly c(vf::gen_q(r, 3, 1)); for (size_t i = 1; i <= na; ++i) if (r.coin()) { ref::Mono m = ref::mone(); m[i] = 1 + static_cast<unsigned>(r.below(2)); c.add(m, Q(r.range(-3, 3))); } return c; };
	switch (r.below(4)) {
	case 0: p = (ref::Poly::var(0) - lin()) * (ref::Poly::var(0) - lin()); break;
	case 1: { ref::Mono m = ref::mone(); m[0] = 2; p = ref::Poly(1, m) - lin(); break; }
	case 2: { // vanishes at the point
		size_t i = 1 + r.below(na);
		L m = k.minpoly(val[i]);
		ref::Poly z;
		for (size_t j = 0; j < m.size(); ++j) { ref::Mono mm = ref::mone(); mm[i] = static_cast<unsigned>(j); z.add(mm, m[j]); }
		p = z * (ref::Poly::var(0) - lin());
		if (r.coin()) p = p + (na == 2 && r.coin() ? z * z : ref::Poly()) + (r.coin() ? ref::Poly::var(0) * (r.coin() ? ref::Poly(1) : lin()) : ref::Poly());
		break; }
	default: for (unsigned e = 0; e <= 2 + r.below(2); ++e) { ref::Mono m = ref::mone(); m[0] = e; p = p + ref::Poly(1, m) * lin(); }
	}
	if (p.deg(0) > 3 || p.tdeg() > 6) return;
	{ // the library computes resultants of this degree
		size_t m = 1;
		for (size_t i = 1; i <= na; ++i) if (p.has(i) && !map.at(V()[i]).is_numeric()) m *= map.at(V()[i]).polynomial().degree();
		if (p.deg(0) * m * m > 110) { vf::op("too-large"); return; }
	}
	nf::Field::K kp(p.deg(0) + 1);
	for (auto& [m, c] : p.t) {
		L x{c};
		for (size_t i = 1; i <= na; ++i) for (unsigned j = 0; j < m[i]; ++j) x = k.mul(x, val[i]);
		kp[m[0]] = ur::add(kp[m[0]], x);
	}
	kp = k.kred(kp);
	IQ iv = r.coin() ? IQ::unboundedInterval() : IQ(vf::gen_q(r, 3, 2), BT::STRICT, Q(vf::gen_q(r, 3, 2) + 7), BT::STRICT);
	d = p.str() + " with" + d + " in " + istr(iv);
	vf::note(d);
	vf::observe(d);
	vf::op("real_roots-at-point");
	UMP q(V()[0], std::vector<MP>());
	{ std::vector<MP> c; for (unsigned e = 0; e <= p.deg(0); ++e) c.push_back(pu::build(p.coeff_in(0, e), r)); q = UMP(V()[0], c); }
	bool extra = r.chance(1, 4);
	if (extra) map.emplace(V()[3], RAN(Q(5)));
	auto res = carl::real_roots(q, map, iv);
	VF_CHECK(!res.is_non_univariate(), "real_roots-point:kind", d);
	VF_CHECK(res.is_nullified() == kp.empty(), "real_roots-point:nullified", d << " reported " << (res.is_nullified() ? "nullified" : "not nullified"));
	if (kp.empty() || !res.is_univariate()) { vf::op("nullified"); return; }
	nf::Field::K s = k.ksqf(kp);
	auto ch = k.ksturm(s);
	auto zero_at = [&](const Q& x) { return k.sign(k.kat(s, x == 0 ? L{} : L{x})) == 0; };
	int want = s.size() < 2 ? 0 : iv.isUnbounded() ? k.kvar_inf(ch, false) - k.kvar_inf(ch, true) : k.kvar(ch, iv.lower()) - k.kvar(ch, iv.upper()) - (zero_at(iv.upper()) ? 1 : 0);
	const auto& got = res.roots();
	std::string gs;
	for (auto& g : got) gs += " " + vf::str(g);
	vf::op("roots-" + std::to_string(want));
	if (!vf::check(static_cast<int>(got.size()) == want, "real_roots-point:count", [&] { return d + " gave" + gs + " expected " + std::to_string(want); })) return;
	for (size_t i = 0; i < got.size(); ++i) {
		if (got[i].is_numeric()) VF_CHECK((zero_at(got[i].value()) && in(iv, got[i].value())), "real_roots-point:value", d << " gave" << gs);
		else {
			IQ g = got[i].interval();
			VF_CHECK(k.kvar(ch, g.lower()) - k.kvar(ch, g.upper()) - (zero_at(g.upper()) ? 1 : 0) == 1, "real_roots-point:isolating", d << " gave" << gs);
		}
		if (i) VF_CHECK(got[i - 1] < got[i], "real_roots-point:order", d << " gave" << gs);
	}
}
/// a variable without a value
static void open_variable(vf::Rng& r) {
	ref::Poly p = pu::gen_poly_nz(r, 4, 2, 3);
	std::vector<MP> c;
	for (unsigned e = 0; e <= p.deg(0); ++e) c.push_back(pu::build(p.coeff_in(0, e), r));
	UMP q(V()[0], c);
	std::map<carl::Variable, RAN> map;
	std::vector<Q> at(ref::NV);
	for (size_t i = 1; i < 3; ++i) if (r.coin()) { at[i] = vf::gen_q(r, 3, 2); map.emplace(V()[i], RAN(at[i])); }
	std::string d = p.str(); for (auto& [v, x] : map) d += " " + vf::str(v) + "=" + vf::str(x);
	vf::note(d); vf::observe(d); vf::op("partial-assignment");
	std::map<size_t, ref::Poly> s;
	for (size_t i = 1; i < 3; ++i) if (map.count(V()[i])) s[i] = ref::Poly(at[i]);
	ref::Poly w = ref::subst(p, s);
	bool missing = false;
	for (size_t i = 1; i < 3; ++i) if (!map.count(V()[i]) && p.has(i)) missing = true;
	auto res = carl::real_roots(q, map);
	if (missing) { // may still have become constant or univariate
		vf::op("missing-value");
		if (res.is_nullified()) VF_CHECK(w.zero(), "real_roots:partial-nullified", d);
		else if (res.is_univariate()) VF_CHECK((!w.has(1) && !w.has(2)), "real_roots:partial-univariate", d);
		return;
	}
	VF_CHECK(res.is_nullified() == w.zero(), "real_roots:full-nullified", d);
	if (w.zero()) return;
	L a(w.deg(0) + 1);
	for (auto& [m, k] : w.t) a[m[0]] = k;
	VF_CHECK(res.is_univariate() && static_cast<int>(res.roots().size()) == ur::count_all(a), "real_roots:full-count", d << " gave " << (res.is_univariate() ? res.roots().size() : 0));
}
int main(int argc, char** argv) {
	vf::add_group("uni", 16000, 300000, uni);
	vf::add_group("point", 2400, 40000, multi);
	vf::add_group("partial", 3000, 60000, open_variable);
	return vf::run(argc, argv);
}
