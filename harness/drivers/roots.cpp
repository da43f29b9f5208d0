// C11: root bounds, root counting, sign variations, root elimination, definiteness, sums of squares.
#include <polyutil.h>
#include <upoly.h>
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootElimination.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>
using pu::V; using ur::L; using IQ = carl::Interval<Q>;
static L genp(vf::Rng& r) {
	L a{pu::gen_c(r)};
	size_t k = 1 + r.below(4);
	for (size_t i = 0; i < k; ++i) {
		L f;
		switch (r.below(5)) {
		case 0: f = {Q(vf::gen_small(r, 6)), Q(1)}; break;
		case 1: f = {vf::gen_q(r, 9, 5), vf::gen_q(r, 5, 3)}; break;
		case 2: f = {Q(-static_cast<long>(r.below(20))), Q(0), Q(1)}; break;
		case 3: f = {Q(0), Q(1)}; break;
		default: { size_t n = 1 + r.below(5); for (size_t j = 0; j < n; ++j) f.push_back(vf::gen_q(r, 9, 4)); } }
		f = ur::strip(f); if (f.empty()) f = {Q(3)};
		a = ur::mul(a, ur::pow(f, r.chance(1, 4) ? 2 : 1));
		if (a.size() > 9) break;
	}
	if (r.chance(1, 8)) for (auto& c : a) c *= vf::gen_mpq(r) == 0 ? Q(1) : Q(7, 3);
	return a;
}
static bool none_between(const L& p, const Q& a, const Q& b) { return ur::count_open(p, a, b) == 0; }
static void bounds_case(vf::Rng& r) {
	L a = r.chance(1, 5) ? L{} : genp(r); if (a.empty()) { size_t n = 1 + r.below(7); for (size_t i = 0; i < n; ++i) a.push_back(vf::gen_q(r, 99, 20)); a = ur::strip(a); if (a.empty()) a = {Q(1)}; }
	std::string d = ur::str(a); vf::note(d); if (a.size() > 1) vf::observe(d); vf::op("bounds");
	UP p(V()[0], a); int total = ur::count_all(a);
	auto encloses = [&](const Q& b) { if (b == 0) return total == (ur::eval(a, 0) == 0 ? 1 : 0); return b >= 0 && ur::count_open(a, -b, b) + (ur::eval(a, b) == 0 ? 1 : 0) + (b != 0 && ur::eval(a, -b) == 0 ? 1 : 0) == total; };
	if (a.size() > 1) {
		VF_CHECK(encloses(carl::cauchyBound(p)), "cauchyBound", d << " gave " << carl::cauchyBound(p));
		VF_CHECK(encloses(carl::hirstMaceyBound(p)), "hirstMaceyBound", d << " gave " << carl::hirstMaceyBound(p));
		VF_CHECK(encloses(carl::lagrangeBound(p)), "lagrangeBound", d << " gave " << carl::lagrangeBound(p));
		Q big = ur::cauchy(a);
		Q u = carl::lagrangePositiveUpperBound(p); VF_CHECK(u >= 0 && none_between(a, u, std::max<Q>(u + 1, big)), "lagrangePositiveUpperBound", d << " gave " << u);
		Q l = carl::lagrangePositiveLowerBound(p); VF_CHECK(l >= 0 && (l == 0 || none_between(a, 0, l)), "lagrangePositiveLowerBound", d << " gave " << l);
		if (l == 0) VF_CHECK(a[0] == 0 || none_between(a, 0, big), "lagrangePositiveLowerBound-none", d << " gave 0");
		Q n = carl::lagrangeNegativeUpperBound(p); VF_CHECK(n <= 0 && (n == 0 || none_between(a, n, 0)), "lagrangeNegativeUpperBound", d << " gave " << n);
		// the documented formulas themselves
		Q mx = 0, sum = 0; for (size_t i = 0; i + 1 < a.size(); ++i) { Q c = abs(a[i]); if (c > mx) mx = c; sum += c; } Q lc = abs(a.back());
		VF_CHECK(carl::cauchyBound(p) == 1 + mx / lc, "cauchyBound-formula", d << " gave " << carl::cauchyBound(p)); VF_CHECK(carl::hirstMaceyBound(p) == std::max<Q>(Q(1), sum / lc), "hirstMaceyBound-formula", d << " gave " << carl::hirstMaceyBound(p));
	} else { VF_CHECK(carl::cauchyBound(p) == 0 && carl::hirstMaceyBound(p) == 0 && carl::lagrangeBound(p) == 0, "bounds-constant", d); }
}
static void count_case(vf::Rng& r) {
	L a = genp(r); UP p(V()[0], a); std::string d = ur::str(a); vf::note(d); if (a.size() > 2) vf::observe(d); vf::op("count");
	auto seq = carl::sturm_sequence(p); auto ch = ur::sturm(a);
	if (a.size() > 1) { bool same = seq.size() == ch.size(); for (size_t i = 0; same && i < ch.size(); ++i) same = seq[i].coefficients() == ch[i]; VF_CHECK(same, "sturm_sequence", d << " gave " << seq.size() << " members"); }
	for (int i = 0; i < 4; ++i) {
		Q lo = vf::gen_q(r, 12, 4), hi = lo + abs(vf::gen_q(r, 12, 5)); if (hi == lo) hi += 1;
		if (r.chance(1, 3)) { lo = -ur::cauchy(a); hi = ur::cauchy(a); }
		bool lr = ur::eval(a, lo) == 0, hr = ur::eval(a, hi) == 0;
		if (a.size() > 1 && !lr && !hr) { int want = ur::count_open(a, lo, hi); int got = carl::count_real_roots(p, IQ(lo, hi)); VF_CHECK(got == want, "count_real_roots", d << " in (" << lo << "," << hi << ") gave " << got << " expected " << want); }
		// with multiplicities, Descartes gives roots + 2k
		if (a.size() > 1) {
			int roots = 0; { L q = a; while (true) { L s = ur::sqf(q); roots += ur::count_open(s, lo, hi); q = ur::quo(q, s); if (q.size() <= 1) break; } }
			int got = static_cast<int>(carl::sign_variations(p, IQ(lo, carl::BoundType::STRICT, hi, carl::BoundType::STRICT)));
			VF_CHECK(got >= roots && (got - roots) % 2 == 0, "sign_variations", d << " in (" << lo << "," << hi << ") gave " << got << " roots " << roots);
			// exact value from the definition: variations of (1+x)^n p((lo+hi x)/(1+x))
			L t; size_t n = a.size() - 1; for (size_t k = 0; k < a.size(); ++k) t = ur::add(t, ur::sc(ur::mul(ur::pow(L{lo, hi}, static_cast<unsigned>(k)), ur::pow(L{1, 1}, static_cast<unsigned>(n - k))), a[k]));
			int v = 0, last = 0; for (auto& c : t) { int g = ur::sgn(c); if (g && last && g != last) ++v; if (g) last = g; }
			VF_CHECK(got == v, "sign_variations-exact", d << " in (" << lo << "," << hi << ") gave " << got << " expected " << v);
		}
		if (a.size() > 1) { int v = 0, last = 0; Q x = lo; for (size_t k = 0; k < a.size(); ++k) { int g = ur::sgn(a[k]) * (k == 0 ? 1 : ur::sgn(ref::qpow(x, static_cast<unsigned>(k)))); if (g && last && g != last) ++v; if (g) last = g; } int got = static_cast<int>(carl::sign_variations(p, IQ(lo))); VF_CHECK(got == v, "sign_variations-point", d << " at " << lo << " gave " << got << " expected " << v); }
	}
	VF_CHECK(carl::sign_variations(p, IQ::emptyInterval()) == 0, "sign_variations-empty", d);
	// generic sign sequence helper
	std::vector<Q> seqv; size_t n = r.below(7); for (size_t i = 0; i < n; ++i) seqv.push_back(Q(vf::gen_small(r, 2)));
	int v = 0, last = 0; for (auto& c : seqv) { int g = ur::sgn(c); if (g && last && g != last) ++v; if (g) last = g; }
	VF_CHECK(static_cast<int>(carl::sign_variations(seqv.begin(), seqv.end(), [](const Q& q) { return carl::sgn(q); })) == v, "sign_variations-seq", ur::str(seqv));
}
static void elim_case(vf::Rng& r) {
	L a = genp(r); Q x = r.chance(1, 4) ? Q(0) : vf::gen_q(r, 6, 4); unsigned m = 1 + static_cast<unsigned>(r.below(3));
	L b = ur::mul(a, ur::pow(L{Q(-x), Q(1)}, m)); std::string d = ur::str(b) + " without " + x.get_str(); vf::note(d); vf::observe(d); vf::op("eliminate");
	L want = b; while (ur::eval(want, x) == 0) want = ur::quo(want, L{Q(-x), Q(1)});
	UP p(V()[0], b); carl::eliminate_root(p, x);
	VF_CHECK(p.coefficients() == want, "eliminate_root", d << " gave " << p << " expected " << ur::str(want));
	L c = r.coin() ? b : ur::mul(a, ur::pow(L{0, 1}, m)); UP q(V()[0], c); carl::eliminate_zero_root(q); L w0 = c; while (ur::eval(w0, 0) == 0) w0 = ur::quo(w0, L{0, 1});
	VF_CHECK(q.coefficients() == w0, "eliminate_zero_root", ur::str(c) << " gave " << q);
}
static void def_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3); ref::Poly a;
	switch (r.below(6)) {
	case 0: a = pu::gen_poly(r, 5, 4, nv); break;
	case 1: { size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) { ref::Poly l; for (size_t j = 0; j < nv; ++j) l = l + ref::scale(ref::Poly::var(j), Q(vf::gen_small(r, 3))); if (r.coin()) l = l + ref::Poly(Q(vf::gen_small(r, 2))); a = a + ref::scale(l * l, Q(1 + static_cast<long>(r.below(3)))); } if (r.chance(1, 3)) a = a + ref::Poly(vf::gen_q(r, 3, 2)); if (r.chance(1, 5)) a = ref::scale(a, -1); break; }
	case 2: { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) { ref::Mono m = ref::mone(); for (size_t j = 0; j < nv; ++j) m[j] = 2 * static_cast<unsigned>(r.below(3)); a.add(m, Q(1 + static_cast<long>(r.below(4)))); } if (r.coin()) a = ref::scale(a, -1); if (r.chance(1, 4)) a = a + ref::Poly(Q(vf::gen_small(r, 3))); break; }
	case 3: { for (size_t i = 0; i < nv; ++i) for (size_t j = i; j < nv; ++j) { ref::Mono m = ref::mone(); m[i]++; m[j]++; a.add(m, Q(vf::gen_small(r, 4))); } if (r.coin()) a = a + ref::Poly(Q(vf::gen_small(r, 4))); break; }
	case 4: a = ref::Poly(Q(vf::gen_small(r, 3))); break;
	default: { for (size_t i = 0; i < nv; ++i) for (size_t j = i; j < nv; ++j) { ref::Mono m = ref::mone(); m[i]++; m[j]++; a.add(m, i == j ? Q(1 + static_cast<long>(r.below(4))) : Q(vf::gen_small(r, 2))); } for (size_t i = 0; i < nv; ++i) if (r.chance(1, 3)) a = a + ref::scale(ref::Poly::var(i), Q(vf::gen_small(r, 3))); if (r.coin()) a = a + ref::Poly(Q(vf::gen_small(r, 4))); if (r.chance(1, 4)) a = ref::scale(a, -1); } }
	std::string d = a.str(); vf::note(d); if (!a.constant()) vf::observe(d); vf::op("definiteness");
	MP p = pu::build(a, r);
	for (bool full : {true, false}) {
		auto v = carl::definiteness(p, full); bool pos = false, neg = false, zero = false; Q bad;
		auto probe = [&](const std::vector<Q>& pt) { int s = ur::sgn(a.eval(pt)); if (s > 0) pos = true; if (s < 0) neg = true; if (s == 0) zero = true; };
		std::vector<Q> grid{-3, -1, Q(-1, 2), 0, Q(1, 2), 1, 2};
		for (size_t i = 0; i < 60; ++i) { std::vector<Q> pt(ref::NV); for (size_t j = 0; j < nv; ++j) pt[j] = r.chance(1, 4) ? vf::gen_q(r, 50, 7) : grid[r.below(grid.size())]; probe(pt); }
		// for quadratics look at the critical point as well
		if (a.tdeg() == 2 && nv >= 1) { std::vector<Q> pt(ref::NV); for (int it = 0; it < 3; ++it) for (size_t j = 0; j < nv; ++j) { Q A = a.coeff_in(j, 2).eval(pt), B = a.coeff_in(j, 1).eval(pt); if (A != 0) pt[j] = -B / (2 * A); probe(pt); } }
		bool ok = true; using D = carl::Definiteness;
		if (v == D::NEGATIVE) ok = !pos && !zero; if (v == D::NEGATIVE_SEMI) ok = !pos; if (v == D::POSITIVE_SEMI) ok = !neg; if (v == D::POSITIVE) ok = !neg && !zero;
		vf::op(v == D::NON ? "definiteness-none" : "definiteness-verdict");
		VF_CHECK(ok, full ? "definiteness" : "definiteness-cheap", d << " gave " << v);
	}
	for (auto& t : p) { using D = carl::Definiteness; auto v = carl::definiteness(t); ref::Poly rt = pu::rpoly(t); bool even = true; for (auto e : rt.t.begin()->first) even = even && e % 2 == 0; D want = !even ? D::NON : rt.constant() ? (t.coeff() < 0 ? D::NEGATIVE : D::POSITIVE) : (t.coeff() < 0 ? D::NEGATIVE_SEMI : D::POSITIVE_SEMI); VF_CHECK(v == want, "definiteness-term", rt.str() << " gave " << v); }
	if (a.zero()) return;
	for (bool nt : {false, true}) {
		auto s = carl::sos_decomposition(p, nt); if (s.empty()) continue; vf::op("sos-found");
		ref::Poly sum; bool ok = true; for (auto& [c, q] : s) { ok = ok && c >= 0; ref::Poly x = pu::rpoly(q); sum = sum + ref::scale(x * x, c); }
		VF_CHECK(ok && sum == a, "sos_decomposition", d << " gave a decomposition of " << sum.str());
	}
}
int main(int argc, char** argv) {
	vf::add_group("bounds", 15000, 400000, bounds_case);
	vf::add_group("count", 8000, 200000, count_case);
	vf::add_group("elim", 15000, 400000, elim_case);
	vf::add_group("def", 8000, 200000, def_case);
	return vf::run(argc, argv);
}
