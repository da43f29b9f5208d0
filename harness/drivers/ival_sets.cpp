// C13: set operations, predicates, order, splitting and samples of intervals against point sets.
#include <ri.h>
#include <carl/interval/evaluate.h>
#include <carl/interval/sampling.h>
#include <carl/interval/set_theory.h>

using namespace ri;
using carl::BoundType;
template<typename N> using CI = carl::Interval<N>;

template<typename N> static std::string K(const char* s) { return std::string(std::is_same<N, double>::value ? "iset.d." : "iset.q.") + s; }
template<typename N> static std::string show(const CI<N>& i) { std::ostringstream o; o.precision(17); o << i; return o.str(); }

static bool all_less(const RI& a, const RI& b) { // for all x in a, y in b: x < y (both non-empty)
	if (a.uinf || b.linf) return false;
	return a.hi < b.lo || (a.hi == b.lo && (a.uopen || b.lopen));
}
static bool all_leq(const RI& a, const RI& b) { return !a.uinf && !b.linf && a.hi <= b.lo; }

/// x ∈ A ∪ B for the two results; must equal want on all critical points
template<typename N>
static void twofold(const char* op, bool two, const CI<N>& ra, const CI<N>& rb, const std::function<bool(const Q&)>& want, const std::vector<RI>& in, const std::string& desc) {
	vf::op(op);
	RI a = of(ra), b = of(rb);
	std::vector<RI> all = in;
	all.push_back(a);
	all.push_back(b);
	for (auto& x : critical(all)) {
		bool got = a.has(x) || (two && b.has(x));
		if (!VF_CHECK(got == want(x), K<N>(op), desc << " gives " << a << (two ? " and " + b.str() : std::string()) << ": wrong at " << x)) return;
	}
	if (two) VF_CHECK(!a.empty && !b.empty && meet(a, b).empty, K<N>(op) + ":twofold", desc << " reported twofold but gives " << a << " and " << b);
	else VF_CHECK(b.empty || subset(b, a), K<N>(op) + ":single", desc << " reported one part but second is " << b);
}
template<typename N>
static void pair_ops(const CI<N>& x, const RI& a, const CI<N>& y, const RI& b) {
	std::string d = a.str() + " and " + b.str();
	auto in_a = [&](const Q& p) { return a.has(p); };
	(void)in_a;
	VF_CHECK(x.contains(y) == subset(b, a), K<N>("contains"), d << ": contains reported " << x.contains(y));
	VF_CHECK(carl::set_is_subset(x, y) == subset(a, b), K<N>("set_is_subset"), d);
	VF_CHECK(carl::set_is_proper_subset(x, y) == (subset(a, b) && !(a == b)), K<N>("set_is_proper_subset"), d);
	VF_CHECK(carl::set_have_intersection(x, y) == !meet(a, b).empty, K<N>("set_have_intersection"), d << " reported " << carl::set_have_intersection(x, y));
	VF_CHECK(of(carl::set_intersection(x, y)) == meet(a, b), K<N>("set_intersection"), d << " gives " << show(carl::set_intersection(x, y)));
	VF_CHECK(of(x.convexHull(y)) == hull(a, b), K<N>("convexHull"), d << " gives " << show(x.convexHull(y)));
	vf::op("pair-predicates");
	CI<N> p(num<N>(7)), q(num<N>(7));
	bool two = carl::set_union(x, y, p, q);
	twofold<N>("set_union", two, p, q, [&](const Q& v) { return a.has(v) || b.has(v); }, {a, b}, d);
	p = CI<N>(num<N>(7)); q = CI<N>(num<N>(7));
	two = carl::set_difference(x, y, p, q);
	twofold<N>("set_difference", two, p, q, [&](const Q& v) { return a.has(v) && !b.has(v); }, {a, b}, d);
	p = CI<N>(num<N>(7)); q = CI<N>(num<N>(7));
	two = carl::set_symmetric_difference(x, y, p, q);
	twofold<N>("set_symmetric_difference", two, p, q, [&](const Q& v) { return a.has(v) != b.has(v); }, {a, b}, d);
	// order
	if (!a.empty && !b.empty) {
		VF_CHECK((x < y) == all_less(a, b), K<N>("less"), d << " reported " << (x < y));
		VF_CHECK((x > y) == all_less(b, a), K<N>("greater"), d << " reported " << (x > y));
		VF_CHECK((x <= y) == all_leq(a, b), K<N>("leq"), d << " reported " << (x <= y));
		VF_CHECK((x >= y) == all_leq(b, a), K<N>("geq"), d << " reported " << (x >= y));
		Q dist = 0;
		if (!a.uinf && !b.linf && a.hi < b.lo) dist = b.lo - a.hi;
		if (!b.uinf && !a.linf && b.hi < a.lo) dist = a.lo - b.hi;
		if (std::is_same<N, mpq_class>::value) { CI<N> z = x; VF_CHECK(Q(z.distance(y)) == dist, K<N>("distance"), d << " reported " << Q(z.distance(y)) << " expected " << dist); }
		// bounds
		auto lcmp = [](const RI& u, const RI& v) { if (u.linf || v.linf) return (v.linf ? 1 : 0) - (u.linf ? 1 : 0); if (u.lo != v.lo) return u.lo < v.lo ? -1 : 1; return (u.lopen ? 1 : 0) - (v.lopen ? 1 : 0); };
		auto ucmp = [](const RI& u, const RI& v) { if (u.uinf || v.uinf) return (u.uinf ? 1 : 0) - (v.uinf ? 1 : 0); if (u.hi != v.hi) return u.hi < v.hi ? -1 : 1; return (v.uopen ? 1 : 0) - (u.uopen ? 1 : 0); };
		VF_CHECK((x.lowerBound() < y.lowerBound()) == (lcmp(a, b) < 0) && (x.lowerBound() <= y.lowerBound()) == (lcmp(a, b) <= 0), K<N>("lower-bound-order"), d);
		VF_CHECK((x.upperBound() < y.upperBound()) == (ucmp(a, b) < 0) && (x.upperBound() <= y.upperBound()) == (ucmp(a, b) <= 0), K<N>("upper-bound-order"), d);
		VF_CHECK((x.upperBound() < y.lowerBound()) == all_less(a, b) && (y.lowerBound() <= x.upperBound()) == !all_less(a, b), K<N>("upper-lower-order"), d);
		VF_CHECK(carl::bounds_connect(x.upperBound(), y.lowerBound()) == (!a.uinf && !b.linf && a.hi == b.lo && a.uopen != b.lopen), K<N>("bounds_connect"), d);
	}
	if (std::is_same<N, mpq_class>::value) {
		VF_CHECK((x == y) == (a == b) && (x != y) == !(a == b), K<N>("equal"), d << ": " << show(x) << " == " << show(y) << " reported " << (x == y));
		if (a == b) VF_CHECK(std::hash<CI<N>>()(x) == std::hash<CI<N>>()(y), K<N>("hash"), d);
	}
}
template<typename N>
static void single_ops(const CI<N>& x, const RI& a, vf::Rng& r) {
	std::string d = a.str();
	vf::op("single-predicates");
	for (auto& p : critical({a, make(0, 1, 1, 1)})) {
		N n = num<N>(p);
		Q pq(n);
		RI pt = make(pq, 1, pq, 1);
		VF_CHECK(x.contains(n) == a.has(pq), K<N>("contains-number"), d << " and " << pq);
		if (a.empty) continue;
		VF_CHECK(x.meets(n) == ((a.linf || a.lo <= pq) && (a.uinf || a.hi >= pq)), K<N>("meets"), d << " and " << pq);
		VF_CHECK((x < n) == all_less(a, pt) && (x > n) == all_less(pt, a) && (x <= n) == all_leq(a, pt) && (x >= n) == all_leq(pt, a), K<N>("compare-number"), d << " and " << pq);
		VF_CHECK((n < x) == all_less(pt, a) && (n > x) == all_less(a, pt) && (n <= x) == all_leq(pt, a) && (n >= x) == all_leq(a, pt), K<N>("compare-number"), d << " and " << pq);
		VF_CHECK((x == n) == (a == pt) && (n == x) == (a == pt) && (x != n) == !(a == pt), K<N>("equal-number"), d << " and " << pq);
	}
	VF_CHECK(x.isEmpty() == a.empty, K<N>("isEmpty"), d);
	VF_CHECK(x.isInfinite() == (!a.empty && a.linf && a.uinf), K<N>("isInfinite"), d);
	VF_CHECK(x.isUnbounded() == (!a.empty && (a.linf || a.uinf)), K<N>("isUnbounded"), d);
	VF_CHECK(x.isHalfBounded() == (!a.empty && a.linf != a.uinf), K<N>("isHalfBounded"), d);
	VF_CHECK(x.isPointInterval() == a.point(), K<N>("isPointInterval"), d);
	VF_CHECK(x.isZero() == (a.point() && a.lo == 0) && carl::isZero(x) == x.isZero(), K<N>("isZero"), d);
	VF_CHECK(x.isOne() == (a.point() && a.lo == 1) && carl::isOne(x) == x.isOne(), K<N>("isOne"), d);
	VF_CHECK(carl::isInteger(x) == (a.point() && a.lo.get_den() == 1), K<N>("isInteger"), d);
	VF_CHECK(x.containsInteger() == !integers(a).empty, K<N>("containsInteger"), d);
	CI<N> p(num<N>(7)), q(num<N>(7));
	if constexpr (std::is_same<N, mpq_class>::value) { // ambiguous for floating point bounds
		bool two = carl::set_complement(x, p, q);
		std::vector<RI> in = {a};
		twofold<N>("set_complement", two, p, q, [&](const Q& v) { return !a.has(v); }, in, d);
	}
	if (a.empty) return;
	VF_CHECK(x.isPositive() == subset(a, make(0, 0, 0, 2)), K<N>("isPositive"), d);
	VF_CHECK(x.isNegative() == subset(a, make(0, 2, 0, 0)), K<N>("isNegative"), d);
	VF_CHECK(x.isSemiPositive() == subset(a, make(0, 1, 0, 2)), K<N>("isSemiPositive"), d);
	VF_CHECK(x.isSemiNegative() == subset(a, make(0, 2, 0, 1)), K<N>("isSemiNegative"), d);
	VF_CHECK(x.sgn() == (x.isPositive() ? carl::Sign::POSITIVE : x.isNegative() ? carl::Sign::NEGATIVE : carl::Sign::ZERO), K<N>("sgn"), d);
	if (a.bounded()) {
		if (std::is_same<N, mpq_class>::value) VF_CHECK(Q(x.diameter()) == a.hi - a.lo, K<N>("diameter"), d);
		else VF_CHECK(Q(x.diameter()) >= a.hi - a.lo && Q(x.diameter()) <= (a.hi - a.lo) * Q(1000001, 1000000) , K<N>("diameter"), d);
		Q m = std::max(a.lo < 0 ? Q(-a.lo) : a.lo, a.hi < 0 ? Q(-a.hi) : a.hi);
		VF_CHECK(Q(x.magnitude()) == m, K<N>("magnitude"), d << " reported " << Q(x.magnitude()));
	}
	// relation to zero
	struct { carl::Relation r; bool n, z, p; } rels[] = {{carl::Relation::EQ, false, true, false}, {carl::Relation::NEQ, true, false, true}, {carl::Relation::LESS, true, false, false},
		{carl::Relation::LEQ, true, true, false}, {carl::Relation::GREATER, false, false, true}, {carl::Relation::GEQ, false, true, true}};
	bool hn = !negp(a).empty, hz = a.has(0), hp = !pos(a).empty;
	for (auto& e : rels) {
		bool can = (hn && e.n) || (hz && e.z) || (hp && e.p), must = (!hn || e.n) && (!hz || e.z) && (!hp || e.p);
		boost::tribool t = carl::evaluate(x, e.r);
		bool ok = boost::indeterminate(t) ? (can && !must) : (bool(t) ? must : !can);
		VF_CHECK(ok, K<N>("evaluate"), d << " " << e.r << " 0");
	}
	(void)r;
}
static void g_qpair(vf::Rng& r) {
	RI a = gen(r), b = gen(r);
	if (r.chance(1, 3)) { // share ends
		if (!a.empty && !b.empty) { if (r.coin()) b.lo = a.hi; else b.hi = a.lo; if (r.coin()) { b.lo = a.lo; } b = make(b.lo, b.linf ? 2 : !b.lopen, b.hi, b.uinf ? 2 : !b.uopen); }
	}
	if (r.chance(1, 10)) b = a;
	vf::note(a.str() + " and " + b.str());
	vf::observe(a.str() + b.str());
	auto x = lib<mpq_class>(a), y = lib<mpq_class>(b);
	pair_ops(x, a, y, b);
	single_ops(x, a, r);
}
static void g_dpair(vf::Rng& r) {
	auto end = [](vf::Rng& q) { return Q(static_cast<double>(q.range(-8, 8)) / (q.coin() ? 2 : 10)); };
	RI a = gen(r, end), b = gen(r, end);
	vf::note("double " + a.str() + " and " + b.str());
	vf::observe(a.str() + b.str());
	auto x = lib<double>(a), y = lib<double>(b);
	pair_ops(x, a, y, b);
	single_ops(x, a, r);
}
/// values reached by mutation: equality and hash are those of the sets
static void g_mut(vf::Rng& r) {
	RI m = gen(r);
	auto x = lib<mpq_class>(m);
	std::string log = m.str();
	for (int s = 0; s < 5; ++s) {
		Q n = gen_end(r);
		int t = static_cast<int>(r.below(3));
		switch (r.below(7)) {
		case 0: if (m.empty || (!m.uinf && n > m.hi)) continue; m = make(n, t, m.hi, m.uinf ? 2 : !m.uopen); x.setLowerBound(n, static_cast<BoundType>(t)); log += " lb"; break;
		case 1: if (m.empty || (!m.linf && n < m.lo)) continue; m = make(m.lo, m.linf ? 2 : !m.lopen, n, t); x.setUpperBound(n, static_cast<BoundType>(t)); log += " ub"; break;
		case 2: if (m.empty || m.linf) continue; m = make(m.lo, t, m.hi, m.uinf ? 2 : !m.uopen); x.setLowerBoundType(static_cast<BoundType>(t)); log += " lt"; break;
		case 3: if (m.empty || m.uinf) continue; m = make(m.lo, m.linf ? 2 : !m.lopen, m.hi, t); x.setUpperBoundType(static_cast<BoundType>(t)); log += " ut"; break;
		case 4: if (m.empty || m.linf || m.uinf || n > m.hi) continue; m = make(n, !m.lopen, m.hi, !m.uopen); x.setLower(n); log += " sl"; break;
		case 5: if (m.empty || m.uinf || m.linf || n < m.lo) continue; m = make(m.lo, !m.lopen, n, !m.uopen); x.setUpper(n); log += " su"; break;
		case 6: { Q w = n < 0 ? Q(-n) : n; if (m.empty) continue; if (!m.linf) m.lo -= w; if (!m.uinf) m.hi += w; m.norm(); x.bloat_by(w); log += " bloat"; break; }
		}
		log += std::to_string(t) + " " + n.get_str();
		vf::note(log);
		if (!VF_CHECK(of(x) == m, "iset.mutate", log << " gives " << show(x) << ", expected " << m)) return;
		auto y = lib<mpq_class>(m);
		vf::op("mutate");
		VF_CHECK(x == y && y == x && !(x != y), "iset.mutate:equal", log << " gives " << show(x) << " which differs from " << show(y));
		VF_CHECK(std::hash<CI<mpq_class>>()(x) == std::hash<CI<mpq_class>>()(y), "iset.mutate:hash", log << " gives " << show(x) << " hashed differently from " << show(y));
		RI o = r.coin() ? m : gen(r);
		pair_ops(x, m, lib<mpq_class>(o), o);
	}
	vf::observe(log);
}
template<typename N>
static void parts(const std::vector<CI<N>>& ps, const RI& a, const std::string& key, const std::string& d) {
	std::vector<RI> in = {a};
	for (auto& p : ps) in.push_back(of(p));
	for (auto& v : critical(in)) {
		size_t n = 0;
		for (size_t i = 1; i < in.size(); ++i) n += in[i].has(v);
		if (!VF_CHECK(n == (a.has(v) ? 1u : 0u), key, d << ": " << v << " covered " << n << " times")) return;
	}
}
static void g_sample(vf::Rng& r) {
	RI a = gen(r, [](vf::Rng& q) { return q.chance(1, 8) ? vf::gen_mpq(q) : gen_end(q); });
	if (r.chance(1, 4) && !a.empty && a.bounded()) { a.hi = a.lo + Q(1, 1 + r.below(1000)); a = make(a.lo, !a.lopen, a.hi, !a.uopen); }
	if (a.empty) return;
	auto x = lib<mpq_class>(a);
	std::string d = a.str();
	vf::note("samples of " + d);
	vf::observe(d);
	auto in = [&](const char* n, const Q& v) { vf::op(n); VF_CHECK(a.has(v), K<mpq_class>(n), d << ": " << v << " is not in the interval"); };
	auto inside = [&](const char* n, const Q& v) { vf::op(n); VF_CHECK(a.has(v) && (a.linf || v != a.lo) && (a.uinf || v != a.hi), K<mpq_class>(n) + ":open", d << ": " << v << " is not strictly inside"); };
	in("center", carl::center(x));
	in("sample", carl::sample(x));
	in("sample_left", carl::sample_left(x));
	in("sample_right", carl::sample_right(x));
	in("sample_zero", carl::sample_zero(x));
	in("sample_infty", carl::sample_infty(x));
	bool far = mpz_sizeinbase(a.lo.get_den_mpz_t(), 2) < 12 && mpz_sizeinbase(a.hi.get_den_mpz_t(), 2) < 12;
	if (far) in("sample_stern_brocot", carl::sample_stern_brocot(x));
	if (!a.point()) {
		inside("sample", carl::sample(x, false));
		if (far) inside("sample_stern_brocot", carl::sample_stern_brocot(x, false));
	}
	auto s = x.split();
	parts<mpq_class>({s.first, s.second}, a, K<mpq_class>("split"), d + " split into " + show(s.first) + " " + show(s.second));
	if (a.bounded()) {
		unsigned n = static_cast<unsigned>(r.range(1, 6));
		auto l = x.split(n);
		std::string dd = d + " split in " + std::to_string(n) + ":";
		for (auto& e : l) dd += " " + show(e);
		VF_CHECK(a.point() || l.size() == n, K<mpq_class>("split-n:count"), dd);
		parts<mpq_class>(std::vector<CI<mpq_class>>(l.begin(), l.end()), a, K<mpq_class>("split-n"), dd);
	}
	// floating point samples of intervals with room inside
	if (a.bounded() && a.hi - a.lo > Q(1, 1000) && a.hi < 1000 && a.lo > -1000) {
		RI b = make(Q(a.lo.get_d()), !a.lopen, Q(a.hi.get_d()), !a.uopen);
		auto y = lib<double>(b);
		auto din = [&](const char* n, double v) { vf::op(std::string("d.") + n); VF_CHECK(b.has(Q(v)), K<double>(n), b.str() << ": " << v << " is not in the interval"); };
		din("center", carl::center(y));
		din("sample", carl::sample(y));
		din("sample_left", carl::sample_left(y));
		din("sample_right", carl::sample_right(y));
		din("sample_zero", carl::sample_zero(y));
		din("sample_infty", carl::sample_infty(y));
		auto t = y.split();
		parts<double>({t.first, t.second}, b, K<double>("split"), b.str());
	}
}
int main(int argc, char** argv) {
	vf::add_group("qpair", 80000, 800000, g_qpair);
	vf::add_group("dpair", 30000, 300000, g_dpair);
	vf::add_group("mutate", 20000, 200000, g_mut);
	vf::add_group("sample", 40000, 400000, g_sample);
	return vf::run(argc, argv);
}
