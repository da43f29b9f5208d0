#define VF_REAL_VARS
// C28: real algebraic numbers against exact arithmetic in a number field. Numbers are kept in a pool and go
// through random histories of refinements, copies and comparisons; after every step they still denote the
// same element of the field.
#include <ranutil.h>
#include <carl/ran/interval/ran_interval_extra.h>
#include <carl/ran/RealAlgebraicPoint.h>
using pu::V; using ur::L; using carl::Relation;
static const std::vector<Relation> RELS = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static bool holds(int s, Relation r) {
	switch (r) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	default: return s >= 0;
	}
}
struct Num { RAN x; L e; };
static std::string show(const nf::Field& k, const Num& n) { return vf::str(n.x) + "{" + ur::str(n.e) + " over " + ur::str(k.m) + "}"; }
template<typename A, typename B>
static bool rel(const A& a, Relation r, const B& b) {
	switch (r) {
	case Relation::EQ: return a == b;
	case Relation::NEQ: return a != b;
	case Relation::LESS: return a < b;
	case Relation::LEQ: return a <= b;
	case Relation::GREATER: return a > b;
	default: return a >= b;
	}
}
static Q near(vf::Rng& r, const nf::Field& k, const L& e) {
	if (r.chance(1, 3)) return vf::gen_q(r, 6, 3);
	auto b = k.enclose(e, Q(1, r.range(1, 3000)));
	return r.coin() ? b.first : b.second;
}
static Q ffloor(const Q& q) { mpz_class f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(f); }
static Q floor_of(const nf::Field& k, const L& e) {
	if (e.size() <= 1) return e.empty() ? Q(0) : ffloor(e[0]);
	auto b = k.enclose(e, Q(1, 2));
	Q f = ffloor(b.first);
	while (k.cmp(e, ru::cst(f + 1)) >= 0) f += 1;
	return f;
}
static void history(vf::Rng& r) {
	const nf::Field& k = r.pick(nf::fields());
	std::vector<Num> pool;
	size_t n = 2 + r.below(4);
	for (size_t i = 0; i < n; ++i) {
		L e;
		switch (r.below(5)) {
		case 0: e = ur::strip(L{r.coin() ? Q(r.range(-3, 3)) : vf::gen_q(r, 4, 3)}); break;
		case 1: if (!pool.empty()) { e = r.pick(pool).e; if (r.coin()) e = ur::sc(e, -1); else if (r.coin()) e = ur::add(e, L{Q(1, r.range(2, 5000))}); break; } [[fallthrough]];
		case 2: e = ru::gen_elem(r, k, false); break;
		default: e = ru::gen_elem(r, k, true);
		}
		pool.push_back({ru::make(r, k, e), e});
	}
	std::string d;
	for (auto& x : pool) d += " " + show(k, x);
	vf::note(d);
	vf::observe(d);
	size_t steps = 8 + r.below(16);
	std::string hist;
	for (size_t step = 0; step < steps; ++step) {
		size_t i = r.below(pool.size()), j = r.below(pool.size());
		Num &a = pool[i], &b = pool[j];
		auto say = [&](const char* what) { hist += std::string(" ") + what + "(" + std::to_string(i) + "," + std::to_string(j) + ")"; vf::note(d + ":" + hist); vf::op(what); };
		auto ctx = [&] { return d + ":" + hist + " now " + show(k, a) + " and " + show(k, b); };
		int c = k.cmp(a.e, b.e);
		switch (r.below(16)) {
		case 0: case 1: case 2: {
			Relation q = r.pick(RELS);
			say(("compare" + carl::toString(q)).c_str());
			VF_CHECK(rel(a.x, q, b.x) == holds(c, q), "ran.compare", q << " " << ctx());
			break; }
		case 3: case 4: {
			Relation q = r.pick(RELS);
			Q y = near(r, k, a.e);
			int cy = k.cmp(a.e, ru::cst(y));
			say("compare-rational");
			hist += y.get_str();
			VF_CHECK(rel(a.x, q, y) == holds(cy, q), "ran.compare-rational", q << " " << y << " " << ctx());
			VF_CHECK(rel(y, q, a.x) == holds(-cy, q), "ran.compare-rational", y << " " << q << " " << ctx());
			break; }
		case 5: say("refine"); a.x.refine(); break;
		case 6: say("copy"); b = Num{RAN(a.x), a.e}; break; // shares the representation
		case 7: { // a number computed afresh
			say("renew");
			a.x = ru::make(r, k, a.e);
			break; }
		case 8: {
			say("sign");
			VF_CHECK(static_cast<int>(a.x.sgn()) == k.sign(a.e) && a.x.is_zero() == a.e.empty(), "ran.sgn", ctx());
			if (a.x.is_integral()) VF_CHECK((a.e.size() <= 1 && (a.e.empty() || a.e[0].get_den() == 1)), "ran.is_integral", ctx());
			if (a.e.size() <= 1 && (a.e.empty() || a.e[0].get_den() == 1)) VF_CHECK(a.x.is_integral(), "ran.is_integral", ctx());
			VF_CHECK(a.x.integer_below() <= floor_of(k, a.e), "ran.integer_below", ctx());
			break; }
		case 9: {
			say("round");
			Q f = floor_of(k, a.e);
			bool integer = k.cmp(a.e, ru::cst(f)) == 0;
			VF_CHECK(carl::floor(a.x) == f, "ran.floor", ctx() << " gave " << carl::floor(a.x));
			VF_CHECK(carl::ceil(a.x) == (integer ? f : Q(f + 1)), "ran.ceil", ctx() << " gave " << carl::ceil(a.x));
			break; }
		case 10: {
			say("sample");
			Q up = carl::sample_above(a.x), lo = carl::sample_below(a.x);
			VF_CHECK(k.cmp(a.e, ru::cst(up)) < 0, "ran.sample_above", ctx() << " gave " << up);
			VF_CHECK(k.cmp(a.e, ru::cst(lo)) > 0, "ran.sample_below", ctx() << " gave " << lo);
			Q bp = carl::branching_point(a.x);
			if (a.x.is_numeric()) VF_CHECK(bp == a.x.value(), "ran.branching_point", ctx() << " gave " << bp);
			else VF_CHECK(a.x.interval().contains(bp), "ran.branching_point", ctx() << " gave " << bp);
			break; }
		case 11: {
			if (c == 0) break;
			say("sample-between");
			Num &l = c < 0 ? a : b, &u = c < 0 ? b : a;
			Q s = carl::sample_between(l.x, u.x);
			VF_CHECK((k.cmp(l.e, ru::cst(s)) < 0 && k.cmp(u.e, ru::cst(s)) > 0), "ran.sample_between", ctx() << " gave " << s);
			break; }
		case 12: {
			Q y = near(r, k, a.e);
			int cy = k.cmp(a.e, ru::cst(y));
			if (cy == 0) break;
			say("sample-between-rational");
			hist += y.get_str();
			vf::note(d + ":" + hist);
			Q s = cy < 0 ? carl::sample_between(a.x, y) : carl::sample_between(y, a.x);
			int cs = k.cmp(a.e, ru::cst(s));
			VF_CHECK(cy < 0 ? (cs < 0 && s < y) : (cs > 0 && s > y), "ran.sample_between-rational", ctx() << " and " << y << " gave " << s);
			break; }
		case 13: {
			say("abs");
			Num m{carl::abs(a.x), k.sign(a.e) < 0 ? ur::sc(a.e, -1) : a.e};
			VF_CHECK(ru::denotes(k, m.x, m.e), "ran.abs", ctx() << " gave " << m.x);
			if (r.coin()) pool.push_back(m); // refinement of one must not disturb the other
			break; }
		case 14: { // sign of a polynomial at the number
			L p;
			if (r.coin()) p = ur::mul(k.minpoly(a.e), L{vf::gen_q(r, 3, 2), Q(1)}); else { size_t t = 1 + r.below(5); for (size_t q = 0; q < t; ++q) p.push_back(vf::gen_q(r, 5, 2)); }
			if (r.chance(1, 3)) p = ur::add(p, L{Q(1, r.range(1, 3000))});
			p = ur::strip(p);
			if (p.empty()) break;
			say("sgn-of-polynomial");
			L at;
			for (size_t q = p.size(); q > 0; --q) at = ur::add(k.mul(at, a.e), ru::cst(p[q - 1]));
			int want = k.sign(at), got = static_cast<int>(a.x.sgn(UP(V()[1], p)));
			VF_CHECK(want == got, "ran.sgn-polynomial", ur::str(p) << " at " << ctx() << " gave " << got);
			break; }
		default: {
			say("contained_in");
			Q lo = near(r, k, a.e), hi = near(r, k, a.e);
			if (hi < lo) std::swap(lo, hi);
			BT bl = r.coin() ? BT::STRICT : BT::WEAK, bu = r.coin() ? BT::STRICT : BT::WEAK;
			if (lo == hi) bl = bu = BT::WEAK;
			IQ iv(lo, bl, hi, bu);
			int cl = k.cmp(a.e, ru::cst(lo)), cu = k.cmp(a.e, ru::cst(hi));
			bool want = (bl == BT::WEAK ? cl >= 0 : cl > 0) && (bu == BT::WEAK ? cu <= 0 : cu < 0);
			bool got = a.x.contained_in(iv);
			VF_CHECK(got == want, "ran.contained_in", iv << " " << ctx() << " gave " << got);
		}
		}
		for (size_t q = 0; q < pool.size(); ++q) if (!vf::check(ru::denotes(k, pool[q].x, pool[q].e), "ran.denotes", [&] { return d + ":" + hist + " number " + std::to_string(q) + " became " + show(k, pool[q]); })) return;
	}
	// equal numbers hash alike whatever their representation is
	for (auto& a : pool) for (auto& b : pool) if (k.cmp(a.e, b.e) == 0) {
		VF_CHECK(std::hash<RAN>()(a.x) == std::hash<RAN>()(b.x), "ran.hash", show(k, a) << " and " << show(k, b));
		VF_CHECK((a.x == b.x && !(a.x < b.x)), "ran.equal", show(k, a) << " and " << show(k, b));
	}
	// sorting gives the order of the field
	std::vector<RAN> xs;
	for (auto& a : pool) xs.push_back(a.x);
	std::sort(xs.begin(), xs.end());
	std::vector<L> es;
	for (auto& a : pool) es.push_back(a.e);
	std::sort(es.begin(), es.end(), [&](const L& x, const L& y) { return k.cmp(x, y) < 0; });
	for (size_t i = 0; i < xs.size(); ++i) VF_CHECK(ru::denotes(k, xs[i], es[i]), "ran.sort", d << ":" << hist);
}

// ---------------------------------------------------------------- polynomials and constraints at algebraic points
struct Point { std::map<carl::Variable, RAN> map; std::vector<L> val; std::string d; size_t n; };
static Point gen_point(vf::Rng& r, const nf::Field& k) {
	Point pt;
	pt.n = 1 + r.below(k.m.size() <= 4 ? 3 : 2);
	pt.val.resize(ref::NV);
	size_t irr = 0;
	for (size_t i = 0; i < pt.n; ++i) {
		L e = (irr >= 2 || r.chance(1, 4)) ? ur::strip(L{vf::gen_q(r, 4, 2)}) : ru::gen_elem(r, k, k.m.size() > 3 || r.coin());
		if (e.size() > 1) ++irr;
		if (i > 0 && r.chance(1, 5)) e = pt.val[i - 1];
		pt.val[i] = e;
		RAN x = i > 0 && e == pt.val[i - 1] && r.coin() ? pt.map.at(V()[i - 1]) : ru::make(r, k, e); // possibly the same object
		pt.map.emplace(V()[i], x);
		pt.d += " v" + std::to_string(i) + "=" + vf::str(x) + "{" + ur::str(e) + "}";
	}
	pt.d += " over " + ur::str(k.m);
	return pt;
}
static ref::Poly gen_at(vf::Rng& r, const nf::Field& k, const Point& pt) {
	ref::Poly p;
	size_t i = r.below(pt.n);
	switch (r.below(5)) {
	case 0: { // zero by the minimal polynomial
		L m = k.minpoly(pt.val[i]);
		for (size_t j = 0; j < m.size(); ++j) { ref::Mono mm = ref::mone(); mm[i] = static_cast<unsigned>(j); p.add(mm, m[j]); }
		if (r.coin()) p = p * pu::gen_poly(r, 2, 1, pt.n);
		if (r.chance(1, 3)) p = p + ref::Poly(Q(r.coin() ? 1 : -1, r.range(1, 2000)));
		break; }
	case 1: { // zero by a relation between the coordinates
		size_t j = r.below(pt.n);
		if (pt.val[i].size() > 1 && pt.val[i] == pt.val[j]) { p = ref::Poly::var(i) - ref::Poly::var(j); break; }
		if (pt.val[i].size() > 1 && pt.val[j].size() > 1 && pt.val[i].size() == 2 && pt.val[j].size() == 2) { // linear relation
			Q c = pt.val[j][1] / pt.val[i][1];
			p = ref::Poly::var(j) - ref::scale(ref::Poly::var(i), c) - ref::Poly(Q(pt.val[j][0] - c * pt.val[i][0]));
			break; }
		p = pu::gen_poly(r, 3, 2, pt.n);
		break; }
	default: p = pu::gen_poly(r, 4, 2, pt.n);
	}
	// move the value close to zero
	if (r.chance(1, 3)) { auto b = k.enclose(ru::value(k, p, pt.val), Q(1, r.range(1, 100000))); p = p - ref::Poly(r.coin() ? b.first : b.second); }
	return p;
}
static bool heavy(const Point& pt, const ref::Poly& p) {
	size_t deg = 1;
	for (size_t i = 0; i < pt.n; ++i) if (p.has(i)) { auto it = pt.map.find(V()[i]); if (!it->second.is_numeric()) deg *= it->second.polynomial().degree() * p.deg(i); }
	for (auto& [m, c] : p.t) if (mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2) > 80) return true;
	return deg > 40;
}
static void eval_case(vf::Rng& r) {
	const nf::Field& k = nf::fields()[r.below(6)];
	Point pt = gen_point(r, k);
	ref::Poly p = gen_at(r, k, pt);
	if (heavy(pt, p)) return;
	std::string d = p.str() + " at" + pt.d;
	vf::note(d);
	vf::observe(d);
	L want = ru::value(k, p, pt.val);
	MP q = pu::build(p, r);
	if (r.coin()) {
		vf::op("evaluate-polynomial");
		auto res = carl::evaluate(q, pt.map, r.coin());
		if (!vf::check(bool(res), "ran.evaluate:no-value", [&] { return d; })) return;
		VF_CHECK(ru::denotes(k, *res, want), "ran.evaluate", d << " gave " << *res << " expected " << ur::str(want));
	} else {
		vf::op("evaluator");
		carl::ran::interval::ran_evaluator<Q> ev(q);
		bool done = false;
		if (r.coin()) done = ev.assign(pt.map, r.coin());
		else for (auto& [v, x] : pt.map) if ((done = ev.assign(v, x, r.coin()))) break;
		if (p.constant()) done = true;
		if (!vf::check(done && ev.has_value(), "ran.evaluator:no-value", [&] { return d; })) return;
		auto res = ev.value();
		VF_CHECK(ru::denotes(k, res, want), "ran.evaluator", d << " gave " << res << " expected " << ur::str(want));
	}
	for (size_t i = 0; i < pt.n; ++i) VF_CHECK(ru::denotes(k, pt.map.at(V()[i]), pt.val[i]), "ran.evaluate:denotes", d << " changed v" << i << " to " << pt.map.at(V()[i]));
}
static void constraint_case(vf::Rng& r) {
	const nf::Field& k = nf::fields()[r.below(6)];
	Point pt = gen_point(r, k);
	ref::Poly p = gen_at(r, k, pt);
	if (heavy(pt, p)) return;
	std::string d = p.str() + " at" + pt.d;
	vf::note(d);
	vf::observe(d);
	int s = k.sign(ru::value(k, p, pt.val));
	vf::op(s == 0 ? "constraint-zero" : "constraint-nonzero");
	for (int t = 0; t < 3; ++t) {
		Relation q = r.pick(RELS);
		carl::Constraint<MP> c(pu::build(p, r), q);
		bool rm = r.coin(), rb = r.chance(3, 4);
		auto res = carl::evaluate(c, pt.map, rm, rb);
		VF_CHECK((!boost::logic::indeterminate(res) && bool(res) == holds(s, q)), "ran.constraint", c << " from " << d << " " << q << " gave " << res << (rb ? "" : " without root bounds"));
	}
	for (size_t i = 0; i < pt.n; ++i) VF_CHECK(ru::denotes(k, pt.map.at(V()[i]), pt.val[i]), "ran.constraint:denotes", d << " changed v" << i << " to " << pt.map.at(V()[i]));
}
/// evaluation at rational points
static void rational_case(vf::Rng& r) {
	ref::Poly p = pu::gen_poly(r, 5, 3, 3);
	std::vector<Q> at(ref::NV);
	std::map<carl::Variable, Q> m;
	std::string d = p.str() + " at";
	for (size_t i = 0; i < 3; ++i) { at[i] = vf::gen_q(r, 4, 3); m[V()[i]] = at[i]; d += " " + at[i].get_str(); }
	vf::note(d); vf::observe(d); vf::op("evaluate-rational");
	Q want = p.eval(at);
	VF_CHECK(carl::evaluate(pu::build(p, r), m) == want, "ran.evaluate-rational", d);
	Relation q = r.pick(RELS);
	VF_CHECK(carl::evaluate(carl::Constraint<MP>(pu::build(p, r), q), m) == holds(ur::sgn(want), q), "ran.constraint-rational", d << " " << q);
	Q a = vf::gen_q(r, 9, 5), b = a + abs(vf::gen_q(r, 9, 50));
	if (a != b) { Q s = carl::sample_between(a, b); VF_CHECK(a < s && s < b, "sample_between-rational", a << " " << b << " gave " << s); }
	VF_CHECK(carl::sample_above(a) > a && carl::sample_below(a) < a && carl::branching_point(a) == a, "sample-rational", a);
}
int main(int argc, char** argv) {
	vf::add_group("history", 8000, 150000, history);
	vf::add_group("eval", 2500, 40000, eval_case);
	vf::add_group("constraint", 2500, 40000, constraint_case);
	vf::add_group("rational", 4000, 60000, rational_case);
	return vf::run(argc, argv);
}
