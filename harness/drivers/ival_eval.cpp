// C14: evaluation of polynomials over boxes and contraction of boxes, decided on points known to lie in the box.
#include <polyutil.h>
#include <ri.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/formula/Constraint.h>
#include <carl/interval/Contraction.h>
#include <carl/interval/Contractor.h>
#include <carl/interval/IntervalEvaluation.h>
#include <cfenv>

using namespace ri;
using pu::V;
template<typename N> using CI = carl::Interval<N>;
template<typename N> using Box = std::map<carl::Variable, CI<N>>;
struct S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_I; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
struct S3 : S1 { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_II; };

static std::string pstr(const std::vector<Q>& p, size_t nv) { std::string s = "("; for (size_t i = 0; i < nv; ++i) s += (i ? "," : "") + p[i].get_str(); return s + ")"; }
template<typename N> static std::string bstr(const std::vector<RI>& b, size_t nv) { std::string s; for (size_t i = 0; i < nv; ++i) s += " v" + std::to_string(i) + " in " + b[i].str(); return s; }

/// ends that are exactly representable as double
static Q dyadic(vf::Rng& r) {
	switch (r.below(8)) {
	case 0: return 0;
	case 1: return Q(r.range(-3, 3));
	case 2: return Q(static_cast<double>(r.range(-40, 40)) / 10.0); // a double close to a decimal
	case 3: return Q(std::ldexp(static_cast<double>(r.range(-1000, 1000)), static_cast<int>(r.range(-30, 12))));
	default: { Q q(r.range(-24, 24), 1 << r.below(4)); q.canonicalize(); return q; }
	}
}
static RI gen_box(vf::Rng& r, bool allow_empty) {
	RI a;
	do { a = gen(r, dyadic); } while (a.empty && !allow_empty);
	return a;
}
/// a dyadic point of a (of integer value on request); false if none was found
static bool pick_point(const RI& a, vf::Rng& r, bool integer, Q& out) {
	std::vector<Q> c;
	RI h = integer ? integers(a) : a;
	if (h.empty) return false;
	if (!h.linf) { c.push_back(h.lo); c.push_back(h.lo + 1); }
	if (!h.uinf) { c.push_back(h.hi); c.push_back(h.hi - 1); }
	if (h.bounded()) { Q m = (h.lo + h.hi) / 2; c.push_back(integer ? qfloor(m) : m); Q t = h.lo + (h.hi - h.lo) * static_cast<long>(r.below(17)) / 16; c.push_back(integer ? qfloor(t) : t); }
	c.push_back(0); c.push_back(Q(r.range(-5, 5)));
	if (!integer) c.push_back(dyadic(r));
	for (int i = 0; i < 6; ++i) { Q q = r.pick(c); if (h.has(q)) { out = q; return true; } }
	for (auto& q : c) if (h.has(q)) { out = q; return true; }
	return false;
}
template<typename N> static Box<N> lib_box(const std::vector<RI>& b, size_t nv) { Box<N> m; for (size_t i = 0; i < nv; ++i) m.emplace(V()[i], lib<N>(b[i])); return m; }

// ---- evaluation --------------------------------------------------------------------
template<typename N>
static void decide(const char* what, const CI<N>& res, const ref::Poly& a, const std::vector<RI>& box, const std::vector<std::vector<Q>>& pts, size_t nv) {
	vf::op(what);
	RI got = of(res);
	std::string key = std::string("ieval.") + (std::is_same<N, double>::value ? "d." : "q.") + what;
	for (auto& p : pts) {
		Q v = a.eval(p);
		if (!VF_CHECK(got.has(v), key, a.str() << " over" << bstr<N>(box, nv) << " gives " << got << " but has value " << v << " at " << pstr(p, nv))) return;
	}
	if (std::is_same<N, Q>::value) {
		bool point = true;
		for (size_t i = 0; i < nv; ++i) point = point && (box[i].point() || !a.has(i));
		if (point && !pts.empty()) VF_CHECK(got.point() && got.lo == a.eval(pts[0]), key + ":point", a.str() << " over" << bstr<N>(box, nv) << " gives " << got << " expected " << a.eval(pts[0]));
	}
}
template<typename N>
static void eval_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3);
	ref::Poly a = pu::gen_poly(r, 5, 4, nv);
	std::vector<RI> box(ref::NV);
	bool dbl = std::is_same<N, double>::value, pointbox = r.chance(1, 10);
	for (size_t i = 0; i < nv; ++i) {
		if (pointbox) { Q x = dbl ? dyadic(r) : gen_end(r); box[i] = make(x, 1, x, 1); }
		else do { box[i] = dbl ? gen(r, dyadic) : gen(r); } while (box[i].empty);
	}
	std::vector<std::vector<Q>> pts;
	std::vector<std::vector<Q>> cand;
	for (size_t i = 0; i < nv; ++i) cand.push_back(points(box[i], r, 3));
	for (auto& c : cand) if (c.empty()) return;
	for (int k = 0; k < 14; ++k) { std::vector<Q> p(ref::NV); for (size_t i = 0; i < nv; ++i) p[i] = r.pick(cand[i]); pts.push_back(p); }
	std::string d = a.str() + bstr<N>(box, nv);
	vf::note(d);
	if (!a.constant()) vf::observe(d);
	MP p = pu::build(a, r);
	Box<N> m = lib_box<N>(box, nv);
	using IE = carl::IntervalEvaluation;
	decide<N>("polynomial", IE::evaluate(p, m), a, box, pts, nv);
	for (auto& t : p) {
		decide<N>("term", IE::evaluate(t, m), pu::rpoly(t), box, pts, nv);
		if (t.monomial()) decide<N>("monomial", IE::evaluate(*t.monomial(), m), ref::Poly(1, pu::rmono(t.monomial())), box, pts, nv);
	}
	if (!a.zero()) {
		size_t v = r.below(nv);
		decide<N>("univariate", IE::evaluate(carl::to_univariate_polynomial(p, V()[v]), m), a, box, pts, nv);
	}
	carl::MultivariateHorner<MP, S1> h1(p);
	decide<N>("horner1", IE::evaluate(h1, m), a, box, pts, nv);
	carl::MultivariateHorner<MP, S3> h2(p);
	decide<N>("horner2", IE::evaluate(h2, m), a, box, pts, nv);
	// an empty side leaves nothing to evaluate
	for (size_t i = 0; i < nv; ++i) if (a.has(i)) {
		Box<N> e = m;
		e[V()[i]] = CI<N>::emptyInterval();
		auto res = IE::evaluate(p, e);
		(void)res;
		vf::op("empty-side");
		break;
	}
	VF_CHECK(std::fegetround() == FE_TONEAREST, "ieval.rounding-mode", d << " left the rounding mode changed");
}
// ---- contraction -------------------------------------------------------------------
struct Prob {
	size_t nv;
	std::vector<RI> box;
	std::vector<Q> pt;
};
static bool gen_prob(vf::Rng& r, Prob& p, size_t maxnv) {
	p.nv = 1 + r.below(maxnv);
	p.box.assign(ref::NV, RI());
	p.pt.assign(ref::NV, Q(0));
	for (size_t i = 0; i < p.nv; ++i) {
		bool integer = V()[i].type() == carl::VariableType::VT_INT;
		int t = 0;
		if (integer) vf::op("integer-variable");
		do { p.box[i] = gen_box(r, false); } while (!pick_point(p.box[i], r, integer, p.pt[i]) && ++t < 20);
		if (!p.box[i].has(p.pt[i])) return false;
	}
	return true;
}
static std::vector<RI> ofs(const std::vector<CI<double>>& v) { std::vector<RI> r; for (auto& i : v) r.push_back(of(i)); return r; }
static std::string rstr(const std::vector<RI>& v) { std::string s = "{"; for (auto& i : v) s += " " + i.str(); return s + " }"; }

static void contractor_case(vf::Rng& r) {
	Prob pb;
	if (!gen_prob(r, pb, 3)) return;
	Box<double> m = lib_box<double>(pb.box, pb.nv);
	size_t nc = 1 + r.below(3);
	struct Con { ref::Poly q; carl::Constraint<MP> c; size_t v; };
	std::vector<Con> cons;
	std::string d = bstr<double>(pb.box, pb.nv) + " point " + pstr(pb.pt, pb.nv);
	for (size_t k = 0; k < nc; ++k) {
		ref::Poly a = r.coin() ? pu::gen_poly_nz(r, 4, 3, pb.nv) : pu::gen_poly_nz(r, 2, 2, pb.nv);
		carl::Relation rel = r.pick(std::vector<carl::Relation>{carl::Relation::EQ, carl::Relation::EQ, carl::Relation::LEQ, carl::Relation::GEQ, carl::Relation::LESS, carl::Relation::GREATER});
		Q off = a.eval(pb.pt), slack = Q(static_cast<long>(r.below(5)), 4);
		slack.canonicalize();
		bool strict = rel == carl::Relation::LESS || rel == carl::Relation::GREATER;
		if (strict && slack == 0) slack = Q(1, 8);
		if (rel == carl::Relation::EQ) slack = 0;
		if (rel == carl::Relation::GEQ || rel == carl::Relation::GREATER) slack = -slack;
		ref::Poly q = a - ref::Poly(off + slack);
		carl::Constraint<MP> c(pu::build(q, r), rel);
		if (c.lhs().isConstant() || c.relation() == carl::Relation::NEQ) continue;
		ref::Poly lhs = pu::rpoly(c.lhs());
		std::vector<size_t> vs;
		for (size_t i = 0; i < pb.nv; ++i) if (lhs.has(i)) vs.push_back(i);
		if (vs.empty()) continue;
		cons.push_back({lhs, c, r.pick(vs)});
		d += "; " + q.str() + " " + vf::str(rel) + " 0";
	}
	if (cons.empty()) return;
	vf::note(d);
	vf::observe(d);
	size_t steps = 1 + r.below(6);
	for (size_t s = 0; s < steps; ++s) {
		const Con& c = r.pick(cons);
		size_t v = c.v;
		carl::Variable var = V()[v];
		carl::contractor::Contractor<int, MP, double> ctr(7, c.c, var);
		RI before = of(m.at(var));
		std::string dd = d + " step " + std::to_string(s) + ": v" + std::to_string(v) + " in " + c.q.str() + " " + vf::str(c.c.relation()) + " 0, box";
		for (size_t i = 0; i < pb.nv; ++i) dd += " " + of(m.at(V()[i])).str();
		auto ev = ofs(ctr.evaluate(m));
		bool in = false;
		for (auto& i : ev) in = in || i.has(pb.pt[v]);
		if (!VF_CHECK(in, "contractor.evaluate", dd << " gives " << rstr(ev))) return;
		auto lres = ctr.contract(m);
		auto res = ofs(lres);
		vf::op("contractor-" + std::to_string(std::min<size_t>(res.size(), 3)));
		in = false;
		size_t at = 0;
		for (size_t i = 0; i < res.size(); ++i) {
			if (!VF_CHECK(subset(res[i], before), "contractor.enlarge", dd << " gives " << rstr(res))) return;
			if (!VF_CHECK(!res[i].empty, "contractor.empty-part", dd << " gives " << rstr(res))) return;
			if (res[i].has(pb.pt[v])) { in = true; at = i; }
		}
		if (!VF_CHECK(in, "contractor.lost", dd << " gives " << rstr(res))) return;
		VF_CHECK(ctr.var() == var && ctr.origin() == 7, "contractor.attributes", dd);
		std::set<carl::Variable> deps(ctr.dependees().begin(), ctr.dependees().end()), want;
		for (size_t i = 0; i < pb.nv; ++i) {
			unsigned dg = c.q.deg(v);
			ref::Poly den = c.q.coeff_in(v, dg);
			ref::Poly num;
			for (auto& [mm, cc] : c.q.t) if (mm[v] != dg) num.add(mm, cc);
			if (den.has(i) || num.has(i)) want.insert(V()[i]);
		}
		VF_CHECK(deps == want, "contractor.dependees", dd << " lists " << deps.size() << " expected " << want.size());
		m[var] = lres[at];
	}
	VF_CHECK(std::fegetround() == FE_TONEAREST, "ieval.rounding-mode", d << " left the rounding mode changed");
}
/// merging of candidate intervals keeps the union
static void normalize_case(vf::Rng& r) {
	size_t n = r.below(6);
	std::vector<RI> in;
	std::vector<CI<double>> v;
	std::string d;
	for (size_t i = 0; i < n; ++i) { in.push_back(gen_box(r, false)); v.push_back(lib<double>(in.back())); d += " " + in.back().str(); }
	vf::note(d);
	if (n > 1) vf::observe(d);
	vf::op("normalize");
	carl::contractor::Evaluation<MP> ev{MP(V()[0]), V()[0]};
	ev.normalize(v);
	auto out = ofs(v);
	std::vector<RI> all = in;
	all.insert(all.end(), out.begin(), out.end());
	for (auto& x : critical(all)) {
		bool was = false, is = false;
		for (auto& i : in) was = was || i.has(x);
		for (auto& i : out) is = is || i.has(x);
		if (!VF_CHECK(was == is, "contractor.normalize", d << " becomes " << rstr(out) << ": differs at " << x)) return;
	}
	for (size_t i = 0; i < out.size(); ++i) for (size_t j = i + 1; j < out.size(); ++j)
		VF_CHECK(meet(out[i], out[j]).empty, "contractor.normalize:overlap", d << " becomes " << rstr(out));
}
template<typename C>
static bool newton_step(C& con, Box<double>& m, const Prob& pb, size_t v, bool nice, bool prop, const std::string& d, const char* kind) {
	carl::Variable var = V()[v];
	CI<double> a = CI<double>::emptyInterval(), b = CI<double>::emptyInterval();
	RI before = of(m.at(var));
	std::string dd = d + ": v" + std::to_string(v) + (nice ? " nice" : "") + (prop ? " propagate" : "") + ", box";
	for (size_t i = 0; i < pb.nv; ++i) dd += " " + of(m.at(V()[i])).str();
	vf::note(dd);
	bool split = con(m, var, a, b, nice, prop);
	RI ra = of(a), rb = of(b);
	std::string k = std::string("contraction.") + kind;
	vf::op(k + (split ? "-split" : ra == before ? "-same" : "-contracted"));
	dd += " gives " + ra.str() + (split ? " and " + rb.str() : "");
	if (!VF_CHECK(subset(ra, before) && (!split || subset(rb, before)), k + ":enlarge", dd)) return false;
	if (!VF_CHECK(ra.has(pb.pt[v]) || (split && rb.has(pb.pt[v])), k + ":lost", dd)) return false;
	if (split) VF_CHECK(!ra.empty && !rb.empty && meet(ra, rb).empty, k + ":split", dd);
	m[var] = ra.has(pb.pt[v]) ? a : b;
	return true;
}
static void newton_case(vf::Rng& r) {
	Prob pb;
	if (!gen_prob(r, pb, 3)) return;
	std::vector<ref::Poly> qs;
	std::string d = bstr<double>(pb.box, pb.nv) + " point " + pstr(pb.pt, pb.nv);
	using Con = carl::Contraction<carl::SimpleNewton, MP>;
	std::vector<std::unique_ptr<Con>> cons;
	size_t nc = 1 + r.below(2);
	for (size_t k = 0; k < nc; ++k) {
		ref::Poly a = pu::gen_poly_nz(r, 4, 3, pb.nv);
		a = a - ref::Poly(a.eval(pb.pt));
		if (a.constant()) continue;
		MP p = pu::build(a, r);
		if (r.coin()) cons.push_back(std::make_unique<Con>(p)); else cons.push_back(std::make_unique<Con>(p, p));
		VF_CHECK(pu::rpoly(cons.back()->polynomial()) == a, "contraction.polynomial", a.str());
		qs.push_back(a);
		d += "; " + a.str();
	}
	if (cons.empty()) return;
	vf::note(d);
	vf::observe(d);
	Box<double> m = lib_box<double>(pb.box, pb.nv);
	size_t steps = 1 + r.below(6);
	for (size_t s = 0; s < steps; ++s) {
		size_t k = r.below(cons.size());
		std::vector<size_t> vs;
		for (size_t i = 0; i < pb.nv; ++i) if (qs[k].has(i)) vs.push_back(i);
		if (!newton_step(*cons[k], m, pb, r.pick(vs), r.coin(), false, d + " step " + std::to_string(s) + " " + qs[k].str(), "newton")) return;
	}
	VF_CHECK(std::fegetround() == FE_TONEAREST, "ieval.rounding-mode", d << " left the rounding mode changed");
}
/// forms for which solution formulas exist: linear without constant part, and x^i*m - y
static void propagation_case(vf::Rng& r) {
	Prob pb;
	if (!gen_prob(r, pb, 4)) return;
	ref::Poly q;
	bool linear = r.coin();
	if (linear) {
		// coefficients such that the form vanishes at the point
		std::vector<size_t> nz;
		for (size_t i = 0; i < pb.nv; ++i) if (pb.pt[i] != 0) nz.push_back(i);
		Q sum = 0;
		size_t last = nz.empty() ? ref::NV : r.pick(nz);
		for (size_t i = 0; i < pb.nv; ++i) if (i != last && r.chance(3, 4)) { Q c = pu::gen_c(r); q = q + ref::scale(ref::Poly::var(i), c); sum += c * pb.pt[i]; }
		if (last < ref::NV) q = q + ref::scale(ref::Poly::var(last), Q(-sum / pb.pt[last]));
	} else {
		if (pb.nv < 2) return;
		size_t y = r.below(pb.nv);
		ref::Mono mm = ref::mone();
		for (size_t i = 0; i < pb.nv; ++i) if (i != y) mm[i] = static_cast<unsigned>(r.below(4));
		if (ref::mdeg(mm) < 1) return;
		ref::Poly mono(1, mm);
		pb.pt[y] = mono.eval(pb.pt);
		if (Q(pb.pt[y].get_d()) != pb.pt[y]) return;
		if (V()[y].type() == carl::VariableType::VT_INT && pb.pt[y].get_den() != 1) return;
		if (!pb.box[y].has(pb.pt[y])) {
			Q lo = pb.pt[y] - (r.coin() ? Q(0) : Q(Q(static_cast<long>(r.below(9))) / 2)), hi = pb.pt[y] + (r.coin() ? Q(0) : Q(Q(static_cast<long>(r.below(9))) / 2));
			lo.canonicalize(); hi.canonicalize();
			if (Q(lo.get_d()) != lo || Q(hi.get_d()) != hi) return;
			pb.box[y] = make(lo, r.chance(1, 4) ? 2 : 1, hi, r.chance(1, 4) ? 2 : 1);
		}
		q = mono - ref::Poly::var(y);
	}
	if (q.constant()) return;
	std::string d = bstr<double>(pb.box, pb.nv) + " point " + pstr(pb.pt, pb.nv) + "; " + q.str();
	MP p = pu::build(q, r);
	using Con = carl::Contraction<carl::SimpleNewton, MP>;
	std::unique_ptr<Con> con;
	if (r.coin()) con = std::make_unique<Con>(p);
	else {
		ref::Poly o = pu::gen_poly_nz(r, 4, 3, pb.nv);
		for (size_t i = 0; i < pb.nv; ++i) if (!o.has(i)) o = o + ref::Poly::var(i);
		o = o - ref::Poly(o.eval(pb.pt));
		d += " original " + o.str();
		con = std::make_unique<Con>(p, pu::build(o, r));
	}
	vf::note(d);
	vf::observe(d);
	Box<double> m = lib_box<double>(pb.box, pb.nv);
	std::vector<size_t> vs;
	for (size_t i = 0; i < pb.nv; ++i) if (q.has(i)) vs.push_back(i);
	size_t steps = 1 + r.below(6);
	for (size_t s = 0; s < steps; ++s)
		if (!newton_step(*con, m, pb, r.pick(vs), r.coin(), r.chance(5, 6), d + " step " + std::to_string(s), linear ? "linear" : "product")) return;
	VF_CHECK(std::fegetround() == FE_TONEAREST, "ieval.rounding-mode", d << " left the rounding mode changed");
}
/// the propagated set and the Newton step each have a gap, at different places
static void gaps_case(vf::Rng& r) {
	Prob pb;
	pb.nv = 3;
	pb.box.assign(ref::NV, RI());
	pb.pt.assign(ref::NV, Q(0));
	Q x = Q(Q(r.range(4, 24)) / 4) * (r.coin() ? 1 : -1), w = r.coin() ? Q(1) : Q(r.range(1, 3)) * (r.coin() ? 1 : -1);
	unsigned e = 1 + static_cast<unsigned>(r.below(4));
	for (size_t i = 0; i < 3; ++i) if (V()[i].type() == carl::VariableType::VT_INT) { x = qfloor(x); w = qfloor(w); }
	pb.pt[0] = x; pb.pt[1] = w;
	Q y = ref::qpow(x, e) * w;
	if (V()[2].type() == carl::VariableType::VT_INT && y.get_den() != 1) return;
	pb.pt[2] = y;
	auto around = [&](const Q& c, long lo, long hi) { return make(Q(c - Q(r.range(0, lo)) / 4), static_cast<int>(r.below(6)) == 0 ? 2 : 1, Q(c + Q(r.range(0, hi)) / 4), static_cast<int>(r.below(6)) == 0 ? 2 : 1); };
	pb.box[0] = around(x, 60, 60);
	pb.box[1] = around(w, 14, 14);
	pb.box[2] = around(y, 8, 8);
	ref::Poly q = ref::Poly(1, [&] { ref::Mono m = ref::mone(); m[0] = e; m[1] = 1; return m; }()) - ref::Poly::var(2);
	ref::Poly o(1);
	size_t k = 1 + r.below(3);
	o = ref::Poly::var(0) - ref::Poly(x);
	for (size_t i = 0; i < k; ++i) o = o * (ref::Poly::var(0) - ref::Poly(Q(Q(r.range(-40, 40)) / 4)));
	if (o.tdeg() < 2) return;
	std::string d = bstr<double>(pb.box, pb.nv) + " point " + pstr(pb.pt, pb.nv) + "; " + q.str() + " original " + o.str();
	vf::note(d);
	vf::observe(d);
	carl::Contraction<carl::SimpleNewton, MP> con(pu::build(q, r), pu::build(o, r));
	Box<double> m = lib_box<double>(pb.box, pb.nv);
	for (size_t s = 0; s < 3; ++s) if (!newton_step(con, m, pb, s == 0 ? 0 : r.below(3), r.coin(), true, d + " step " + std::to_string(s), "gaps")) return;
}
int main(int argc, char** argv) {
	pu::V();
	vf::add_group("qeval", 12000, 300000, eval_case<Q>);
	vf::add_group("deval", 12000, 300000, eval_case<double>);
	vf::add_group("contractor", 30000, 800000, contractor_case);
	vf::add_group("normalize", 20000, 200000, normalize_case);
	vf::add_group("newton", 20000, 500000, newton_case);
	vf::add_group("propagation", 30000, 800000, propagation_case);
	vf::add_group("gaps", 20000, 400000, gaps_case);
	return vf::run(argc, argv);
}
