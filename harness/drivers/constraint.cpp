// C16: constraints. Every constraint built is compared with its input at assignments chosen near the
// boundary of the solution set; verdicts of the classification and simplification functions are
// compared with the truth at points of the box.
#include <polyutil.h>
#include <carl/formula/Constraint.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>
using pu::V; using carl::Relation;
using C = carl::Constraint<MP>;
using ID = carl::Interval<double>;
using IQ = carl::Interval<Q>;
static const std::vector<Relation> RELS = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static bool holds(const Q& v, Relation r) {
	int s = sgn(v);
	switch (r) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	case Relation::GEQ: return s >= 0;
	}
	throw std::runtime_error("relation");
}
static Relation turn(Relation r) {
	switch (r) {
	case Relation::LESS: return Relation::GREATER;
	case Relation::GREATER: return Relation::LESS;
	case Relation::LEQ: return Relation::GEQ;
	case Relation::GEQ: return Relation::LEQ;
	default: return r;
	}
}
using Pt = std::vector<Q>;
static Pt gen_pt(vf::Rng& r) {
	Pt p(ref::NV);
	for (size_t i = 0; i < ref::NV; ++i) p[i] = V()[i].type() == carl::VariableType::VT_INT ? Q(r.range(-4, 4)) : r.coin() ? Q(r.range(-4, 4)) : vf::gen_q(r, 9, 4);
	return p;
}
static std::string pstr(const Pt& p) { std::ostringstream o; o << "("; for (size_t i = 0; i < p.size(); ++i) o << (i ? "," : "") << p[i]; o << ")"; return o.str(); }
/// variables to draw from: all real, all integer, mixed
static std::vector<size_t> gen_vars(vf::Rng& r) {
	std::vector<size_t> real, ints, res;
	for (size_t i = 0; i < ref::NV; ++i) (V()[i].type() == carl::VariableType::VT_INT ? ints : real).push_back(i);
	switch (r.below(3)) { case 0: return real; case 1: return ints; default: res = {real[0], real[1], ints[0], ints[1]}; return res; }
}
static ref::Mono vmono(vf::Rng& r, const std::vector<size_t>& vs, unsigned maxexp) {
	ref::Mono m = ref::mone();
	size_t k = 1 + r.below(2);
	for (size_t i = 0; i < k; ++i) m[r.pick(vs)] = 1 + static_cast<unsigned>(r.below(maxexp));
	return m;
}
static Q coef(vf::Rng& r) { switch (r.below(4)) { case 0: return r.coin() ? Q(1) : Q(-1); case 1: return Q(r.range(1, 4) * (r.coin() ? 2 : 3)) * (r.coin() ? 1 : -1); default: return pu::gen_c(r); } }
static ref::Poly gen_lhs(vf::Rng& r, const std::vector<size_t>& vs, std::vector<Pt>& pts) {
	ref::Poly p;
	Pt at = gen_pt(r);
	pts.push_back(at);
	switch (r.below(9)) {
	case 0: p = ref::Poly(coef(r)) * ref::Poly::var(r.pick(vs)); break; // bound
	case 1: { ref::Mono m = ref::mone(); m[r.pick(vs)] = 1 + static_cast<unsigned>(r.below(5)); return ref::Poly(coef(r), m); } // univariate monomial
	case 2: { size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) p = p + ref::Poly(coef(r)) * ref::Poly::var(r.pick(vs)); break; } // linear
	case 3: { // sum of squares
		size_t n = 1 + r.below(3);
		for (size_t i = 0; i < n; ++i) { ref::Poly l = ref::Poly::var(r.pick(vs)) + ref::Poly(vf::gen_q(r, 3, 2)) * ref::Poly::var(r.pick(vs)) + ref::Poly(r.coin() ? Q(0) : Q(r.range(-2, 2))); p = p + ref::scale(l * l, abs(coef(r))); }
		if (r.coin()) p = -p;
		break; }
	case 4: { size_t n = 1 + r.below(3); bool neg = r.coin(); for (size_t i = 0; i < n; ++i) { ref::Mono m = vmono(r, vs, 2); for (auto& e : m) e *= 2; p = p + ref::Poly((neg ? -1 : 1) * abs(coef(r)), m); } break; }
	case 5: { ref::Poly f = ref::Poly::var(r.pick(vs)) + ref::Poly(Q(r.range(-3, 3))), g = ref::Poly(coef(r)) * ref::Poly::var(r.pick(vs)) + ref::Poly(Q(r.range(-3, 3))); p = f * g; break; }
	case 6: { // integer coefficients with a common factor except for the constant
		Q g = Q(r.range(2, 6)); size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) p = p + ref::Poly(g * Q(r.range(1, 5)) * (r.coin() ? 1 : -1), vmono(r, vs, 2)); break; }
	case 7: if (r.chance(1, 4)) return ref::Poly(vf::gen_q(r)); [[fallthrough]];
	default: { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; ++i) p = p + ref::Poly(coef(r), vmono(r, vs, 3)); }
	}
	// move the boundary of the solution set to a chosen point
	Q val = p.eval(at);
	switch (r.below(5)) {
	case 0: p = p - ref::Poly(val); break;
	case 1: p = p - ref::Poly(val + (r.coin() ? Q(1) : Q(-1)) / Q(r.range(1, 4))); break;
	case 2: p = p + ref::Poly(Q(r.range(-6, 6))); break;
	case 3: p = p + ref::Poly(vf::gen_q(r, 9, 6)); break;
	default: break;
	}
	return p;
}
static void points_for(vf::Rng& r, std::vector<Pt>& pts) {
	pts.push_back(Pt(ref::NV, Q(0)));
	size_t base = pts.size();
	for (size_t i = 0; i < base; ++i) for (int k = 0; k < 3; ++k) { Pt q = pts[i]; size_t v = r.below(ref::NV); q[v] += V()[v].type() == carl::VariableType::VT_INT || r.coin() ? Q(r.coin() ? 1 : -1) : Q(r.coin() ? 1 : -1) / 3; pts.push_back(q); }
	for (int k = 0; k < 8; ++k) pts.push_back(gen_pt(r));
}
static std::string cstr(const ref::Poly& p, Relation rel) { return p.str() + " " + carl::toString(rel) + " 0"; }
static void same_solutions(const C& c, const ref::Poly& p, Relation rel, const std::vector<Pt>& pts, const std::string& key) {
	ref::Poly l = pu::rpoly(c.lhs());
	for (auto& pt : pts) {
		bool want = holds(p.eval(pt), rel), got = holds(l.eval(pt), c.relation());
		VF_CHECK(want == got, key, cstr(p, rel) << " became " << c << "; they differ at " << pstr(pt));
		if (c.isConsistent() == 1) VF_CHECK(want, key + ":consistent", cstr(p, rel) << " declared valid, fails at " << pstr(pt));
		if (c.isConsistent() == 0) VF_CHECK(!want, key + ":inconsistent", cstr(p, rel) << " declared unsatisfiable, holds at " << pstr(pt));
	}
}
/// everything that is derived from the stored left-hand side and relation
static void attributes(const C& c, vf::Rng& r, const std::vector<Pt>& pts) {
	ref::Poly l = pu::rpoly(c.lhs());
	std::string d = vf::str(c), why;
	VF_CHECK(pu::canonical(c.lhs(), why), "constraint:canonical", d << " " << why);
	VF_CHECK((c.relation() != Relation::GREATER && c.relation() != Relation::GEQ), "constraint:relation", d);
	std::set<carl::Variable> vars;
	bool anyint = false, anyreal = false;
	for (size_t i = 0; i < ref::NV; ++i) {
		VF_CHECK(c.hasVariable(V()[i]) == l.has(i), "hasVariable", d << " v" << i);
		VF_CHECK(c.maxDegree(V()[i]) == l.deg(i), "maxDegree", d << " v" << i << " gave " << c.maxDegree(V()[i]));
		size_t mn = 0, occ = 0;
		for (auto& [m, k] : l.t) if (m[i]) { ++occ; mn = mn == 0 ? m[i] : std::min<size_t>(mn, m[i]); }
		VF_CHECK(c.minDegree(V()[i]) == mn, "minDegree", d << " v" << i << " gave " << c.minDegree(V()[i]));
		VF_CHECK(c.occurences(V()[i]) == occ, "occurences", d << " v" << i << " gave " << c.occurences(V()[i]));
		if (!l.has(i)) continue;
		vars.insert(V()[i]);
		(V()[i].type() == carl::VariableType::VT_INT ? anyint : anyreal) = true;
		for (unsigned e = 0; e <= l.deg(i) + 1; ++e) CK(c.coefficient(V()[i], e), l.coeff_in(i, e), "coefficient", d << " v" << i << "^" << e);
		auto vi = c.varInfo(V()[i], r.coin());
		VF_CHECK(vi.maxDegree() == l.deg(i) && vi.minDegree() == mn && vi.occurence() == occ, "varInfo", d << " v" << i);
	}
	VF_CHECK(c.variables().as_set() == vars, "variables", d);
	carl::carlVariables gv; c.gatherVariables(gv); VF_CHECK(gv.as_set() == vars, "gatherVariables", d);
	unsigned md = 0; for (size_t i = 0; i < ref::NV; ++i) md = std::max(md, l.deg(i));
	VF_CHECK(c.maxDegree() == md, "maxDegree-all", d);
	VF_CHECK(c.constantPart() == l.constpart(), "constantPart", d);
	VF_CHECK(c.integerValued() == !anyreal && c.realValued() == !anyint && c.hasIntegerValuedVariable() == anyint && c.hasRealValuedVariable() == anyreal, "valued", d);
	VF_CHECK((c.relationIsStrict() == (c.relation() == Relation::LESS || c.relation() == Relation::NEQ)) && c.relationIsWeak() == !c.relationIsStrict(), "relationIsStrict", d);
	if (vars.empty()) VF_CHECK(c.isConsistent() == (holds(l.constpart(), c.relation()) ? 1u : 0u), "isConsistent-constant", d << " gave " << c.isConsistent());
	// bounds
	bool lin1 = vars.size() == 1 && md == 1;
	VF_CHECK((c.isBound() == (lin1 && c.relation() != Relation::NEQ)), "isBound", d);
	VF_CHECK((c.isBound(true) == (lin1 && c.relation() != Relation::EQ)), "isBound-negated", d);
	bool lower = false, upper = false;
	if (lin1 && c.relation() != Relation::NEQ) {
		bool pos = l.lcoeff() > 0;
		lower = c.relation() == Relation::EQ || !pos; upper = c.relation() == Relation::EQ || pos;
	}
	VF_CHECK(c.isLowerBound() == lower, "isLowerBound", d); VF_CHECK(c.isUpperBound() == upper, "isUpperBound", d);
	// substitutions read off equations
	for (int neg = 0; neg < 2; ++neg) for (int ex = 0; ex < 2; ++ex) {
		carl::Variable sv, exclude = carl::Variable::NO_VARIABLE; MP st;
		if (ex) { if (vars.empty()) continue; exclude = *vars.begin(); }
		bool ok = c.getSubstitution(sv, st, neg, exclude);
		bool expect = false;
		if (c.relation() == (neg ? Relation::NEQ : Relation::EQ)) for (auto v : vars) {
			if (v == exclude) continue;
			size_t i = pu::vi(v); ref::Poly lc = l.coeff_in(i, 1);
			if (l.deg(i) == 1 && lc.constant() && (v.type() != carl::VariableType::VT_INT || abs(lc.constpart()) == 1)) expect = true;
		}
		VF_CHECK(ok == expect, "getSubstitution", d << " negated " << neg << " exclude " << exclude << " gave " << ok);
		if (!ok) continue;
		vf::op("getSubstitution");
		ref::Poly t = pu::rpoly(st); size_t i = pu::vi(sv);
		VF_CHECK(!(sv == exclude) && !t.has(i) && ref::subst(l, {{i, t}}).zero(), "getSubstitution-term", d << " gave " << sv << " -> " << st);
	}
	{ carl::Variable sv; Q val; bool ok = c.getAssignment(sv, val); 
	  bool expect = lin1 && c.relation() == Relation::EQ;
	  VF_CHECK(ok == expect, "getAssignment", d << " gave " << ok);
	  if (ok) { vf::op("getAssignment"); VF_CHECK(l.has(pu::vi(sv)) && ref::subst(l, {{pu::vi(sv), ref::Poly(val)}}).zero(), "getAssignment-value", d << " gave " << sv << " = " << val); } }
	// assignments, complete and partial
	for (size_t k = 0; k < pts.size(); k += 3) {
		const Pt& pt = pts[k];
		carl::EvaluationMap<Q> full, part; std::map<size_t, ref::Poly> rp;
		for (size_t i = 0; i < ref::NV; ++i) { full[V()[i]] = pt[i]; if (r.coin()) { part[V()[i]] = pt[i]; rp[i] = ref::Poly(pt[i]); } }
		unsigned got = c.satisfiedBy(full), want = holds(l.eval(pt), c.relation()) ? 1 : 0;
		VF_CHECK(got == want, "satisfiedBy", d << " at " << pstr(pt) << " gave " << got);
		ref::Poly rest = ref::subst(l, rp); got = c.satisfiedBy(part);
		if (rest.constant()) VF_CHECK(got == (holds(rest.constpart(), c.relation()) ? 1u : 0u), "satisfiedBy-partial", d << " at part of " << pstr(pt) << " gave " << got);
		else if (got != 2) VF_CHECK(got == want, "satisfiedBy-partial", d << " at part of " << pstr(pt) << " gave " << got);
	}
}
static void construct_case(vf::Rng& r) {
	std::vector<Pt> pts; auto vs = gen_vars(r); ref::Poly p = gen_lhs(r, vs, pts); Relation rel = r.pick(RELS);
	points_for(r, pts);
	std::string d = cstr(p, rel); vf::note(d); if (!p.constant()) vf::observe(d); vf::op("construct");
	C c(pu::build(p, r), rel);
	same_solutions(c, p, rel, pts, "construct");
	attributes(c, r, pts);
	// the same constraint along other routes is the same object
	C again(pu::build(p, r), rel); VF_CHECK(again == c && again.id() == c.id() && again.getHash() == c.getHash(), "construct:shared", d << " gave " << c << " and " << again);
	Q s = abs(pu::gen_c(r)); C scaled(pu::build(ref::scale(p, s), r), rel);
	VF_CHECK(scaled == c, "construct:scaled", d << " scaled by " << s << " gave " << c << " and " << scaled);
	C turned(pu::build(ref::scale(p, -s), r), turn(rel));
	VF_CHECK(turned == c, "construct:turned", d << " times -" << s << " gave " << c << " and " << turned);
	C idem(c.lhs(), c.relation()); same_solutions(idem, p, rel, pts, "construct-again");
	C neg = c.negation(); same_solutions(neg, p, carl::inverse(rel), pts, "negation");
	C negneg = neg.negation(); same_solutions(negneg, p, rel, pts, "negation-twice");
	VF_CHECK((neg != c) && !(neg == c), "negation:different", d);
	C direct(pu::build(p, r), carl::inverse(rel)); same_solutions(direct, p, carl::inverse(rel), pts, "construct");
	if (r.chance(1, 20)) { std::ostringstream o; c.printProperties(o); VF_CHECK(!o.str().empty(), "printProperties", d); }
	// moves leave a usable value behind
	C m(std::move(again)); C m2(true); m2 = std::move(m); VF_CHECK(m2 == c, "move", d);
}
static void bound_case(vf::Rng& r) {
	size_t i = r.below(ref::NV); Relation rel = r.pick(RELS); Q b = r.chance(1, 4) ? Q(0) : r.coin() ? Q(r.range(-5, 5)) : r.chance(1, 5) ? vf::gen_mpq(r) : vf::gen_q(r, 20, 7);
	ref::Poly p = ref::Poly::var(i) - ref::Poly(b); std::string d = cstr(p, rel); vf::note(d); vf::observe(d); vf::op("bound");
	std::vector<Pt> pts;
	for (int k = -2; k <= 2; ++k) for (int h = 0; h < 3; ++h) {
		Pt q(ref::NV, Q(0)); Z f; mpz_fdiv_q(f.get_mpz_t(), b.get_num_mpz_t(), b.get_den_mpz_t());
		if (V()[i].type() == carl::VariableType::VT_INT) { q[i] = Q(f) + k; } else q[i] = (h == 0 ? Q(f) : h == 1 ? b : Q(b + Q(1, 1000))) + Q(k) / 2;
		pts.push_back(q);
	}
	C c(V()[i], rel, b); same_solutions(c, p, rel, pts, "bound"); attributes(c, r, pts);
	C viapoly(pu::build(p, r), rel); same_solutions(viapoly, p, rel, pts, "bound-polynomial");
	if (rel != Relation::EQ && rel != Relation::NEQ) VF_CHECK(viapoly == c, "bound:shared", d << " gave " << c << " and " << viapoly);
	if (b == 0) { C z(V()[i], rel); VF_CHECK(z == c, "bound:default", d << " gave " << z); }
	same_solutions(c.negation(), p, carl::inverse(rel), pts, "bound-negation");
}
/// verdicts over boxes
static void box_case(vf::Rng& r) {
	std::vector<Pt> pts; auto vs = gen_vars(r); ref::Poly p; do { pts.clear(); p = gen_lhs(r, vs, pts); } while (p.constant());
	Relation rel = r.pick(RELS);
	C c(pu::build(p, r), rel); ref::Poly l = pu::rpoly(c.lhs());
	carl::EvaluationMap<ID> db; carl::EvaluationMap<IQ> qb; std::vector<std::pair<Q, Q>> lim(ref::NV); std::vector<std::array<carl::BoundType, 2>> bt(ref::NV);
	bool complete = true; std::ostringstream bs; Pt& center = pts[0];
	for (size_t i = 0; i < ref::NV; ++i) {
		Q lo = r.coin() ? Q(r.range(-4, 4)) / 2 : center[i].get_den() == 1 || center[i].get_den() == 2 || center[i].get_den() == 4 ? center[i] : Q(0), hi = lo + (r.chance(1, 4) ? Q(0) : Q(r.range(1, 6)) / 4);
		if (r.chance(1, 4)) { lo = 0; hi = Q(r.range(0, 3)); } else if (r.chance(1, 5)) { hi = 0; lo = -Q(r.range(0, 3)); }
		auto lb = r.chance(1, 6) ? carl::BoundType::INFTY : lo != hi && r.chance(1, 3) ? carl::BoundType::STRICT : carl::BoundType::WEAK;
		auto ub = r.chance(1, 6) ? carl::BoundType::INFTY : lo != hi && r.chance(1, 3) ? carl::BoundType::STRICT : carl::BoundType::WEAK;
		lim[i] = {lo, hi}; bt[i] = {lb, ub};
		if (r.chance(1, 15)) { if (l.has(i)) complete = false; continue; }
		db[V()[i]] = ID(lo.get_d(), lb, hi.get_d(), ub); qb[V()[i]] = IQ(lo, lb, hi, ub);
		if (l.has(i)) bs << " v" << i << " in " << qb[V()[i]];
	}
	std::string d = vf::str(c) + " over" + bs.str(); vf::note(d); vf::observe(d); vf::op("box");
	std::vector<Pt> in;
	for (int k = 0; k < 24; ++k) {
		Pt q(ref::NV);
		for (size_t i = 0; i < ref::NV; ++i) {
			auto [lo, hi] = lim[i]; auto lb = bt[i][0], ub = bt[i][1];
			Q a = lb == carl::BoundType::INFTY ? (ub == carl::BoundType::INFTY ? Q(-5) : Q(hi - 8)) : lo, b = ub == carl::BoundType::INFTY ? Q(a + 10) : hi;
			Q x = a + (b - a) * Q(r.range(0, 8)) / 8;
			if (a == lo && x == lo && lb == carl::BoundType::STRICT) x = a + (b - a) / 64;
			if (b == hi && x == hi && ub == carl::BoundType::STRICT) x = b - (b - a) / 64;
			q[i] = x;
		}
		in.push_back(q);
	}
	Relation strict = Relation::EQ; 
	unsigned v1 = c.consistentWith(db), v2 = c.consistentWith(db, strict); VF_CHECK(v1 == v2, "consistentWith:agree", d << " gave " << v1 << " and " << v2);
	if (!complete) VF_CHECK(v1 == 2, "consistentWith:incomplete", d << " gave " << v1);
	bool haveq = complete; unsigned v3 = 9; if (haveq && !l.constant()) { v3 = c.evaluate(qb); VF_CHECK(v3 <= 3, "evaluate:range", d << " gave " << v3); }
	if (v1 != 2) vf::op("box-decided"); if (v3 == 1) vf::op("box-null"); if (strict != c.relation()) vf::op("box-stricter");
	for (auto& q : in) {
		Q val = l.eval(q); bool h = holds(val, c.relation());
		if (v1 == 1) VF_CHECK(h, "consistentWith:valid", d << " fails at " << pstr(q)); if (v1 == 0) VF_CHECK(!h, "consistentWith:inconsistent", d << " holds at " << pstr(q));
		if (h && v2 == 2) VF_CHECK(holds(val, strict), "consistentWith:stricter", d << " implies " << strict << ", fails at " << pstr(q));
		if (v3 == 3) VF_CHECK(h, "evaluate:true", d << " fails at " << pstr(q)); if (v3 == 0) VF_CHECK(!h, "evaluate:false", d << " holds at " << pstr(q)); if (v3 == 1) VF_CHECK(h == (val == 0), "evaluate:null", d << " at " << pstr(q) << " value " << val);
	}
	if (v2 == 2) { // the stricter relation must itself be at least as strong
		for (int s = -1; s <= 1; ++s) if (holds(Q(s), strict)) VF_CHECK(holds(Q(s), c.relation()), "consistentWith:stricter-stronger", d << " gave " << strict);
	}
}
static void compare_case(vf::Rng& r) {
	std::vector<Pt> pts; auto vs = gen_vars(r); ref::Poly p; do { pts.clear(); p = gen_lhs(r, vs, pts); } while (p.constant());
	Relation ra = r.pick(RELS), rb = r.pick(RELS); ref::Poly q = p;
	if (r.chance(1, 3)) q = q + ref::Poly(Q(r.range(-2, 2))); if (r.chance(1, 4)) q = q + ref::Poly(vf::gen_q(r, 4, 3)); if (r.coin()) q = ref::scale(q, (r.coin() ? 1 : -1) * Q(r.range(1, 4)) / Q(r.range(1, 3)));
	if (r.chance(1, 10)) q = q + ref::Poly(coef(r), vmono(r, vs, 2));
	C a(pu::build(p, r), ra), b(pu::build(q, r), rb); if (a.lhs().isConstant() || b.lhs().isConstant()) return;
	std::string d = vf::str(a) + " and " + vf::str(b); vf::note(d); vf::observe(d);
	points_for(r, pts); 
	signed got = carl::compare(a, b), rev = carl::compare(b, a); vf::op("compare" + std::to_string(got));
	ref::Poly la = pu::rpoly(a.lhs()), lb = pu::rpoly(b.lhs());
	// values near the two thresholds along the line through a point
	for (auto& pt : pts) {
		bool x = holds(la.eval(pt), a.relation()), y = holds(lb.eval(pt), b.relation());
		auto dec = [&](signed k, bool A, bool B, const char* key) {
			bool ok = true;
			switch (k) {
			case carl::A_IFF_B: ok = A == B; break;
			case carl::A_IMPLIES_B: ok = !A || B; break;
			case carl::B_IMPLIES_A: ok = !B || A; break;
			case carl::NOT__A_AND_B: ok = !(A && B); break;
			case carl::A_XOR_B: ok = A != B; break;
			case carl::A_AND_B__IFF_C: case 0: break;
			default: ok = false;
			}
			VF_CHECK(ok, key, d << " gave " << k << ", contradicted at " << pstr(pt));
		};
		dec(got, x, y, "compare"); dec(rev, y, x, "compare-swapped");
	}
	VF_CHECK((a == b) == (la == lb && a.relation() == b.relation()), "compare:identity", d);
}
static void relation_case(vf::Rng& r) {
	Q a = vf::gen_q(r, 4, 3), b = r.chance(1, 3) ? a : vf::gen_q(r, 4, 3); Relation rel = r.pick(RELS), rel2 = r.pick(RELS); vf::op("relation"); vf::observe(vf::str(a) + vf::str(rel) + vf::str(b));
	carl::Sign s = a < 0 ? carl::Sign::NEGATIVE : a == 0 ? carl::Sign::ZERO : carl::Sign::POSITIVE; std::ostringstream dd; dd << a << " " << rel << " " << b; std::string d = dd.str();
	VF_CHECK(carl::sgn(a) == s, "sgn", d); VF_CHECK(carl::evaluate(s, rel) == holds(a, rel), "evaluate-sign", d); VF_CHECK(carl::evaluate(a, rel) == holds(a, rel), "evaluate-number", d); VF_CHECK(carl::evaluate(a, rel, b) == holds(a - b, rel), "evaluate-numbers", d);
	Z za = a.get_num(), zb = b.get_num(); VF_CHECK(carl::evaluate(za, rel) == holds(Q(za), rel) && carl::evaluate(za, rel, zb) == holds(Q(za - zb), rel), "evaluate-integers", d);
	VF_CHECK(carl::evaluate(a, carl::inverse(rel), b) != holds(a - b, rel), "inverse", d); VF_CHECK(carl::evaluate(b, carl::turn_around(rel), a) == holds(a - b, rel), "turn_around", d);
	VF_CHECK(carl::inverse(carl::inverse(rel)) == rel && carl::turn_around(carl::turn_around(rel)) == rel, "involution", d);
	VF_CHECK((carl::isStrict(rel) == (rel == Relation::LESS || rel == Relation::GREATER || rel == Relation::NEQ)) && carl::isWeak(rel) == !carl::isStrict(rel), "isStrict", d);
	VF_CHECK((carl::toString(rel) == carl::toString(rel2)) == (rel == rel2), "relation-print", d); VF_CHECK(rel != rel2 || std::hash<Relation>()(rel) == std::hash<Relation>()(rel2), "relation-hash", d);
	static const std::map<Relation, std::string> names = {{Relation::EQ, "="}, {Relation::NEQ, "!="}, {Relation::LESS, "<"}, {Relation::LEQ, "<="}, {Relation::GREATER, ">"}, {Relation::GEQ, ">="}}; VF_CHECK(carl::toString(rel) == names.at(rel), "relation-name", d);
	// sign variations of sequences with zeros anywhere
	std::vector<carl::Sign> sg; size_t n = r.below(8); std::ostringstream o; for (size_t i = 0; i < n; ++i) { int x = static_cast<int>(r.range(-1, 1)); sg.push_back(static_cast<carl::Sign>(x)); o << x << ","; }
	size_t want = 0; int last = 0; for (auto x : sg) { int v = static_cast<int>(x); if (v == 0) continue; if (last && v != last) ++want; last = v; }
	std::vector<carl::Sign> tight(sg); tight.shrink_to_fit();
	VF_CHECK(carl::sign_variations(tight.begin(), tight.end()) == want, "sign_variations", o.str() << " gave " << carl::sign_variations(tight.begin(), tight.end()));
	std::vector<Q> nums; for (auto x : sg) nums.push_back(Q(static_cast<int>(x) * r.range(1, 5))); VF_CHECK(carl::sign_variations(nums.begin(), nums.end(), [](const Q& q) { return carl::sgn(q); }) == want, "sign_variations-function", o.str());
}
static void sos_case(vf::Rng& r) {
	std::vector<Pt> pts; auto vs = gen_vars(r); ref::Poly p; do { pts.clear(); p = gen_lhs(r, vs, pts); } while (p.zero());
	std::string d = p.str(); vf::note(d); vf::observe(d); vf::op("sos"); MP mp = pu::build(p, r); points_for(r, pts);
	auto res = carl::sos_decomposition(mp, r.coin());
	if (!res.empty()) { vf::op("sos-found"); ref::Poly sum; bool pos = true; for (auto& [k, q] : res) { pos = pos && k > 0; ref::Poly x = pu::rpoly(q); sum = sum + ref::scale(x * x, k); } VF_CHECK(pos && sum == p, "sos_decomposition", d << " gave a sum of " << sum.str()); }
	for (bool full : {false, true}) {
		carl::Definiteness df = carl::definiteness(mp, full); if (df != carl::Definiteness::NON) vf::op("definite");
		for (auto& pt : pts) { int s = sgn(p.eval(pt)); bool ok = df == carl::Definiteness::NON || (df == carl::Definiteness::POSITIVE && s > 0) || (df == carl::Definiteness::POSITIVE_SEMI && s >= 0) || (df == carl::Definiteness::NEGATIVE && s < 0) || (df == carl::Definiteness::NEGATIVE_SEMI && s <= 0); VF_CHECK(ok, "definiteness", d << " declared " << df << ", value at " << pstr(pt) << " is " << p.eval(pt)); }
	}
}
/// pool histories: constraints come and go, identity must follow the normal form
static void pool_case(vf::Rng& r) {
	std::vector<C> live; std::map<size_t, std::string> ids; std::ostringstream h; size_t steps = 10 + r.below(60); std::vector<std::pair<ref::Poly, Relation>> seen;
	for (size_t s = 0; s < steps; ++s) {
		switch (r.below(5)) {
		case 0: if (!live.empty()) { size_t i = r.below(live.size()); std::swap(live[i], live.back()); live.pop_back(); h << "-"; } break;
		case 1: if (!seen.empty()) { auto& x = r.pick(seen); live.emplace_back(pu::build(x.first, r), x.second); h << "*"; } break;
		case 2: if (!live.empty()) { live.push_back(r.pick(live).negation()); h << "!"; } break;
		case 3: if (!live.empty()) { live.push_back(C(r.pick(live))); if (r.chance(1, 10)) live.push_back(C(r.coin())); h << "="; } break;
		default: { std::vector<Pt> pts; ref::Poly p = gen_lhs(r, gen_vars(r), pts); Relation rel = r.pick(RELS); seen.emplace_back(p, rel); live.emplace_back(pu::build(p, r), rel); h << "+" << cstr(p, rel) << ";"; }
		}
		if (r.chance(1, 40)) { live.clear(); h << "0"; }
	}
	vf::note(h.str()); vf::observe(h.str()); vf::op("pool-history");
	for (size_t i = 0; i < live.size(); ++i) for (size_t j = 0; j < live.size(); ++j) {
		const C &a = live[i], &b = live[j]; bool same = pu::rpoly(a.lhs()) == pu::rpoly(b.lhs()) && a.relation() == b.relation();
		VF_CHECK((a == b) == same && (a != b) == !same && (a.id() == b.id()) == same, "pool:identity", a << " and " << b);
		VF_CHECK((a < b) == (!same && !(b < a)) && (a <= b) == !(b < a) && (a > b) == (b < a) && (a >= b) == !(a < b), "pool:order", a << " and " << b);
		if (same) VF_CHECK(std::hash<C>()(a) == std::hash<C>()(b), "pool:hash", a << " and " << b);
	}
	for (auto& c : live) VF_CHECK((c.isConsistent() != 2) || !c.variables().empty(), "pool:trivial", c);
}
int main(int argc, char** argv) {
	vf::add_group("construct", 14000, 500000, construct_case);
	vf::add_group("bound", 10000, 200000, bound_case);
	vf::add_group("box", 20000, 500000, box_case);
	vf::add_group("compare", 25000, 500000, compare_case);
	vf::add_group("relation", 10000, 100000, relation_case);
	vf::add_group("sos", 15000, 400000, sos_case);
	vf::add_group("pool", 1500, 50000, pool_case);
	return vf::run(argc, argv);
}
