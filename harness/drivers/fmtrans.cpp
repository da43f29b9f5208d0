// C26: transformations of formulas. Results are compared with the original under assignments; for
// conversions that introduce auxiliary variables a small search decides whether an assignment of the
// original variables extends to the auxiliary ones.
#include <fmutil.h>
#include <carl/formula/helpers/to_cnf.h>
#include <carl/formula/helpers/FormulaVisitor.h>
using namespace fm;

// ------------------------------------------------------------ conjunctive normal form
struct Lit { carl::Variable v; bool pos; };
/// -1 false, 1 true, 0: a literal of an auxiliary variable
static int lit(const F& f, const Env& e, Lit& l) {
	const F& a = f.getType() == FT::NOT ? f.subformula() : f;
	bool pos = f.getType() != FT::NOT;
	if (a.getType() == FT::BOOL && !e.b.count(a.boolean())) { l = {a.boolean(), pos}; return 0; }
	return val(a, e) == pos ? 1 : -1;
}
static bool solve(std::vector<std::vector<Lit>> cs, size_t& fuel) {
	if (fuel == 0) throw std::runtime_error("search too long");
	--fuel;
	for (bool again = true; again;) {
		again = false;
		for (auto& c : cs) {
			if (c.empty()) return false;
			if (c.size() != 1) continue;
			Lit u = c[0]; std::vector<std::vector<Lit>> n;
			for (auto& d : cs) {
				std::vector<Lit> k; bool sat = false;
				for (auto& l : d) if (l.v == u.v) { if (l.pos == u.pos) sat = true; } else k.push_back(l);
				if (!sat) n.push_back(k);
			}
			cs = n; again = true; break;
		}
	}
	if (cs.empty()) return true;
	Lit l = cs[0][0];
	for (bool pos : {true, false}) { auto n = cs; n.push_back({{l.v, pos}}); if (solve(n, fuel)) return true; }
	return false;
}
static bool satisfiable_under(const F& f, const Env& e) {
	std::vector<std::vector<Lit>> cs;
	std::vector<F> clauses; if (f.getType() == FT::AND) clauses.assign(f.subformulas().begin(), f.subformulas().end()); else clauses.push_back(f);
	for (auto& c : clauses) {
		std::vector<F> ls; if (c.getType() == FT::OR) ls.assign(c.subformulas().begin(), c.subformulas().end()); else ls.push_back(c);
		std::vector<Lit> k; bool sat = false;
		for (auto& x : ls) { Lit l{B()[0], true}; int v = lit(x, e, l); if (v == 1) { sat = true; break; } if (v == 0) k.push_back(l); }
		if (!sat) { if (k.empty()) return false; cs.push_back(k); }
	}
	size_t fuel = 4000;
	return solve(cs, fuel);
}
static void cnf_case(vf::Rng& r) {
	Opt o; o.theory = r.chance(3, 4); if (r.coin()) o.bounds = 6 + static_cast<int>(r.below(3));
	Gen g(r, o);
	if (o.bounds) for (int i = 0; i < 4; ++i) { Ref a = g.atoms[0]->k == K::CON ? g.atoms[0] : g.atoms.back(); if (a->k == K::CON) g.atoms.push_back(g.atom(a->p)); }
	Ref n = g.tree(1 + static_cast<unsigned>(r.below(4)));
	std::string d = str(n);
	vf::note(d); vf::observe(d);
	F f = build(n, r);
	bool keep = r.coin(), simp = r.coin(), equiv = r.coin();
	d += " built " + vf::str(f) + (keep ? " keep" : "") + (simp ? " simplify" : "") + (equiv ? " equivalences" : "");
	vf::op("to_cnf");
	F c = keep && !simp && equiv && r.coin() ? carl::to_cnf(f) : carl::to_cnf(f, keep, simp, equiv);
	d += " gave " + vf::str(c);
	if (!VF_CHECK(cnf(c), "cnf:shape", d)) return;
	VF_CHECK(c.propertyHolds(carl::PROP_IS_IN_CNF), "cnf:flag", d);
	bool pure = true; std::set<carl::Variable> aux;
	walk(c, [&](const F& x) { if (x.getType() == FT::BOOL && std::find(B().begin(), B().end(), x.boolean()) == B().end()) aux.insert(x.boolean()); });
	for (int i = 0; i < 20; ++i) {
		Env e = gen_env(r);
		bool want = eval(n, e);
		bool got = aux.empty() ? val(c, e) : satisfiable_under(c, e);
		VF_CHECK(got == want, std::string("cnf") + (simp ? ":simplify" : "") + (equiv ? "" : ":implications"), d << " at " << estr(e) << " expected " << want);
	}
	(void)pure;
}
/// conjunctions and disjunctions of bounds on one polynomial
static void bounds_case(vf::Rng& r) {
	ref::Poly base = ref::Poly::var(r.below(ref::NV)) + (r.coin() ? ref::Poly() : ref::scale(ref::Poly::var(r.below(ref::NV)), Q(r.range(-2, 2))));
	std::vector<ref::Poly> bases = {base};
	if (r.chance(1, 3)) bases.push_back(ref::Poly::var(r.below(ref::NV)));
	bool conj = r.coin();
	auto n = std::make_shared<Node>(); n->k = conj ? K::AND : K::OR;
	size_t m = 2 + r.below(4);
	std::vector<F> fs; std::string d = conj ? "conjunction" : "disjunction";
	for (size_t i = 0; i < m; ++i) {
		auto a = std::make_shared<Node>(); a->k = K::CON;
		a->p = ref::scale(r.pick(bases) + ref::Poly(Q(r.range(-1, 1))), r.coin() ? Q(1) : r.coin() ? Q(-1) : Q(r.range(1, 3)) * (r.coin() ? Q(1, 2) : Q(-1)));
		a->rel = static_cast<Relation>(r.below(6));
		F f = build(a, r);
		if (f.getType() != FT::CONSTRAINT) continue;
		n->c.push_back(a); fs.push_back(f); d += " " + str(a) + " as " + vf::str(f);
	}
	if (fs.empty()) return;
	vf::note(d); vf::observe(d); vf::op(conj ? "bounds conjunction" : "bounds disjunction");
	F::ConstraintBounds cb; F res(conj ? FT::AND : FT::OR, fs); bool constant = false;
	for (auto& f : fs) if (F::addConstraintBound(cb, f, conj).isFalse()) { constant = true; break; }
	carl::Formulas<MP> out;
	if (!constant) constant = F::swapConstraintBounds(cb, out, conj);
	for (int i = 0; i < 20; ++i) {
		Env e = gen_env(r);
		bool want = eval(n, e), got = !conj;
		if (!constant) got = val(F(conj ? FT::AND : FT::OR, out), e);
		VF_CHECK(got == want, conj ? "bounds:conjunction" : "bounds:disjunction", d << (constant ? " gave a constant" : " gave " + vf::str(F(conj ? FT::AND : FT::OR, out))) << " at " << estr(e) << " expected " << want);
	}
}
// ------------------------------------------------------------ negations
static void neg_case(vf::Rng& r) {
	Opt o; o.theory = r.chance(3, 4); o.quant = r.chance(1, 4);
	Gen g(r, o);
	Ref n = g.tree(1 + static_cast<unsigned>(r.below(4)));
	std::string d = "not " + str(n);
	vf::note(d); vf::observe(d);
	F f = !build(n, r);
	bool keep = r.coin();
	vf::op("resolve negation");
	F c = f.resolveNegation(keep);
	d += " i.e. " + vf::str(f) + " gave " + vf::str(c);
	if (f.getType() != FT::NOT) VF_CHECK(c == f, "resolve:unchanged", d);
	else VF_CHECK(c.getType() != FT::NOT || !atom(f.subformula()) || f.subformula().getType() == FT::BOOL, "resolve:shape", d);
	F p = f; bool assoc = f.getType() == FT::AND || f.getType() == FT::OR || f.getType() == FT::XOR;
	if (assoc) { vf::op("connect preceding"); F pre = f.connectPrecedingSubformulas(); p = F(f.getType(), pre, f.subformulas().back()); }
	for (int i = 0; i < 16; ++i) {
		Env e = gen_env(r);
		VF_CHECK(val(c, e) == !eval(n, e), "resolve", d << " at " << estr(e));
		VF_CHECK(val(p, e) == !eval(n, e), "connect", d << " at " << estr(e));
	}
}
// ------------------------------------------------------------ substitution
static void subst_case(vf::Rng& r) {
	Opt o; o.theory = r.chance(4, 5); o.quant = r.chance(1, 5);
	Gen g(r, o);
	Ref n = g.tree(1 + static_cast<unsigned>(r.below(4)));
	F f = build(n, r);
	std::string d = str(n) + " built " + vf::str(f);
	std::map<carl::Variable, F> bs; std::map<carl::Variable, MP> as; std::map<carl::BVVariable, carl::BVTerm> ws;
	std::map<size_t, Ref> rb; std::map<size_t, ref::Poly> ra; std::map<size_t, BVSide> rw;
	size_t nb = r.below(3), na = r.below(3);
	for (size_t i = 0; i < nb; ++i) {
		// bound variables in the replacement would be captured
		Ref t = r.coin() && !o.quant ? g.tree(2) : r.pick(g.atoms); if (o.quant && t->k == K::BOOL) continue;
		size_t k = r.below(NB); if (rb.count(k)) continue; rb[k] = t; bs.emplace(B()[k], build(t, r)); d += " p" + std::to_string(k) + ":=" + str(t);
	}
	for (size_t i = 0; i < na; ++i) {
		size_t k = r.below(ref::NV); if (ra.count(k)) continue;
		ref::Poly t;
		if (V()[k].type() == carl::VariableType::VT_INT) t = r.coin() ? ref::Poly(Q(r.range(-2, 2))) : ref::Poly::var(k) * ref::Poly(Q(r.range(-2, 2))) + ref::Poly(Q(r.range(-2, 2)));
		else { t = r.coin() ? ref::Poly(vf::gen_q(r, 3, 2)) : ref::scale(ref::Poly::var(r.below(ref::NV)), vf::gen_q(r, 3, 2)) + ref::Poly(vf::gen_q(r, 2, 2)); }
		ra[k] = t; as.emplace(V()[k], pu::build(t, r)); d += " " + V()[k].name() + ":=" + t.str();
	}
	vf::note(d);
	auto env2 = [&](const Env& e) {
		Env x = e;
		for (auto& b : rb) x.b[B()[b.first]] = eval(b.second, e);
		for (auto& a : ra) x.a[a.first] = a.second.eval(e.a);
		return x;
	};
	F s;
	carl::FormulaSubstitutor<F> fs;
	unsigned how = static_cast<unsigned>(r.below(5));
	switch (how) {
	case 0: rb.clear(); d += " (arithmetic)"; s = as.size() == 1 && r.coin() ? f.substitute(as.begin()->first, as.begin()->second) : f.substitute(as); break;
	case 1: ra.clear(); d += " (Boolean)"; s = f.substitute(bs); break;
	case 2: rb.clear(); if (o.quant) return; d += " (visitor, arithmetic)"; s = fs.substitute(f, as); break;
	case 3: { ra.clear(); if (o.quant) return; d += " (visitor, Boolean)"; std::map<F, F> m; for (auto& x : bs) m.emplace(F(x.first), x.second); s = fs.substitute(f, m);
		// the visitor replaces bottom-up, so a replaced atom stays replaced
		break; }
	default: s = f.substitute(bs, as); break;
	}
	vf::observe(d); vf::op("substitute");
	for (int i = 0; i < 16; ++i) {
		Env e = gen_env(r);
		bool want = eval(n, env2(e));
		VF_CHECK(val(s, e) == want, std::string("substitute:") + (how < 2 || how == 4 ? "formula" : "visitor"), d << " gave " << s << " at " << estr(e) << " expected " << want);
	}
}
/// bit-vector variables replaced by terms, visitors
static void visit_case(vf::Rng& r) {
	Opt o; o.quant = r.chance(1, 5);
	Gen g(r, o);
	Ref n = g.tree(1 + static_cast<unsigned>(r.below(4)));
	F f = build(n, r);
	std::string d = str(n) + " built " + vf::str(f);
	vf::note(d); vf::observe(d);
	carl::FormulaVisitor<F> vis;
	std::vector<size_t> a, b;
	vf::op("visit");
	vis.visit(f, [&](const F& x) { a.push_back(x.getId()); });
	walk(f, [&](const F& x) { b.push_back(x.getId()); });
	VF_CHECK(a == b, "visit:order", d);
	vf::op("visitResult");
	VF_CHECK(vis.visitResult(f, [](const F& x) { return x; }) == f, "visit:identity", d);
	// p_k becomes its negation
	size_t k = r.below(NB);
	F s = vis.visitResult(f, [&](const F& x) { return x.getType() == FT::BOOL && x.boolean() == B()[k] ? !x : x; });
	// a Boolean literal becomes a conjunction with itself and true; negation normal form
	F t = vis.visitResult(f, [&](const F& x) { return x.resolveNegation(false); });
	std::map<carl::BVVariable, carl::BVTerm> ws; std::map<size_t, BVSide> rw;
	for (size_t i = 0; i < NW; ++i) if (r.coin()) { BVSide x; if (r.coin()) x.var = static_cast<int>(r.below(NW)); else x.c = static_cast<unsigned>(r.below(1 << BW)); rw[i] = x; ws.emplace(W()[i], bside(x)); }
	F w = carl::FormulaSubstitutor<F>().substitute(f, ws);
	for (int i = 0; i < 12; ++i) {
		Env e = gen_env(r), x = e, y = e;
		if (!o.quant) { x.b[B()[k]] = !e.b[B()[k]]; VF_CHECK(val(s, e) == eval(n, x), "visit:flip", d << " p" << k << " gave " << s << " at " << estr(e)); }
		VF_CHECK(val(t, e) == eval(n, e), "visit:resolve", d << " gave " << t << " at " << estr(e));
		for (auto& p : rw) y.w[p.first] = static_cast<unsigned>(side(p.second, e).v.get_ui());
		VF_CHECK(val(w, e) == eval(n, y), "substitute:bitvector", d << " gave " << w << " at " << estr(e));
	}
}
int main(int argc, char** argv) {
	V(); B(); U(); W();
	vf::add_group("cnf", 12000, 50000, cnf_case); vf::grows();
	vf::add_group("bounds", 16000, 60000, bounds_case);
	vf::add_group("negation", 10000, 40000, neg_case);
	vf::add_group("substitute", 12000, 50000, subst_case);
	vf::add_group("visit", 8000, 30000, visit_case);
	return vf::run(argc, argv);
}
