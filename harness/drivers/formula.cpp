// C25: formulas built from Boolean combinations. Every formula is compared with the requested
// combination under assignments; sharing, derived properties and the size of the pool are monitored.
#include <fmutil.h>
#include <axioms.h>
using namespace fm;

static void props(const F& f, const std::string& d) {
	size_t nbool = 0, ncon = 0, nueq = 0, nbv = 0, eq = 0, ineq = 0, strict = 0, weak = 0, lin = 0, nonlin = 0, ints = 0, reals = 0, badnot = 0;
	std::set<carl::Variable> vars; std::set<carl::UVariable> uv; std::set<carl::BVVariable> bv;
	std::vector<Con> cons; size_t quant = 0; size_t compl_ = 0;
	walk(f, [&](const F& x) {
		switch (x.getType()) {
		case FT::BOOL: ++nbool; vars.insert(x.boolean()); ++compl_; break;
		case FT::CONSTRAINT: {
			++ncon; cons.push_back(x.constraint()); compl_ += x.constraint().complexity();
			ref::Poly p = pu::rpoly(x.constraint().lhs()); unsigned deg = 0;
			for (auto& t : p.t) { deg = std::max(deg, static_cast<unsigned>(ref::mdeg(t.first))); for (size_t i = 0; i < ref::NV; ++i) if (t.first[i]) { vars.insert(V()[i]); (V()[i].type() == carl::VariableType::VT_INT ? ints : reals)++; } }
			(deg <= 1 ? lin : nonlin)++;
			switch (x.constraint().relation()) { case Relation::EQ: ++eq; ++weak; break; case Relation::NEQ: case Relation::LESS: case Relation::GREATER: ++strict; break; default: ++ineq; ++weak; }
			break; }
		case FT::UEQ: ++nueq; uv.insert(x.uequality().lhs().asUVariable()); uv.insert(x.uequality().rhs().asUVariable()); compl_ += x.uequality().complexity(); break;
		case FT::BITVECTOR: ++nbv; compl_ += x.bvConstraint().complexity(); for (auto* t : {&x.bvConstraint().lhs(), &x.bvConstraint().rhs()}) if (t->type() == carl::BVTermType::VARIABLE) bv.insert(t->variable()); break;
		case FT::TRUE: ++lin; ++eq; ++weak; break;
		case FT::FALSE: ++lin; ++strict; break;
		case FT::NOT: if (!atom(x.subformula())) ++badnot; ++compl_; break;
		case FT::EXISTS: case FT::FORALL: ++quant; [[fallthrough]];
		default: ++compl_; break;
		}
	});
	auto has = [&](carl::Condition c) { return c <= f.properties(); };
	VF_CHECK(f.isAtom() == atom(f), "props:atom", d);
	VF_CHECK(f.isBooleanCombination() == !atom(f), "props:combination", d);
	// gathered variables
	for (auto& v : bv) vars.insert(v.variable());
	for (auto& v : uv) vars.insert(v.variable());
	std::set<carl::Variable> got; for (auto v : f.variables()) got.insert(v);
	std::set<carl::Variable> arith, garith;
	for (auto v : vars) if (v.type() != carl::VariableType::VT_UNINTERPRETED && v.type() != carl::VariableType::VT_BITVECTOR) arith.insert(v);
	for (auto v : got) if (v.type() != carl::VariableType::VT_UNINTERPRETED && v.type() != carl::VariableType::VT_BITVECTOR) garith.insert(v); else VF_CHECK(vars.count(v), "props:variables", d << " has " << v);
	VF_CHECK(garith == arith, "props:variables", d);
	{ carl::carlVariables cv; f.gatherVariables(cv); std::set<carl::Variable> s; for (auto v : cv) s.insert(v); VF_CHECK(s == got, "props:gather", d); }
	{ std::set<carl::UVariable> s; f.gatherUVariables(s); VF_CHECK(s == uv, "props:uvariables", d); }
	{ std::set<carl::BVVariable> s; f.gatherBVVariables(s); VF_CHECK(s == bv, "props:bvvariables", d); }
	{ std::vector<Con> s; if (!quant) { f.getConstraints(s); std::sort(s.begin(), s.end()); std::sort(cons.begin(), cons.end()); VF_CHECK(s == cons, "props:constraints", d); std::vector<F> sf; f.getConstraints(sf); VF_CHECK(sf.size() == cons.size(), "props:constraint-formulas", d); } }
	VF_CHECK(f.complexity() == compl_, "props:complexity", d << " " << f.complexity() << " expected " << compl_);
	// structure accessors
	auto ch = children(f);
	VF_CHECK(f.size() == (f.isNary() ? ch.size() : 1), "props:size", d);
	VF_CHECK(!f.empty(), "props:empty", d);
	if (f.isNary()) { std::vector<F> a, b; for (auto it = f.begin(); it != f.end(); ++it) a.push_back(*it); for (auto it = f.rbegin(); it != f.rend(); ++it) b.push_back(*it); std::reverse(b.begin(), b.end()); VF_CHECK(a == ch && b == ch && f.back() == ch.back(), "props:iterate", d); }
	VF_CHECK(f.contains(f), "props:contains-self", d);
	if (!quant) for (auto& c : ch) VF_CHECK(f.contains(c), "props:contains", d << " in " << c);
	VF_CHECK(!atom(f.removeNegations()) || literal(f), "props:remove-negations", d);
	if (quant) return;
	VF_CHECK(has(carl::PROP_CONTAINS_BOOLEAN) == (nbool > 0), "props:boolean", d);
	VF_CHECK(has(carl::PROP_CONTAINS_UNINTERPRETED_EQUATIONS) == (nueq > 0), "props:ueq", d);
	VF_CHECK(has(carl::PROP_CONTAINS_BITVECTOR) == (nbv > 0), "props:bv", d);
	VF_CHECK(has(carl::PROP_CONTAINS_INTEGER_VALUED_VARS) == (ints > 0), "props:int", d);
	VF_CHECK(has(carl::PROP_CONTAINS_REAL_VALUED_VARS) == (reals > 0), "props:real", d);
	VF_CHECK(has(carl::PROP_CONTAINS_EQUATION) == (eq > 0), "props:equation", d);
	VF_CHECK(has(carl::PROP_CONTAINS_INEQUALITY) == (ineq > 0), "props:inequality", d);
	VF_CHECK(has(carl::PROP_CONTAINS_STRICT_INEQUALITY) == (strict > 0), "props:strict", d);
	VF_CHECK(has(carl::PROP_CONTAINS_WEAK_INEQUALITY) == (weak > 0), "props:weak", d);
	VF_CHECK(has(carl::PROP_CONTAINS_LINEAR_POLYNOMIAL) == (lin > 0), "props:linear", d);
	VF_CHECK(has(carl::PROP_CONTAINS_NONLINEAR_POLYNOMIAL) == (nonlin > 0), "props:nonlinear", d);
	VF_CHECK(f.isOnlyPropositional() == (nueq + nbv + ints + reals == 0), "props:propositional", d);
	VF_CHECK(f.isLiteral() == literal(f), "props:literal", d);
	VF_CHECK(has(carl::PROP_IS_AN_ATOM) == atom(f), "props:atom-flag", d);
	VF_CHECK(has(carl::PROP_IS_A_CLAUSE) == clause(f), "props:clause", d);
	VF_CHECK(has(carl::PROP_IS_IN_CNF) == cnf(f), "props:cnf", d);
	bool pure = atom(f), lits = literal(f);
	if (f.getType() == FT::AND) { pure = lits = true; for (auto& c : ch) { pure &= atom(c); lits &= literal(c); } }
	VF_CHECK(has(carl::PROP_IS_PURE_CONJUNCTION) == pure, "props:pure", d);
	VF_CHECK(has(carl::PROP_IS_LITERAL_CONJUNCTION) == lits, "props:literals", d);
	VF_CHECK(f.isConstraintConjunction() == (pure && nbool == 0), "props:constraint-conjunction", d);
	VF_CHECK(f.isRealConstraintConjunction() == (pure && nbool == 0 && ints == 0), "props:real-conjunction", d);
	VF_CHECK(f.isIntegerConstraintConjunction() == (pure && nbool == 0 && reals == 0), "props:integer-conjunction", d);
	if (has(carl::PROP_IS_IN_NNF)) VF_CHECK(badnot == 0, "props:nnf", d);
}
static void build_case(vf::Rng& r) {
	Opt o; o.theory = r.chance(3, 4); o.quant = r.chance(1, 6);
	Gen g(r, o);
	Ref n = g.tree(1 + static_cast<unsigned>(r.below(4)));
	std::string d = str(n);
	vf::note(d); vf::observe(d);
	F f = build(n, r);
	d += " built " + vf::str(f);
	vf::op("build formula");
	std::vector<Env> envs;
	for (int i = 0; i < 16; ++i) envs.push_back(gen_env(r));
	F nf = !f;
	for (auto& e : envs) {
		bool want = eval(n, e);
		VF_CHECK(val(f, e) == want, "build", d << " at " << estr(e) << " expected " << want);
		VF_CHECK(val(nf, e) == !want, "negation", d << " negated " << nf << " at " << estr(e));
	}
	VF_CHECK(nf != f && nf.negated() == f && !nf == f && F(FT::NOT, f) == nf, "negation:involution", d);
	props(f, d);
	props(nf, d + " negated " + vf::str(nf));
	// the same combination again, with other routes and operand orders
	all_routes() = false;
	F once = build(n, r), again = build(n, r);
	all_routes() = true;
	VF_CHECK(again == once && again.getId() == once.getId() && again.getHash() == once.getHash() && std::hash<F>()(again) == std::hash<F>()(once), "sharing", d << " again " << again);
	VF_CHECK(!(again < once) && !(once < again) && again <= once && again >= once && !(again != once), "order:equal", d);
	VF_CHECK((f < nf) != (nf < f) && (f < nf) == (nf > f) && (f <= nf) == (nf >= f) && (f <= nf) == !(nf < f), "order", d);
	// copies, moves, assignments
	F c1(f), c2(std::move(c1)); c1 = c2; F c3; c3 = c2; c3 = std::move(c2);
	c3 = *&c3;
	VF_CHECK(c1 == f && c3 == f, "copies", d);
}
/// histories: a growing and shrinking set of formulas built from one another
static void history_case(vf::Rng& r) {
	Gen g(r, Opt{true, false, 0});
	struct E { F f; Ref n; };
	std::vector<E> pool;
	std::string log;
	std::vector<Env> envs; for (int i = 0; i < 6; ++i) envs.push_back(gen_env(r));
	size_t steps = 10 + r.below(40);
	for (size_t s = 0; s < steps; ++s) {
		switch (pool.size() < 2 ? 0 : r.below(6)) {
		case 0: case 1: { Ref n = g.tree(static_cast<unsigned>(r.below(3))); log += " +" + str(n); vf::note(log); pool.push_back({build(n, r), n}); break; }
		case 2: { auto n = std::make_shared<Node>(); static const K ks[] = {K::AND, K::OR, K::XOR, K::IFF, K::IMPLIES}; n->k = ks[r.below(5)];
			std::vector<F> c; size_t m = 2 + r.below(3); for (size_t i = 0; i < m; ++i) { auto& e = r.pick(pool); c.push_back(e.f); n->c.push_back(e.n); }
			static const FT ts[] = {FT::AND, FT::OR, FT::XOR, FT::IFF, FT::IMPLIES}; FT t = FT::AND; for (size_t i = 0; i < 5; ++i) if (ks[i] == n->k) t = ts[i];
			log += " comb" + std::to_string(static_cast<int>(n->k)); vf::note(log);
			if (str(n).size() < 4000) pool.push_back({nary(t, c, r), n}); break; }
		case 3: { auto& e = r.pick(pool); auto n = std::make_shared<Node>(); n->k = K::NOT; n->c = {e.n}; pool.push_back({!e.f, n}); break; }
		default: { size_t i = r.below(pool.size()); log += " -"; pool.erase(pool.begin() + static_cast<long>(i)); }
		}
		if (!pool.empty()) { auto& e = r.pick(pool); for (auto& v : envs) VF_CHECK(val(e.f, v) == eval(e.n, v), "history", str(e.n) << " built " << e.f << " at " << estr(v)); }
	}
	vf::observe(log); vf::op("formula history");
	for (auto& a : pool) for (auto& b : pool) {
		VF_CHECK((a.f == b.f) == (a.f.getId() == b.f.getId()), "identity", a.f << " / " << b.f);
		if (vf::str(a.f) == vf::str(b.f) && a.n->k != K::BV) VF_CHECK(a.f == b.f, "sharing:text", a.f << " / " << b.f);
		if (a.f == b.f) for (auto& v : envs) VF_CHECK(eval(a.n, v) == eval(b.n, v), "identity:value", str(a.n) << " / " << str(b.n) << " both " << a.f);
	}
}
int main(int argc, char** argv) {
	V(); B(); U(); W();
	vf::add_group("build", 24000, 90000, build_case);
	vf::add_group("history", 5000, 20000, history_case);
	return vf::run(argc, argv);
}
