// Reference formulas: trees over Boolean, arithmetic, uninterpreted and bit-vector atoms, evaluated
// under full assignments. The library's formulas are evaluated by walking their public structure.
#pragma once
#include <polyutil.h>
#include <bvmodel.h>
#include <memory>
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/uninterpreted/UEquality.h>

namespace fm {
using F = carl::Formula<MP>;
using FT = carl::FormulaType;
using Con = carl::Constraint<MP>;
using carl::Relation;
using pu::V;
inline const bool pool_probe = (vf::probe("formulas", [] { return carl::FormulaPool<MP>::getInstance().size(); }), true);
constexpr size_t NB = 5, NU = 4, NW = 3, BW = 3;
inline const std::vector<carl::Variable>& B() {
	static std::vector<carl::Variable> v = [] { std::vector<carl::Variable> r; for (size_t i = 0; i < NB; ++i) r.push_back(carl::freshBooleanVariable("p" + std::to_string(i))); return r; }();
	return v;
}
inline carl::Sort usort() { static carl::Sort s = carl::SortManager::getInstance().addSort("Usort", carl::VariableType::VT_UNINTERPRETED); return s; }
inline const std::vector<carl::UVariable>& U() {
	static std::vector<carl::UVariable> v = [] { std::vector<carl::UVariable> r; for (size_t i = 0; i < NU; ++i) r.emplace_back(carl::freshUninterpretedVariable("u" + std::to_string(i)), usort()); return r; }();
	return v;
}
inline const std::vector<carl::BVVariable>& W() {
	static std::vector<carl::BVVariable> v = [] {
		auto& sm = carl::SortManager::getInstance();
		carl::Sort s = sm.addSort("BitVec", carl::VariableType::VT_BITVECTOR);
		sm.makeSortIndexable(s, 1, carl::VariableType::VT_BITVECTOR);
		std::vector<carl::BVVariable> r;
		for (size_t i = 0; i < NW; ++i) r.emplace_back(carl::freshBitvectorVariable("w" + std::to_string(i)), sm.index(s, {BW}));
		return r;
	}();
	return v;
}
struct Env {
	std::map<carl::Variable, bool> b;
	std::vector<Q> a;
	std::vector<int> u;
	std::vector<unsigned> w;
};
inline Env gen_env(vf::Rng& r) {
	Env e;
	for (auto v : B()) e.b[v] = r.coin();
	e.a.resize(ref::NV);
	for (size_t i = 0; i < ref::NV; ++i) e.a[i] = V()[i].type() == carl::VariableType::VT_INT || r.chance(2, 3) ? Q(r.range(-2, 2)) : vf::gen_q(r, 5, 2);
	for (size_t i = 0; i < NU; ++i) e.u.push_back(static_cast<int>(r.below(3)));
	for (size_t i = 0; i < NW; ++i) e.w.push_back(static_cast<unsigned>(r.below(1 << BW)));
	return e;
}
inline std::string estr(const Env& e) {
	std::ostringstream o;
	for (auto& p : e.b) o << p.first << "=" << p.second << " ";
	for (size_t i = 0; i < e.a.size(); ++i) o << V()[i] << "=" << e.a[i] << " ";
	for (size_t i = 0; i < NU; ++i) o << "u" << i << "=" << e.u[i] << " ";
	for (size_t i = 0; i < NW; ++i) o << "w" << i << "=" << e.w[i] << " ";
	return o.str();
}
inline bool holds(const Q& v, Relation r) {
	int s = sgn(v);
	switch (r) {
	case Relation::EQ: return s == 0;
	case Relation::NEQ: return s != 0;
	case Relation::LESS: return s < 0;
	case Relation::LEQ: return s <= 0;
	case Relation::GREATER: return s > 0;
	case Relation::GEQ: return s >= 0;
	}
	throw std::runtime_error("relation");
}
inline bool bvholds(carl::BVCompareRelation rel, const ref::BV& x, const ref::BV& y) {
	using R = carl::BVCompareRelation;
	switch (rel) {
	case R::EQ: return x.v == y.v;
	case R::NEQ: return x.v != y.v;
	case R::ULT: return x.v < y.v;
	case R::ULE: return x.v <= y.v;
	case R::UGT: return x.v > y.v;
	case R::UGE: return x.v >= y.v;
	case R::SLT: return x.sv() < y.sv();
	case R::SLE: return x.sv() <= y.sv();
	case R::SGT: return x.sv() > y.sv();
	case R::SGE: return x.sv() >= y.sv();
	}
	throw std::runtime_error("bv relation");
}

// ------------------------------------------------------------ reference
enum class K { CONST, BOOL, CON, UEQ, BV, NOT, AND, OR, XOR, IFF, IMPLIES, ITE, EXISTS, FORALL };
struct Node;
using Ref = std::shared_ptr<const Node>;
struct BVSide { int var = -1; unsigned c = 0; };
struct Node {
	K k;
	bool value = false;                 // CONST
	size_t i = 0, j = 0; bool neg = false; // BOOL, UEQ, quantified Boolean
	ref::Poly p; Relation rel = Relation::EQ; // CON
	carl::BVCompareRelation brel = carl::BVCompareRelation::EQ; BVSide l, r;
	std::vector<Ref> c;
};
inline ref::BV side(const BVSide& s, const Env& e) { return ref::BV(BW, s.var < 0 ? s.c : e.w[static_cast<size_t>(s.var)]); }
inline bool eval(const Ref& n, const Env& e) {
	switch (n->k) {
	case K::CONST: return n->value;
	case K::BOOL: return e.b.at(B()[n->i]);
	case K::CON: return holds(n->p.eval(e.a), n->rel);
	case K::UEQ: return (e.u[n->i] == e.u[n->j]) != n->neg;
	case K::BV: return bvholds(n->brel, side(n->l, e), side(n->r, e));
	case K::NOT: return !eval(n->c[0], e);
	case K::AND: for (auto& x : n->c) if (!eval(x, e)) return false; return true;
	case K::OR: for (auto& x : n->c) if (eval(x, e)) return true; return false;
	case K::XOR: { bool v = false; for (auto& x : n->c) v ^= eval(x, e); return v; }
	case K::IFF: { bool v = eval(n->c[0], e); for (auto& x : n->c) if (eval(x, e) != v) return false; return true; }
	case K::IMPLIES: { for (size_t i = 0; i + 1 < n->c.size(); ++i) if (!eval(n->c[i], e)) return true; return eval(n->c.back(), e); }
	case K::ITE: return eval(n->c[0], e) ? eval(n->c[1], e) : eval(n->c[2], e);
	case K::EXISTS: case K::FORALL: {
		Env f = e; f.b[B()[n->i]] = false; bool x = eval(n->c[0], f); f.b[B()[n->i]] = true; bool y = eval(n->c[0], f);
		return n->k == K::EXISTS ? x || y : x && y; }
	}
	throw std::runtime_error("kind");
}
inline std::string str(const Ref& n) {
	std::ostringstream o;
	static const char* names[] = {"", "", "", "", "", "not", "and", "or", "xor", "=", "=>", "ite", "exists", "forall"};
	switch (n->k) {
	case K::CONST: return n->value ? "true" : "false";
	case K::BOOL: return "p" + std::to_string(n->i);
	case K::CON: o << "[" << n->p.str() << " " << n->rel << " 0]"; return o.str();
	case K::UEQ: o << "[u" << n->i << (n->neg ? "!=" : "=") << "u" << n->j << "]"; return o.str();
	case K::BV: { auto s = [&](const BVSide& x) { if (x.var < 0) o << x.c; else o << "w" << x.var; }; o << "["; s(n->l); o << " " << n->brel << " "; s(n->r); o << "]"; return o.str(); }
	default: o << "(" << names[static_cast<int>(n->k)]; if (n->k == K::EXISTS || n->k == K::FORALL) o << " p" << n->i; for (auto& x : n->c) o << " " << str(x); o << ")"; return o.str();
	}
}
struct Opt { bool theory = true, quant = false; int bounds = 0; };
/// a pool of atoms per case so that atoms repeat
struct Gen {
	vf::Rng& r; Opt o; std::vector<Ref> atoms;
	Gen(vf::Rng& r_, Opt o_) : r(r_), o(o_) {
		size_t n = 2 + r.below(4);
		ref::Poly base = ref::Poly::var(r.below(ref::NV)) + (r.coin() ? ref::Poly() : ref::scale(ref::Poly::var(r.below(ref::NV)), Q(r.range(-2, 2))));
		for (size_t i = 0; i < n; ++i) atoms.push_back(atom(base));
	}
	Ref atom(const ref::Poly& base) {
		auto n = std::make_shared<Node>();
		unsigned which = static_cast<unsigned>(r.below(o.theory ? 8 : 2));
		if (o.bounds) which = r.below(8) < static_cast<size_t>(o.bounds) ? 3 : 0;
		switch (which) {
		case 0: case 1: n->k = K::BOOL; n->i = r.below(NB); break;
		case 2: { n->k = K::CON; size_t m = 1 + r.below(2); for (size_t i = 0; i < m; ++i) n->p.add(pu::gen_mono(r, 2), vf::gen_q(r, 3, 2)); n->p = n->p + ref::Poly(Q(r.range(-2, 2))); n->rel = static_cast<Relation>(r.below(6)); break; }
		case 3: case 4: case 5: n->k = K::CON; n->p = ref::scale(base + ref::Poly(Q(r.range(-1, 1))), r.coin() ? Q(1) : r.coin() ? Q(-1) : Q(r.range(1, 3)) * (r.coin() ? Q(1, 2) : Q(-1))); n->rel = static_cast<Relation>(r.below(6)); break;
		case 6: n->k = K::UEQ; n->i = r.below(NU); n->j = r.below(NU); n->neg = r.coin(); break;
		default: n->k = K::BV; n->brel = static_cast<carl::BVCompareRelation>(r.below(10)); n->l.var = static_cast<int>(r.below(NW)); if (r.coin()) n->r.var = static_cast<int>(r.below(NW)); else n->r.c = static_cast<unsigned>(r.below(1 << BW)); break;
		}
		return n;
	}
	Ref tree(unsigned depth) {
		if (depth == 0 || r.chance(1, 5)) {
			if (r.chance(1, 8)) { auto n = std::make_shared<Node>(); n->k = K::CONST; n->value = r.coin(); return n; }
			return r.pick(atoms);
		}
		auto n = std::make_shared<Node>();
		switch (r.below(o.quant ? 9 : 8)) {
		case 0: n->k = K::NOT; n->c = {tree(depth - 1)}; break;
		case 1: n->k = K::AND; break;
		case 2: n->k = K::OR; break;
		case 3: n->k = K::XOR; break;
		case 4: n->k = K::IFF; break;
		case 5: n->k = K::IMPLIES; break;
		case 6: n->k = K::ITE; n->c = {tree(depth - 1), tree(depth - 1), tree(depth - 1)}; break;
		case 7: n->k = r.coin() ? K::AND : K::OR; break;
		default: n->k = r.coin() ? K::EXISTS : K::FORALL; n->i = r.below(NB); n->c = {tree(depth - 1)};
		}
		if (n->c.empty()) {
			size_t m = r.chance(1, 2) ? 2 : 2 + r.below(3);
			for (size_t i = 0; i < m; ++i) n->c.push_back(!n->c.empty() && r.chance(1, 8) ? r.pick(n->c) : tree(depth - 1));
			if (r.chance(1, 8)) { auto neg = std::make_shared<Node>(); neg->k = K::NOT; neg->c = {r.pick(n->c)}; n->c.push_back(neg); }
		}
		return n;
	}
};
inline carl::BVTerm bside(const BVSide& s) {
	if (s.var < 0) return carl::BVTerm(carl::BVTermType::CONSTANT, carl::BVValue(BW, s.c));
	return carl::BVTerm(carl::BVTermType::VARIABLE, W()[static_cast<size_t>(s.var)]);
}
/// Routes that cancel differently are left out when the same object is expected.
inline bool& all_routes() { static bool b = true; return b; }
inline F nary(FT t, std::vector<F> c, vf::Rng& r) {
	bool sym = t == FT::AND || t == FT::OR || t == FT::XOR || t == FT::IFF;
	if (sym) for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
	bool idem = t == FT::AND || t == FT::OR;
	switch (r.below(6)) {
	case 0: if (c.size() == 2 && t != FT::ITE) return F(t, c[0], c[1]); break;
	case 1: if (c.size() == 3) return F(t, c[0], c[1], c[2]); break;
	case 2: if (idem) return F(t, carl::FormulaSet<MP>(c.begin(), c.end())); break;
	case 3: if (t == FT::XOR && all_routes()) return F(t, carl::FormulasMulti<MP>(c.begin(), c.end())); break;
	case 4: return F(t, std::move(c));
	default: break;
	}
	return F(t, c);
}
inline F build(const Ref& n, vf::Rng& r) {
	std::vector<F> c;
	for (auto& x : n->c) c.push_back(build(x, r));
	switch (n->k) {
	case K::CONST: return r.coin() ? F(n->value ? FT::TRUE : FT::FALSE) : F(Con(n->value));
	case K::BOOL: return F(B()[n->i]);
	case K::CON: { MP p = pu::build(n->p, r); return r.coin() ? F(p, n->rel) : F(Con(p, n->rel)); }
	case K::UEQ: if (r.coin()) return F(carl::UTerm(U()[n->i]), carl::UTerm(U()[n->j]), n->neg);
		return F(carl::UEquality(carl::UTerm(U()[n->i]), carl::UTerm(U()[n->j]), n->neg));
	case K::BV: return F(carl::BVConstraint::create(n->brel, bside(n->l), bside(n->r)));
	case K::NOT: switch (r.below(4)) { case 0: return !c[0]; case 1: return c[0].negated(); case 2: return F(FT::NOT, c[0]); default: return F(FT::NOT, F(c[0])); }
	case K::AND: return nary(FT::AND, c, r);
	case K::OR: return nary(FT::OR, c, r);
	case K::XOR: return nary(FT::XOR, c, r);
	case K::IFF: return nary(FT::IFF, c, r);
	case K::IMPLIES: return nary(FT::IMPLIES, c, r);
	case K::ITE: return nary(FT::ITE, c, r);
	case K::EXISTS: return F(FT::EXISTS, std::vector<carl::Variable>{B()[n->i]}, c[0]);
	case K::FORALL: return F(FT::FORALL, std::vector<carl::Variable>{B()[n->i]}, c[0]);
	}
	throw std::runtime_error("kind");
}

// ------------------------------------------------------------ the library's formulas
inline ref::BV bval(const carl::BVTerm& t, const Env& e) {
	if (t.type() == carl::BVTermType::CONSTANT) { ref::BV v(BW, 0); for (size_t i = 0; i < BW; ++i) if (t.value()[i]) v.v += ref::BV::p2(i); return v; }
	if (t.type() == carl::BVTermType::VARIABLE) for (size_t i = 0; i < NW; ++i) if (W()[i] == t.variable()) return ref::BV(BW, e.w[i]);
	throw std::runtime_error("unexpected bit-vector term");
}
inline int uval(const carl::UTerm& t, const Env& e) {
	for (size_t i = 0; i < NU; ++i) if (t.isUVariable() && t.asUVariable() == U()[i]) return e.u[i];
	throw std::runtime_error("unexpected uninterpreted term");
}
inline bool val(const F& f, const Env& e) {
	switch (f.getType()) {
	case FT::TRUE: return true;
	case FT::FALSE: return false;
	case FT::BOOL: return e.b.at(f.boolean());
	case FT::CONSTRAINT: return holds(pu::rpoly(f.constraint().lhs()).eval(e.a), f.constraint().relation());
	case FT::UEQ: return (uval(f.uequality().lhs(), e) == uval(f.uequality().rhs(), e)) != f.uequality().negated();
	case FT::BITVECTOR: if (f.bvConstraint().isAlwaysConsistent()) return true; if (f.bvConstraint().isAlwaysInconsistent()) return false;
		return bvholds(f.bvConstraint().relation(), bval(f.bvConstraint().lhs(), e), bval(f.bvConstraint().rhs(), e));
	case FT::NOT: return !val(f.subformula(), e);
	case FT::AND: for (auto& x : f.subformulas()) if (!val(x, e)) return false; return true;
	case FT::OR: for (auto& x : f.subformulas()) if (val(x, e)) return true; return false;
	case FT::XOR: { bool v = false; for (auto& x : f.subformulas()) v ^= val(x, e); return v; }
	case FT::IFF: { bool v = val(f.subformulas().front(), e); for (auto& x : f.subformulas()) if (val(x, e) != v) return false; return true; }
	case FT::IMPLIES: return !val(f.premise(), e) || val(f.conclusion(), e);
	case FT::ITE: return val(f.condition(), e) ? val(f.firstCase(), e) : val(f.secondCase(), e);
	case FT::EXISTS: case FT::FORALL: {
		bool ex = f.getType() == FT::EXISTS;
		const auto& vs = f.quantifiedVariables();
		for (size_t m = 0; m < (size_t(1) << vs.size()); ++m) {
			Env g = e;
			for (size_t i = 0; i < vs.size(); ++i) g.b[vs[i]] = (m >> i) & 1;
			if (val(f.quantifiedFormula(), g) == ex) return ex;
		}
		return !ex; }
	default: throw std::runtime_error("unexpected formula type");
	}
}
inline std::vector<F> children(const F& f) {
	if (f.getType() == FT::NOT) return {f.subformula()};
	if (f.getType() == FT::EXISTS || f.getType() == FT::FORALL) return {f.quantifiedFormula()};
	if (f.isNary()) return {f.subformulas().begin(), f.subformulas().end()};
	return {};
}
inline void walk(const F& f, const std::function<void(const F&)>& g) { for (auto& c : children(f)) walk(c, g); g(f); }
inline bool atom(const F& f) { switch (f.getType()) { case FT::TRUE: case FT::FALSE: case FT::BOOL: case FT::CONSTRAINT: case FT::UEQ: case FT::BITVECTOR: case FT::VARCOMPARE: case FT::VARASSIGN: return true; default: return false; } }
inline bool literal(const F& f) { return atom(f) || (f.getType() == FT::NOT && atom(f.subformula())); }
inline bool clause(const F& f) { if (literal(f)) return true; if (f.getType() != FT::OR) return false; for (auto& c : f.subformulas()) if (!literal(c)) return false; return true; }
inline bool cnf(const F& f) { if (clause(f)) return true; if (f.getType() != FT::AND) return false; for (auto& c : f.subformulas()) if (!clause(c)) return false; return true; }
}
