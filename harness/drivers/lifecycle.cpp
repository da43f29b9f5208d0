// C24: copies, moves, self-assignments, swaps and containers of every value type of the
// library, under the address sanitizer; a copy must not share state with its source and
// an object that was moved from must stay usable.
#include "polyutil.h"
#include <carl/core/MonomialPool.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/core/Variables.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/formula/Constraint.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/groebner/groebner.h>
#include <carl/groebner/GBProcedure.h>
#include <carl/interval/Interval.h>
#include <carl/numbers/GFNumber.h>
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/carlTree.h>
#include <carl-covering/carl-covering.h>

using namespace pu;
using vf::Rng;

namespace {

/// values of one type; show() must determine the value
template<typename T>
struct Pool {
	std::string name;
	std::function<T(Rng&)> gen;
	std::function<std::string(const T&)> show;
	std::function<void(T&, Rng&)> mutate; // optional
	bool swaps = true;
};

template<typename T>
void life(const Pool<T>& p, Rng& r) {
	std::vector<T> xs;
	std::vector<std::string> ms;
	std::string log = p.name + ": ";
	xs.reserve(r.coin() ? 1 : 16);
	for (long i = 0, n = r.range(2, 4); i < n; ++i) { xs.push_back(p.gen(r)); ms.push_back(p.show(xs.back())); log += ms.back().substr(0, 80) + " | "; }
	auto agree = [&](const char* how) {
		for (std::size_t i = 0; i < xs.size(); ++i)
			if (!VF_CHECK(p.show(xs[i]) == ms[i], "life." + p.name + ":" + how, log << ": object " << i << " is " << p.show(xs[i]) << " expected " << ms[i])) return false;
		return true;
	};
	for (long s = 0, n = r.range(6, 24); s < n; ++s) {
		std::size_t i = r.below(xs.size()), j = r.below(xs.size());
		std::string what;
		switch (r.below(12)) {
			case 0: what = "copy"; { T c(xs[i]); xs.push_back(c); ms.push_back(ms[i]); } break;
			case 1: what = "assign"; xs[i] = xs[j]; ms[i] = ms[j]; break;
			case 2: what = "self-assign"; { T& a = xs[i]; const T& b = xs[i]; a = b; } break;
			case 3: { // moved-from objects may be assigned to and destroyed
				what = "move";
				T c(std::move(xs[i]));
				VF_CHECK(p.show(c) == ms[i], "life." + p.name + ":move", log << ": moved object is " << p.show(c) << " expected " << ms[i]);
				if (r.coin()) xs[i] = c; else xs[i] = std::move(c);
				break;
			}
			case 4: { what = "move-assign"; if (i == j) break; xs[i] = std::move(xs[j]); ms[i] = ms[j]; xs[j] = p.gen(r); ms[j] = p.show(xs[j]); break; }
			case 5: what = "swap"; if (p.swaps && i != j) { using std::swap; swap(xs[i], xs[j]); std::swap(ms[i], ms[j]); } break;
			case 6: what = "erase"; if (xs.size() > 2) { xs.erase(xs.begin() + static_cast<long>(i)); ms.erase(ms.begin() + static_cast<long>(i)); } break;
			case 7: what = "insert"; { T c = p.gen(r); ms.insert(ms.begin() + static_cast<long>(i), p.show(c)); xs.insert(xs.begin() + static_cast<long>(i), std::move(c)); } break;
			case 8: what = "heap-copy"; { auto* h = new T(xs[i]); T c(*h); delete h; VF_CHECK(p.show(c) == ms[i], "life." + p.name + ":copy-outlives", log << p.show(c) << " expected " << ms[i]); } break;
			case 9: what = "reallocate"; xs.shrink_to_fit(); xs.reserve(xs.size() * 2); break;
			case 10: what = "throw"; try { T c(xs[i]); throw c; } catch (const T& c) { VF_CHECK(p.show(c) == ms[i], "life." + p.name + ":throw", log << p.show(c)); } break;
			default: what = "mutate"; if (p.mutate) { p.mutate(xs[i], r); ms[i] = p.show(xs[i]); }
		}
		vf::op(what);
		log += what + std::to_string(i) + "," + std::to_string(j) + "; ";
		vf::note(log);
		if (!agree(what.c_str())) return;
	}
	vf::op("type." + p.name);
	vf::observe(log);
}

// ---------------------------------------------------------------- the types

std::string s(const MP& p) { return rpoly(p).str(); }
template<typename T> std::string pr(const T& t) { return vf::str(t); }
MP gp(Rng& r) { return build(gen_poly(r, 5, 3, 4), r); }
UP gu(Rng& r) { std::vector<Q> c; for (long i = r.range(0, 5); i >= 0; --i) c.push_back(vf::gen_q(r)); return UP(V()[r.below(3)], c); }
UMP gum(Rng& r) { MP p; do p = gp(r); while (p.isZero()); return carl::to_univariate_polynomial(p, V()[r.below(3)]); }

void g_poly(Rng& r) {
	life<MP>({"polynomial", gp, s, [](MP& p, Rng& r) { MP q = gp(r); switch (r.below(5)) { case 0: p += q; break; case 1: p -= p; break; case 2: p *= q; break; case 3: p.makeOrdered(); break; default: p = p + p; } }}, r);
	life<UP>({"univariate", gu, pr<UP>, [](UP& p, Rng& r) { if (r.coin()) p *= Q(3); else p -= p; }}, r);
	life<UMP>({"univariate-multi", gum, pr<UMP>, [](UMP& p, Rng& r) { if (r.coin()) p *= MP(Q(3)); else p += UMP(p); }}, r);
	life<TQ>({"term", [](Rng& r) { return TQ(gen_c(r), mono(gen_mono(r))); }, pr<TQ>, [](TQ& t, Rng& r) { t *= TQ(gen_c(r), mono(gen_mono(r))); if (r.chance(1, 6)) t = TQ(Q(0)); }}, r);
	life<MA>({"monomial", [](Rng& r) { ref::Mono m; do m = gen_mono(r); while (ref::mdeg(m) == 0); return mono(m); }, pr<MA>, [](MA& m, Rng& r) { if (m && m->tdeg() < 40) m = m * V()[r.below(ref::NV)]; }}, r);
}

using CM = carl::Constraint<MP>;
void g_constraint(Rng& r) {
	static const carl::Relation rel[] = {carl::Relation::EQ, carl::Relation::NEQ, carl::Relation::LESS, carl::Relation::GREATER, carl::Relation::LEQ, carl::Relation::GEQ};
	auto gen = [](Rng& r) { return CM(gp(r), rel[r.below(6)]); };
	life<CM>({"constraint", gen, pr<CM>, [](CM& c, Rng& r) {
		switch (r.below(4)) { case 0: c = CM(c.lhs(), rel[r.below(6)]); break; case 1: c = c.negation(); break; case 2: (void)c.variables(); (void)c.isConsistent(); break; default: if (c.hasVariable(V()[0])) (void)c.varInfo(V()[0], true); }
	}}, r);
	life<carl::carlVariables>({"variables", [](Rng& r) { carl::carlVariables v; for (long i = r.range(0, 4); i > 0; --i) v.add(V()[r.below(ref::NV)]); return v; },
		[](const carl::carlVariables& v) { std::string o; for (auto x : v) o += x.name() + ","; return o; }, [](carl::carlVariables& v, Rng& r) { if (r.coin()) v.add(V()[r.below(ref::NV)]); else v.erase(V()[r.below(ref::NV)]); }}, r);
}

template<typename N> void ival(const char* name, Rng& r) {
	using I = carl::Interval<N>;
	life<I>({name, [](Rng& r) {
		static const carl::BoundType bt[] = {carl::BoundType::STRICT, carl::BoundType::WEAK, carl::BoundType::INFTY};
		long a = r.range(-9, 9), b = r.range(-9, 9);
		return I(N(std::min(a, b)), bt[r.below(3)], N(std::max(a, b)), bt[r.below(3)]);
	}, pr<I>, [](I& i, Rng& r) { if (r.coin()) i = i + i; else i = I(N(r.range(-3, 3))); }}, r);
}
void g_numbers(Rng& r) {
	ival<Q>("interval-rational", r);
	ival<double>("interval-double", r);
	static std::vector<const carl::GaloisField<Z>*> fields = {new carl::GaloisField<Z>(5), new carl::GaloisField<Z>(7, 2)};
	using G = carl::GFNumber<Z>;
	life<G>({"galois", [](Rng& r) { return G(Z(r.range(-20, 20)), fields[r.below(2)]); }, pr<G>, [](G& g, Rng&) { g *= g; }}, r);
	life<carl::BVValue>({"bvvalue", [](Rng& r) { return carl::BVValue(1 + r.below(200), vf::gen_mpz(r)); }, pr<carl::BVValue>, [](carl::BVValue& v, Rng& r) { v = r.coin() ? v + v : -v; }}, r);
	life<carl::Bitset>({"bitset", [](Rng& r) { carl::Bitset b(r.chance(1, 4)); for (long i = r.range(0, 6); i > 0; --i) b.set(r.below(200)); return b; },
		[](const carl::Bitset& b) { std::string o; for (std::size_t i = 0; i < 700; ++i) o += b.test(i) ? '1' : '0'; return o; },
		[](carl::Bitset& b, Rng& r) { switch (r.below(3)) { case 0: b.set(r.below(600)); break; case 1: b = ~b; break; default: b.reset(r.below(600)); } }}, r);
	life<carl::BitVector>({"bitvector", [](Rng& r) { carl::BitVector b; for (long i = r.range(0, 6); i > 0; --i) b.setBit(static_cast<unsigned>(r.below(200)), true); return b; },
		[](const carl::BitVector& b) { std::string o; for (unsigned i = 0; i < 700; ++i) o += i < b.size() && b.getBit(i) ? '1' : '0'; return o; },
		[](carl::BitVector& b, Rng& r) { b.setBit(static_cast<unsigned>(r.below(600)), r.coin()); }}, r);
}

using Tree = carl::tree<std::string>;
std::string dump(const Tree& t) { std::string o; for (auto it = t.begin(); it != t.end(); ++it) o += std::to_string(it.depth()) + *it + " "; return o; }
void g_containers(Rng& r) {
	auto gt = [](Rng& r) {
		Tree t;
		std::vector<Tree::iterator> n;
		n.push_back(t.setRoot("root" + std::to_string(r.below(100))));
		for (long i = r.range(0, 8); i > 0; --i) n.push_back(Tree::iterator(t.append(n[r.below(n.size())], std::string(r.below(40), 'x') + std::to_string(i))));
		return t;
	};
	life<Tree>({"tree", gt, dump, [](Tree& t, Rng& r) {
		if (r.chance(1, 5)) { t.clear(); return; }
		if (t.begin() == t.end()) { t.setRoot("again"); return; }
		auto it = t.begin();
		for (long k = r.range(0, 5); k > 0; --k) { auto nx = it; ++nx; if (nx == t.end()) break; it = nx; }
		if (r.coin()) t.append(it, "leaf"); else if (it != t.begin()) t.erase(it);
	}}, r);
	using SC = carl::covering::SetCover;
	life<SC>({"set-cover", [](Rng& r) { SC c; for (long i = r.range(0, 10); i > 0; --i) c.set(r.below(6), r.below(80)); return c; }, pr<SC>, [](SC& c, Rng& r) { if (r.coin() || c.set_count() == 0) c.set(r.below(9), r.below(150)); else c.select_set(r.below(c.set_count())); }}, r);
}

void g_groebner(Rng& r) {
	using GB = carl::GBProcedure<MP, carl::Buchberger, carl::StdAdding>;
	auto gen = [](Rng& r) { GB g; for (long i = r.range(1, 2); i > 0; --i) { MP p = build(gen_poly(r, 3, 2, 2), r); if (!p.isZero()) g.addPolynomial(p); } if (r.coin()) { g.reduceInput(); g.calculate(); } return g; };
	auto show = [](const GB& g) { std::string o = g.inputEmpty() ? "-" : "+"; for (auto& p : g.getBasisPolynomials()) o += s(p) + ","; return o; };
	life<GB>({"groebner", gen, show, [](GB& g, Rng& r) { if (r.coin()) { g.reduceInput(); g.calculate(); } else g.addPolynomial(build(gen_poly(r, 2, 2, 2), r)); }}, r);
	using ID = carl::Ideal<MP>;
	std::vector<ID*> ids;
	std::vector<std::string> want;
	auto sh = [](const ID& i) { std::string o; for (auto& g : i.getGenerators()) o += s(g) + ","; return o; };
	std::string log;
	for (long k = r.range(3, 10); k > 0; --k) {
		if (ids.empty() || r.chance(1, 3)) { ids.push_back(new ID()); want.push_back(""); log += "new "; }
		std::size_t i = r.below(ids.size());
		switch (r.below(4)) {
			case 0: { MP p = gp(r); if (!p.isZero()) { p.makeOrdered(); ids[i]->addGenerator(p); } want[i] = sh(*ids[i]); log += "add "; break; }
			case 1: ids.push_back(new ID(*ids[i])); want.push_back(want[i]); log += "copy "; break;
			case 2: delete ids[i]; ids.erase(ids.begin() + static_cast<long>(i)); want.erase(want.begin() + static_cast<long>(i)); log += "delete "; break;
			default: { MP p = gp(r); if (!p.isZero()) { p.makeOrdered(); (void)ids[i]->getDivisor(p.lterm()); } log += "divisor "; }
		}
		vf::note(log);
		for (std::size_t q = 0; q < ids.size(); ++q) if (!VF_CHECK(sh(*ids[q]) == want[q], "life.ideal", log << sh(*ids[q]) << " expected " << want[q])) break;
	}
	for (auto* p : ids) delete p;
	vf::op("type.ideal");
	vf::observe(log + std::to_string(r.next()));
}

carl::Sort bvs(std::size_t w) {
	static carl::Sort base = [] {
		auto& sm = carl::SortManager::getInstance();
		carl::Sort b = sm.addSort("BitVec", carl::VariableType::VT_BITVECTOR);
		sm.makeSortIndexable(b, 1, carl::VariableType::VT_BITVECTOR);
		return b;
	}();
	return carl::SortManager::getInstance().index(base, {w});
}
void g_terms(Rng& r) {
	using carl::BVTerm;
	using carl::BVTermType;
	static carl::BVVariable bv(carl::freshBitvectorVariable("bx"), bvs(8));
	auto gen = [](Rng& r) { BVTerm v(BVTermType::VARIABLE, bv), c(BVTermType::CONSTANT, carl::BVValue(8, Z(r.range(0, 255)))); return BVTerm(r.coin() ? BVTermType::ADD : BVTermType::AND, r.coin() ? v : BVTerm(BVTermType::NOT, v), c); };
	life<BVTerm>({"bvterm", gen, pr<BVTerm>, [](BVTerm& t, Rng& r) { t = BVTerm(BVTermType::NOT, t); if (r.chance(1, 3)) t = BVTerm(); }}, r);
	life<carl::BVConstraint>({"bvconstraint", [&](Rng& r) { return carl::BVConstraint::create(r.coin() ? carl::BVCompareRelation::ULT : carl::BVCompareRelation::EQ, gen(r), gen(r)); }, pr<carl::BVConstraint>, {}}, r);
	static carl::Sort us = carl::SortManager::getInstance().addSort("U", carl::VariableType::VT_UNINTERPRETED);
	static carl::UninterpretedFunction uf = carl::newUninterpretedFunction("f", {us}, us);
	static std::vector<carl::UVariable> uv = {carl::UVariable(carl::freshVariable("ua", carl::VariableType::VT_UNINTERPRETED), us), carl::UVariable(carl::freshVariable("ub", carl::VariableType::VT_UNINTERPRETED), us)};
	auto ut = [](Rng& r) { carl::UTerm t(uv[r.below(2)]); for (long i = r.range(0, 3); i > 0; --i) t = carl::UTerm(carl::newUFInstance(uf, std::vector<carl::UTerm>{t})); return t; };
	life<carl::UTerm>({"uterm", ut, pr<carl::UTerm>, {}}, r);
	life<carl::UEquality>({"uequality", [&](Rng& r) { return carl::UEquality(ut(r), ut(r), r.coin()); }, pr<carl::UEquality>, [](carl::UEquality& e, Rng&) { e = e.negation(); }}, r);
	life<carl::UninterpretedFunction>({"function", [](Rng&) { return uf; }, pr<carl::UninterpretedFunction>, {}}, r);
	life<carl::Sort>({"sort", [](Rng& r) { return r.coin() ? us : bvs(1 + r.below(8)); }, pr<carl::Sort>, {}}, r);
}

} // namespace

int main(int argc, char** argv) {
	V();
	bvs(8);
	vf::add_group("poly", 1600, 20000, g_poly);
	vf::add_group("constraint", 1600, 20000, g_constraint);
	vf::add_group("numbers", 1600, 20000, g_numbers);
	vf::add_group("containers", 1600, 20000, g_containers);
	vf::add_group("groebner", 1200, 15000, g_groebner);
	vf::add_group("terms", 1200, 15000, g_terms);
	return vf::run(argc, argv);
}
