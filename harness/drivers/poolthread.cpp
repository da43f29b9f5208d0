// C33: constraints, bit-vector terms, variables, identifiers and primes of a thread-safe
// build used from several threads.
#include <polyutil.h>
#include <threads.h>
#include <carl/formula/Constraint.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/numbers/PrimeFactory.h>
#include <carl/util/IDGenerator.h>
#include <carl/util/IDPool.h>

using namespace pu;
using vf::Rng;
using C = carl::Constraint<MP>;
using carl::Relation;
namespace {
const std::vector<Relation> RELS = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};

template<typename W> std::vector<W> workers(Rng& r) {
	std::vector<W> ws;
	for (long i = 0, n = r.range(2, 4); i < n; ++i) ws.emplace_back(r.next());
	return ws;
}

// ---------------------------------------------------------------- constraints

struct CW : th::Log {
	std::vector<std::pair<C, std::size_t>> cs;
	explicit CW(uint64_t s) : th::Log(s) {}
};
struct Want { ref::Poly in; Relation rel; ref::Poly lhs; Relation nrel; unsigned cons; };

std::size_t real(std::size_t j) {
	for (std::size_t i = 0; i < ref::NV; ++i) if (V()[i].type() == carl::VariableType::VT_REAL && j-- == 0) return i;
	return 0;
}
void g_constraints(Rng& r) {
	auto ws = workers<CW>(r);
	// what each constraint looks like in one thread; none of them stays alive
	std::vector<Want> hot;
	for (long i = 0, n = r.range(1, 5); i < n; ++i) {
		Want w;
		do {
			ref::Poly p = gen_poly_nz(r, 4, 2, 3);
			w.in = ref::Poly();
			for (auto& t : p.t) { ref::Mono m = ref::mone(); for (std::size_t j = 0; j < 3; ++j) m[real(j)] = t.first[j]; w.in.add(m, t.second); }
		} while (w.in.constant());
		w.rel = r.pick(RELS);
		C c(build(w.in, r), w.rel);
		w.lhs = rpoly(c.lhs());
		w.nrel = c.relation();
		w.cons = c.isConsistent();
		hot.push_back(w);
	}
	// the normal form may depend on the constraints alive; such sets are left out
	for (int rev = 0; rev < 2; ++rev) {
		std::vector<C> alive;
		for (std::size_t i = 0; i < hot.size(); ++i) {
			const Want& w = hot[rev ? hot.size() - 1 - i : i];
			alive.emplace_back(build(w.in, r), w.rel);
			if (rpoly(alive.back().lhs()) != w.lhs || alive.back().relation() != w.nrel) return;
		}
	}
	std::string what = "constraints by " + std::to_string(ws.size()) + " threads:";
	for (auto& w : hot) what += " " + w.in.str() + " " + carl::toString(w.rel) + " 0,";
	vf::note(what);
	std::size_t keep = r.below(3);
	bool share = r.coin();
	std::vector<C> shared;
	if (share) for (auto& w : hot) shared.emplace_back(build(w.in, r), w.rel);
	long ops = r.range(6, 25);
	for (int k = 0; k < 2; ++k) {
		th::round(ws, [&](std::size_t, CW& w) {
			for (long i = 0; i < ops; ++i) {
				std::size_t h = w.r.below(hot.size());
				const Want& x = hot[h];
				w.op("create constraint");
				C c(build(x.in, w.r), x.rel);
				TH_CHECK(w, rpoly(c.lhs()) == x.lhs && c.relation() == x.nrel && c.isConsistent() == x.cons, "cthread.content", x.in.str() << " " << x.rel << " became " << c << ", in one thread " << x.lhs.str() << " " << x.nrel);
				if (share) TH_CHECK(w, c == shared[h] && c.id() == shared[h].id(), "cthread.shared", c << " is not the shared object");
				if (w.r.coin()) {
					w.op("create again");
					C d(build(x.in, w.r), x.rel);
					TH_CHECK(w, c == d && c.id() == d.id() && c.getHash() == d.getHash(), "cthread.twice", "two objects for " << c);
				}
				switch (w.r.below(4)) {
					case 0: {
						w.op("degrees");
						std::size_t v = real(w.r.below(3));
						TH_CHECK(w, c.maxDegree(V()[v]) == x.lhs.deg(v), "cthread.degree", c << " degree " << c.maxDegree(V()[v]));
						TH_CHECK(w, c.hasVariable(V()[v]) == x.lhs.has(v), "cthread.has", c);
						break;
					}
					case 1: {
						w.op("coefficient");
						std::size_t v = real(w.r.below(3));
						if (x.lhs.has(v)) TH_CHECK(w, rpoly(c.coefficient(V()[v], x.lhs.deg(v))) == x.lhs.coeff_in(v, x.lhs.deg(v)), "cthread.coefficient", c);
						break;
					}
					case 2: {
						w.op("factors");
						ref::Poly p(1);
						for (auto& f : c.factorization()) p = p * ref::ppow(rpoly(f.first), static_cast<unsigned>(f.second));
						TH_CHECK(w, p == x.lhs || c.isConsistent() != 2, "cthread.factors", c);
						break;
					}
					default: {
						w.op("satisfied");
						std::map<carl::Variable, Q> m;
						std::vector<Q> pt(ref::NV, Q(0));
						for (std::size_t v = 0; v < ref::NV; ++v) m[V()[v]] = pt[v] = Q(w.r.range(-2, 2));
						int s = sgn(x.lhs.eval(pt));
						bool holds = x.nrel == Relation::EQ ? s == 0 : x.nrel == Relation::NEQ ? s != 0 : x.nrel == Relation::LESS ? s < 0 : x.nrel == Relation::LEQ ? s <= 0 : x.nrel == Relation::GREATER ? s > 0 : s >= 0;
						TH_CHECK(w, c.satisfiedBy(m) == (holds ? 1u : 0u), "cthread.satisfied", c << " gave " << c.satisfiedBy(m));
					}
				}
				if (w.cs.size() < keep) w.cs.emplace_back(c, h);
				else if (!w.cs.empty() && w.r.coin()) w.cs.pop_back();
			}
		});
		// equal exactly when the normal forms agree
		std::vector<std::pair<C, std::size_t>> all;
		for (auto& w : ws) all.insert(all.end(), w.cs.begin(), w.cs.end());
		for (auto& a : all) for (auto& b : all) {
			bool same = hot[a.second].lhs == hot[b.second].lhs && hot[a.second].nrel == hot[b.second].nrel;
			VF_CHECK((a.first == b.first) == same && (a.first.id() == b.first.id()) == same, "cthread.unique", what << " " << a.first << " and " << b.first);
		}
	}
	th::round(ws, [](std::size_t, CW& w) { while (!w.cs.empty()) { w.op("release"); w.cs.pop_back(); } });
	th::report(ws, what);
}

// ---------------------------------------------------------------- bit-vectors

using carl::BVTerm;
using BT = carl::BVTermType;
const std::vector<carl::BVVariable>& BV() {
	static std::vector<carl::BVVariable> v = [] {
		auto& sm = carl::SortManager::getInstance();
		sm.clear();
		carl::Sort s = sm.addSort("BitVec", carl::VariableType::VT_BITVECTOR);
		sm.makeSortIndexable(s, 1, carl::VariableType::VT_BITVECTOR);
		carl::Sort s4 = sm.index(s, {4});
		std::vector<carl::BVVariable> r;
		for (int i = 0; i < 3; ++i) r.emplace_back(carl::freshBitvectorVariable("bv" + std::to_string(i)), s4);
		return r;
	}();
	return v;
}
struct Tm { BVTerm t; std::string key; std::vector<unsigned> val; };
struct BW : th::Log {
	std::vector<Tm> ts;
	std::vector<std::pair<carl::BVConstraint, std::string>> cs;
	explicit BW(uint64_t s) : th::Log(s) {}
};
/// values for all 16 settings of (v0, v1) = (a, 15 - a), v2 = 3 * a
Tm leaf(Rng& r) {
	Tm x;
	if (r.coin()) {
		std::size_t i = r.below(3);
		x.t = BVTerm(BT::VARIABLE, BV()[i]);
		x.key = "v" + std::to_string(i);
		for (unsigned a = 0; a < 16; ++a) x.val.push_back(i == 0 ? a : i == 1 ? 15 - a : (3 * a) & 15);
	} else {
		unsigned c = static_cast<unsigned>(r.below(16));
		x.t = BVTerm(BT::CONSTANT, carl::BVValue(4, c));
		x.key = std::to_string(c);
		x.val.assign(16, c);
	}
	return x;
}
Tm binary(Rng& r, const Tm& a, const Tm& b) {
	static const std::vector<BT> ty = {BT::AND, BT::OR, BT::XOR, BT::ADD, BT::MUL, BT::SUB};
	BT t = r.pick(ty);
	Tm x;
	x.t = BVTerm(t, a.t, b.t);
	for (unsigned i = 0; i < 16; ++i) {
		unsigned p = a.val[i], q = b.val[i];
		x.val.push_back((t == BT::AND ? (p & q) : t == BT::OR ? (p | q) : t == BT::XOR ? (p ^ q) : t == BT::ADD ? p + q : t == BT::MUL ? p * q : p - q) & 15);
	}
	bool con = a.t.isConstant() && b.t.isConstant();
	x.key = con ? std::to_string(x.val[0]) : "(" + a.key + " " + std::to_string(static_cast<unsigned>(t)) + " " + b.key + ")";
	return x;
}
void g_bitvectors(Rng& r) {
	auto ws = workers<BW>(r);
	std::string what = "bit-vector terms by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	long ops = r.range(10, 40);
	uint64_t stem = r.next();
	th::round(ws, [&](std::size_t, BW& w) {
		Rng same(stem); // all threads build the same sequence first
		for (long i = 0; i < ops; ++i) {
			Rng& g = i < ops / 2 ? same : w.r;
			w.op("create term");
			Tm x = w.ts.size() < 2 || g.chance(1, 4) ? leaf(g) : binary(g, w.ts[g.below(w.ts.size())], w.ts[g.below(w.ts.size())]);
			if (x.key.size() > 60) continue;
			TH_CHECK(w, x.t.width() == 4, "bvthread.width", x.key);
			unsigned a = static_cast<unsigned>(w.r.below(16));
			w.op("substitute");
			BVTerm c = x.t.substitute({{BV()[0], BVTerm(BT::CONSTANT, carl::BVValue(4, a))}, {BV()[1], BVTerm(BT::CONSTANT, carl::BVValue(4, 15 - a))}, {BV()[2], BVTerm(BT::CONSTANT, carl::BVValue(4, (3 * a) & 15))}});
			TH_CHECK(w, c.isConstant() && c.value() == carl::BVValue(4, x.val[a]), "bvthread.value", x.key << " for " << a << " gave " << c);
			if (w.ts.size() >= 1 && g.chance(1, 3)) {
				w.op("create constraint");
				const Tm& y = w.ts[g.below(w.ts.size())];
				auto k = carl::BVConstraint::create(carl::BVCompareRelation::ULT, x.t, y.t);
				if (!x.t.isConstant() && !y.t.isConstant() && x.key != y.key) w.cs.emplace_back(k, x.key + " < " + y.key);
			}
			w.ts.push_back(std::move(x));
		}
	});
	std::vector<const Tm*> all;
	std::vector<const std::pair<carl::BVConstraint, std::string>*> cs;
	for (auto& w : ws) { for (auto& x : w.ts) all.push_back(&x); for (auto& x : w.cs) cs.push_back(&x); }
	for (auto a : all) for (auto b : all) VF_CHECK((a->t == b->t) == (a->key == b->key), "bvthread.unique", a->key << " and " << b->key);
	for (auto a : cs) for (auto b : cs) VF_CHECK((a->first == b->first) == (a->second == b->second) && (a->first.id() == b->first.id()) == (a->second == b->second), "bvthread.constraint-unique", a->second << " and " << b->second);
	th::report(ws, what);
}

// ---------------------------------------------------------------- variables, identifiers, primes

struct VW : th::Log {
	std::vector<std::pair<carl::Variable, std::string>> vs;
	std::vector<std::size_t> ids;
	explicit VW(uint64_t s) : th::Log(s) {}
};
void g_variables(Rng& r) {
	auto ws = workers<VW>(r);
	std::string what = "variables by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	static const std::vector<carl::VariableType> ty = {carl::VariableType::VT_BOOL, carl::VariableType::VT_REAL, carl::VariableType::VT_INT};
	long ops = r.range(10, 60);
	th::round(ws, [&](std::size_t k, VW& w) {
		for (long i = 0; i < ops; ++i) {
			auto t = w.r.pick(ty);
			if (w.r.coin()) {
				w.op("fresh");
				carl::Variable v = carl::freshVariable(t);
				TH_CHECK(w, v.type() == t, "vthread.type", v.safe_name());
				w.vs.emplace_back(v, "");
			} else {
				w.op("fresh named");
				std::string n = "t" + std::to_string(k) + "_" + std::to_string(i);
				carl::Variable v = carl::freshVariable(n, t);
				w.vs.emplace_back(v, n);
			}
			auto& x = w.vs[w.r.below(w.vs.size())];
			w.op("name");
			TH_CHECK(w, x.second.empty() || x.first.name() == x.second, "vthread.name", x.first.name() << " expected " << x.second);
			if (w.r.chance(1, 5)) { w.op("rename"); x.second = "r" + std::to_string(k) + "_" + std::to_string(i); carl::VariablePool::getInstance().setName(x.first, x.second); }
		}
	});
	std::set<carl::Variable> seen;
	for (auto& w : ws) for (auto& x : w.vs) {
		VF_CHECK(seen.insert(x.first).second, "vthread.distinct", x.first.safe_name() << " was handed out twice");
		VF_CHECK(x.second.empty() || x.first.name() == x.second, "vthread.name", x.first.name() << " expected " << x.second);
	}
	th::report(ws, what);
}
template<typename G>
void identifiers(Rng& r, const std::string& kind) {
	auto ws = workers<VW>(r);
	std::string what = kind + " by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	G g;
	long ops = r.range(20, 100);
	for (int k = 0; k < 2; ++k) {
		th::round(ws, [&](std::size_t, VW& w) {
			for (long i = 0; i < ops; ++i) {
				if (w.ids.empty() || w.r.chance(3, 5)) { w.op("get id"); w.ids.push_back(g.get()); }
				else { w.op("free id"); std::swap(w.ids[w.r.below(w.ids.size())], w.ids.back()); g.free(w.ids.back()); w.ids.pop_back(); }
			}
		});
		std::set<std::size_t> seen;
		for (auto& w : ws) for (auto i : w.ids) VF_CHECK(seen.insert(i).second, "idthread." + kind, i << " is in use twice");
	}
	th::report(ws, what);
}
void g_ids(Rng& r) {
	if (r.coin()) identifiers<carl::IDGenerator>(r, "generator");
	else identifiers<carl::IDPool>(r, "pool");
}
template<typename T>
void primes(Rng& r, const std::string& kind) {
	auto ws = workers<VW>(r);
	std::string what = kind + " primes by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	long n = r.range(20, 200);
	th::round(ws, [&](std::size_t, VW& w) {
		carl::PrimeFactory<T> f;
		mpz_class p = 1;
		for (long i = 0; i < n; ++i) {
			w.op("next prime");
			mpz_nextprime(p.get_mpz_t(), p.get_mpz_t());
			T q = f.nextPrime();
			TH_CHECK(w, p == mpz_class(q), "primethread.next", kind << " prime " << i << " is " << q);
			if (w.r.chance(1, 4)) { T s = f[static_cast<std::size_t>(i)]; TH_CHECK(w, p == mpz_class(s), "primethread.index", kind << " prime " << i << " is " << s); }
		}
	});
	th::report(ws, what);
}
void g_primes(Rng& r) {
	if (r.coin()) primes<mpz_class>(r, "mpz");
	else primes<carl::uint>(r, "uint");
}
} // namespace

int main(int argc, char** argv) {
	V();
	BV();
	vf::add_group("constraints", 1600, 25000, g_constraints);
	vf::add_group("bitvectors", 1200, 20000, g_bitvectors);
	vf::add_group("variables", 600, 8000, g_variables);
	vf::add_group("ids", 1200, 20000, g_ids);
	vf::add_group("primes", 200, 2000, g_primes);
	return vf::run(argc, argv);
}
