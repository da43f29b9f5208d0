// C19: sorts, uninterpreted functions, instances, equalities, variables and
// variable sets against a structural model.
#include "../common/vf.h"
#include "../common/axioms.h"

#include <carl/core/VariablePool.h>
#include <carl/core/Variables.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UTerm.h>
#include <carl/formula/uninterpreted/UVariable.h>

using vf::Rng;
using carl::Sort;
using carl::SortManager;
using VT = carl::VariableType;
using carl::Variable;

namespace {

VT vtype(Rng& r) { static const VT t[] = {VT::VT_BOOL, VT::VT_REAL, VT::VT_INT, VT::VT_UNINTERPRETED, VT::VT_BITVECTOR}; return t[r.below(5)]; }

// ------------------------------------------------------------------ sorts

struct MSort { std::string name; std::vector<int> params; std::vector<std::size_t> idx; VT type; };
struct SortModel {
	std::vector<MSort> sorts;                    // structure
	std::vector<Sort> handle;                    // what the manager returned
	std::map<std::string, std::size_t> decl;
	std::map<std::string, std::pair<std::vector<std::string>, int>> defs;
	std::map<int, std::pair<std::size_t, VT>> indexable;
	std::string log;

	int find(const MSort& m) const { for (std::size_t i = 0; i < sorts.size(); ++i) if (sorts[i].name == m.name && sorts[i].params == m.params && sorts[i].idx == m.idx) return static_cast<int>(i); return -1; }
	std::string print(int i) const {
		const MSort& m = sorts[static_cast<std::size_t>(i)];
		std::string s = m.name;
		if (!m.params.empty()) { for (int p : m.params) s += " " + print(p); s = "(" + s + ")"; }
		if (!m.idx.empty()) { s = "(_ " + s; for (auto x : m.idx) s += " " + std::to_string(x); s += ")"; }
		return s;
	}
	bool free(const std::string& n) const {
		for (auto& s : sorts) if (s.name == n) return false;
		return !decl.count(n) && !defs.count(n);
	}
	/// The manager returned h for the structure m.
	int got(const MSort& m, Sort h, const std::string& how) {
		int k = find(m);
		if (!VF_CHECK(h.id() != 0, "sort." + how + "-lost", log << ": no sort for " << m.name)) return -1;
		if (k >= 0) { VF_CHECK(handle[static_cast<std::size_t>(k)] == h, "sort." + how + "-same", log << ": second handle for " << print(k) << " (" << h << ")"); return k; }
		for (std::size_t i = 0; i < handle.size(); ++i) VF_CHECK(handle[i] != h, "sort." + how + "-distinct", log << ": handle of " << print(static_cast<int>(i)) << " for another sort");
		sorts.push_back(m);
		handle.push_back(h);
		return static_cast<int>(sorts.size()) - 1;
	}
	void check(int i) const {
		auto& sm = SortManager::getInstance();
		const MSort& m = sorts[static_cast<std::size_t>(i)];
		Sort h = handle[static_cast<std::size_t>(i)];
		VF_CHECK(sm.getName(h) == m.name, "sort.name", log << ": " << sm.getName(h) << " expected " << m.name);
		VF_CHECK(h.arity() == m.params.size() && sm.getArity(h) == m.params.size(), "sort.arity", log << ": " << print(i) << " arity " << h.arity());
		auto* p = sm.getParameters(h);
		bool ok = (p == nullptr ? 0 : p->size()) == m.params.size();
		for (std::size_t k = 0; ok && k < m.params.size(); ++k) ok = (*p)[k] == handle[static_cast<std::size_t>(m.params[k])];
		VF_CHECK(ok, "sort.parameters", log << ": " << print(i));
		auto* x = sm.getIndices(h);
		VF_CHECK((x == nullptr ? std::vector<std::size_t>() : *x) == m.idx, "sort.indices", log << ": " << print(i) << " is " << h);
		VF_CHECK(sm.getType(h) == m.type && sm.isInterpreted(h) == (m.type != VT::VT_UNINTERPRETED), "sort.type", log << ": " << print(i) << " has type " << sm.getType(h) << " expected " << m.type);
		VF_CHECK(vf::str(h) == print(i), "sort.print", log << ": " << h << " expected " << print(i));
	}
	int indexed(int base, const std::vector<std::size_t>& ix, Sort h, const std::string& how) {
		MSort m = sorts[static_cast<std::size_t>(base)];
		m.idx.insert(m.idx.end(), ix.begin(), ix.end());
		if (find(m) < 0) {
			MSort un = m;
			un.idx.clear();
			int b = find(un);
			auto it = indexable.find(b);
			m.type = it != indexable.end() && it->second.first == m.idx.size() ? it->second.second : VT::VT_UNINTERPRETED;
		}
		return got(m, h, how);
	}
	/// Structure of body with the named sorts replaced; the handles of sorts met on the way are unknown to the model yet.
	struct Tree { std::string name; std::vector<Tree> params; std::vector<std::size_t> idx; };
	Tree tree(int i) const { const MSort& m = sorts[static_cast<std::size_t>(i)]; Tree t{m.name, {}, m.idx}; for (int p : m.params) t.params.push_back(tree(p)); return t; }
	Tree subst(const Tree& t, const std::map<std::string, int>& rep) const {
		auto it = rep.find(t.name);
		if (it != rep.end()) return tree(it->second);
		Tree s{t.name, {}, t.idx};
		for (auto& p : t.params) s.params.push_back(subst(p, rep));
		return s;
	}
	static std::string print(const Tree& t) {
		std::string s = t.name;
		if (!t.params.empty()) { for (auto& p : t.params) s += " " + print(p); s = "(" + s + ")"; }
		if (!t.idx.empty()) { s = "(_ " + s; for (auto x : t.idx) s += " " + std::to_string(x); s += ")"; }
		return s;
	}
};

void g_sorts(Rng& r) {
	auto& sm = SortManager::getInstance();
	sm.clear();
	SortModel m;
	auto any = [&]() { return static_cast<int>(r.below(m.sorts.size())); };
	auto name = [&]() { return "S" + std::to_string(r.below(12)); };
	for (long step = 0, n = r.range(4, 25); step < n; ++step) {
		unsigned k = static_cast<unsigned>(r.below(11));
		if (m.sorts.empty() && k != 2) k = 0;
		std::string nm = name();
		switch (k) {
			case 0: case 1: {
				if (!m.free(nm)) break;
				VT t = vtype(r);
				m.log += "add " + nm + "; ";
				vf::op("addSort");
				int i;
				if (k == 1 && r.coin()) {
					std::vector<int> ps;
					std::vector<Sort> hs;
					for (long q = 0, e = r.range(1, 3); q < e; ++q) { ps.push_back(any()); hs.push_back(m.handle[static_cast<std::size_t>(ps.back())]); }
					i = m.got({nm, ps, {}, t}, sm.addSort(nm, hs, t), "add");
				} else i = m.got({nm, {}, {}, t}, r.coin() ? sm.addSort(nm, t) : (t = VT::VT_UNINTERPRETED, sm.addSort(nm)), "add");
				if (i >= 0) m.sorts[static_cast<std::size_t>(i)].type = t;
				if (i >= 0 && r.chance(1, 2)) { std::size_t c = 1 + r.below(2); VT ti = vtype(r); sm.makeSortIndexable(m.handle[static_cast<std::size_t>(i)], c, ti); m.indexable[i] = {c, ti}; m.log += "indexable " + nm + "; "; }
				break;
			}
			case 2: {
				std::size_t ar = r.below(4);
				m.log += "declare " + nm + "/" + std::to_string(ar) + "; ";
				vf::op("declare");
				bool want = m.free(nm);
				VF_CHECK(sm.declare(nm, ar) == want, "sort.declare", m.log);
				if (want) { m.decl[nm] = ar; if (ar == 0) m.got({nm, {}, {}, VT::VT_UNINTERPRETED}, sm.getSort(nm), "declared"); }
				break;
			}
			case 3: {
				int b = any();
				std::vector<std::string> ps;
				for (long q = 0, e = r.range(0, 2); q < e; ++q) ps.push_back(m.sorts[static_cast<std::size_t>(any())].name);
				if (ps.size() == 2 && ps[0] == ps[1]) ps.pop_back();
				m.log += "define " + nm + "(";
				for (auto& p : ps) m.log += p + " ";
				m.log += ") = " + m.print(b) + "; ";
				vf::op("define");
				bool want = m.free(nm);
				VF_CHECK(sm.define(nm, ps, m.handle[static_cast<std::size_t>(b)]) == want, "sort.define", m.log);
				if (want) m.defs[nm] = {ps, b};
				break;
			}
			case 4: case 5: {
				int b = any();
				std::vector<std::size_t> ix;
				for (long q = 0, e = r.range(0, 2); q < e; ++q) ix.push_back(1 + r.below(3));
				m.log += "index " + m.print(b) + "; ";
				vf::op("index");
				m.indexed(b, ix, sm.index(m.handle[static_cast<std::size_t>(b)], ix), "index");
				break;
			}
			case 6: { // simple lookup
				int b = any();
				const MSort& s = m.sorts[static_cast<std::size_t>(b)];
				if (!s.params.empty()) break;
				m.log += "get " + s.name + "; ";
				vf::op("getSort");
				MSort base{s.name, {}, {}, VT::VT_UNINTERPRETED};
				int bi = m.find(base);
				if (bi < 0) break;
				m.got(m.sorts[static_cast<std::size_t>(bi)], carl::getSort(s.name), "get");
				if (!s.idx.empty()) { m.log += "get indexed; "; m.indexed(bi, s.idx, carl::getSort(s.name, s.idx), "get-indexed"); }
				break;
			}
			case 7: case 8: { // instance of a declared sort
				if (m.decl.empty()) break;
				auto it = m.decl.begin();
				std::advance(it, static_cast<long>(r.below(m.decl.size())));
				std::size_t ar = it->second;
				bool wrong = r.chance(1, 8);
				if (wrong) ar += 1;
				if (ar == 0) break;
				std::vector<int> ps;
				std::vector<Sort> hs;
				for (std::size_t q = 0; q < ar; ++q) { ps.push_back(any()); hs.push_back(m.handle[static_cast<std::size_t>(ps.back())]); }
				m.log += "instance " + it->first + "/" + std::to_string(ar) + "; ";
				vf::op("getSort");
				Sort h = carl::getSort(it->first, hs);
				if (wrong) { VF_CHECK(h.id() == 0, "sort.wrong-arity", m.log << " gives " << h); break; }
				int i = m.got({it->first, ps, {}, VT::VT_UNINTERPRETED}, h, "instance");
				if (i >= 0 && r.chance(1, 3)) { std::vector<std::size_t> ix = {1 + r.below(3)}; m.log += "indexed; "; m.indexed(i, ix, carl::getSort(it->first, ix, hs), "instance-indexed"); }
				break;
			}
			case 9: { // use of a definition
				if (m.defs.empty()) break;
				auto it = m.defs.begin();
				std::advance(it, static_cast<long>(r.below(m.defs.size())));
				const auto& ps = it->second.first;
				std::map<std::string, int> rep;
				std::vector<Sort> hs;
				for (auto& p : ps) { rep[p] = any(); hs.push_back(m.handle[static_cast<std::size_t>(rep[p])]); }
				m.log += "use " + it->first + "(";
				for (auto& p : ps) m.log += m.print(rep[p]) + " ";
				m.log += "); ";
				vf::op("instantiate");
				Sort h = ps.empty() ? carl::getSort(it->first) : carl::getSort(it->first, hs);
				std::string want = SortModel::print(m.subst(m.tree(it->second.second), rep));
				if (!VF_CHECK(h.id() != 0, "sort.definition-lost", m.log << ": no sort")) break;
				VF_CHECK(vf::str(h) == want, ps.empty() ? "sort.definition-plain" : "sort.definition", m.log << ": " << h << " expected " << want);
				for (std::size_t i = 0; i < m.sorts.size(); ++i) VF_CHECK((m.print(static_cast<int>(i)) == want) == (m.handle[i] == h), "sort.definition-same", m.log << ": " << h);
				break;
			}
			default: { // unknown names are not found
				std::string u = "U" + std::to_string(r.below(3));
				vf::op("unknown");
				VF_CHECK(carl::getSort(u).id() == 0 && (m.handle.empty() || carl::getSort(u, std::vector<Sort>{m.handle[0]}).id() == 0), "sort.unknown", m.log << ": " << u << " found");
				break;
			}
		}
		vf::note(m.log);
		for (std::size_t i = 0; i < m.sorts.size(); ++i) m.check(static_cast<int>(i));
	}
	vf::observe(m.log);
	ax::order(m.handle, "sort", [](const Sort& s) { return vf::str(s.id()); });
	ax::hashing(m.handle, "sort", [](const Sort& s) { return vf::str(s.id()); });
	// declarations are exported once each
	std::string want;
	for (auto& d : m.decl) want += "(declare-sort " + d.first + " " + std::to_string(d.second) + ")\n";
	std::stringstream ss;
	sm.exportDefinitions(ss);
	VF_CHECK(ss.str() == want, "sort.export", m.log << ": " << ss.str());
}

void g_interpreted(Rng& r) {
	auto& sm = SortManager::getInstance();
	sm.clear();
	std::map<VT, Sort> m;
	std::string log;
	for (VT t : {VT::VT_BOOL, VT::VT_REAL, VT::VT_INT, VT::VT_BITVECTOR, VT::VT_UNINTERPRETED}) if (r.chance(3, 4)) {
		vf::op("addInterpretedSort");
		log += vf::str(t) + " ";
		std::string n = "I" + vf::str(t);
		m[t] = m.empty() || r.coin() ? sm.addInterpretedSort(n, t) : sm.addInterpretedSort(n, std::vector<Sort>{m.begin()->second}, t);
		VF_CHECK(sm.getName(m[t]) == n, "interpreted.name", log);
	}
	vf::note(log);
	vf::observe(log);
	for (auto& x : m) {
		VF_CHECK(sm.getInterpreted(x.first) == x.second && sm.getType(x.second) == x.first, "interpreted.mapping", log << vf::str(x.first));
		Variable v = carl::freshVariable(x.first);
		carl::UVariable u(v);
		VF_CHECK(u.domain() == x.second && u.variable() == v, "interpreted.uvariable", log << v);
	}
}

// ----------------------------------------------------- functions, instances

struct MTerm { int var = -1; int fun = -1; std::vector<int> args; };

void g_uf(Rng& r) {
	auto& sm = SortManager::getInstance();
	sm.clear();
	std::vector<Sort> so;
	for (int i = 0; i < 3; ++i) so.push_back(sm.addSort("D" + std::to_string(i)));
	std::string log;
	// functions
	struct MF { std::string name; std::vector<std::size_t> dom; std::size_t cod; carl::UninterpretedFunction h; };
	std::vector<MF> fs;
	auto mkf = [&](const MF& want) {
		std::vector<Sort> dom;
		for (auto d : want.dom) dom.push_back(so[d]);
		vf::op("newUF");
		auto h = carl::newUninterpretedFunction(want.name, dom, so[want.cod]);
		log += "f" + std::to_string(fs.size()) + "=" + want.name + "/" + std::to_string(dom.size()) + "; ";
		vf::note(log);
		VF_CHECK(h.id() != 0 && h.name() == want.name && h.domain() == dom && h.codomain() == so[want.cod], "uf.parts", log << h);
		for (auto& f : fs) {
			bool same = f.name == want.name && f.dom == want.dom && f.cod == want.cod;
			VF_CHECK((f.h == h) == same, same ? "uf.same" : "uf.distinct", log << f.h << " and " << h);
		}
		std::string p = want.name + "(";
		for (std::size_t i = 0; i < dom.size(); ++i) p += (i ? ", " : "") + vf::str(dom[i]);
		VF_CHECK(vf::str(h) == p + ") " + vf::str(so[want.cod]), "uf.print", h);
		MF x = want;
		x.h = h;
		fs.push_back(x);
	};
	for (long i = 0, n = r.range(2, 7); i < n; ++i) {
		MF f;
		f.name = "f" + std::to_string(r.below(3));
		for (long k = 0, e = r.range(0, 3); k < e; ++k) f.dom.push_back(r.below(2));
		f.cod = r.below(2);
		mkf(f);
		if (r.chance(1, 3)) mkf(fs[r.below(fs.size())]);
	}
	// terms
	std::vector<MTerm> mt;
	std::vector<carl::UTerm> ts;
	std::vector<std::size_t> dom;
	std::vector<Variable> vars;
	for (long i = 0, n = r.range(2, 4); i < n; ++i) {
		Variable v = carl::freshUninterpretedVariable("u" + std::to_string(i));
		vars.push_back(v);
		std::size_t d = static_cast<std::size_t>(i) % 2;
		carl::UVariable u(v, so[d]);
		VF_CHECK(u.variable() == v && u.domain() == so[d], "uvariable.parts", u);
		MTerm m;
		m.var = static_cast<int>(i);
		mt.push_back(m);
		ts.emplace_back(u);
		dom.push_back(d);
	}
	for (long i = 0, n = r.range(2, 14); i < n; ++i) {
		const std::size_t fi = r.below(fs.size());
		const MF& f = fs[fi];
		std::vector<carl::UTerm> args;
		MTerm m;
		// identify functions by their first declaration
		m.fun = static_cast<int>(fi);
		for (std::size_t k = 0; k < fs.size(); ++k) if (fs[k].name == f.name && fs[k].dom == f.dom && fs[k].cod == f.cod) { m.fun = static_cast<int>(k); break; }
		for (auto d : f.dom) {
			std::vector<std::size_t> ok;
			for (std::size_t k = 0; k < ts.size(); ++k) if (dom[k] == d) ok.push_back(k);
			std::size_t a = r.pick(ok);
			args.push_back(ts[a]);
			// the first term with the same structure
			m.args.push_back(static_cast<int>(a));
		}
		vf::op("newUFInstance");
		auto copy = args;
		carl::UFInstance h = r.coin() ? carl::newUFInstance(f.h, args) : carl::newUFInstance(f.h, std::move(copy));
		log += "t" + std::to_string(ts.size()) + "=" + f.name + "(";
		for (auto a : m.args) log += "t" + std::to_string(a) + " ";
		log += "); ";
		vf::note(log);
		VF_CHECK(h.id() != 0 && h.uninterpretedFunction() == f.h && h.args() == args, "ufi.parts", log << h);
		std::string p = f.name + "(";
		for (std::size_t k = 0; k < args.size(); ++k) p += (k ? ", " : "") + vf::str(args[k]);
		VF_CHECK(vf::str(h) == p + ")", "ufi.print", h);
		mt.push_back(m);
		ts.emplace_back(h);
		dom.push_back(f.cod);
	}
	vf::observe(log);
	std::function<std::string(std::size_t)> key = [&](std::size_t i) {
		if (mt[i].var >= 0) return "v" + std::to_string(mt[i].var);
		std::string s = "f" + std::to_string(mt[i].fun) + "(";
		for (int a : mt[i].args) s += key(static_cast<std::size_t>(a)) + ",";
		return s + ")";
	};
	std::function<void(std::size_t, std::set<Variable>&, std::set<carl::UninterpretedFunction>&, std::size_t&)> walk = [&](std::size_t i, std::set<Variable>& v, std::set<carl::UninterpretedFunction>& u, std::size_t& c) {
		++c;
		if (mt[i].var >= 0) { v.insert(vars[static_cast<std::size_t>(mt[i].var)]); return; }
		u.insert(fs[static_cast<std::size_t>(mt[i].fun)].h);
		for (int a : mt[i].args) walk(static_cast<std::size_t>(a), v, u, c);
	};
	vf::op("terms");
	std::vector<std::string> ks;
	for (std::size_t i = 0; i < ts.size(); ++i) ks.push_back(key(i));
	for (std::size_t i = 0; i < ts.size(); ++i) {
		VF_CHECK(ts[i].isUVariable() == (mt[i].var >= 0) && ts[i].isUFInstance() == (mt[i].var < 0), "uterm.kind", log);
		VF_CHECK(ts[i].domain() == so[dom[i]], "uterm.domain", log << ts[i]);
		for (std::size_t j = 0; j < ts.size(); ++j) VF_CHECK((ts[i] == ts[j]) == (ks[i] == ks[j]) && (ts[i] != ts[j]) == (ks[i] != ks[j]), "uterm.identity", log << ks[i] << " and " << ks[j]);
		std::set<Variable> v;
		std::set<carl::UninterpretedFunction> u, u2;
		std::size_t c = 0;
		walk(i, v, u, c);
		carl::carlVariables cv;
		ts[i].gatherVariables(cv);
		ts[i].gatherUFs(u2);
		VF_CHECK(cv.as_set() == v, "uterm.variables", log << ts[i]);
		VF_CHECK(u == u2, "uterm.functions", log << ts[i]);
		VF_CHECK(ts[i].complexity() == c, "uterm.complexity", log << ts[i] << " " << ts[i].complexity());
	}
	auto sh = [](const carl::UTerm& t) { return vf::str(t); };
	ax::equality(ts, "uterm", sh);
	ax::order(ts, "uterm", sh);
	ax::hashing(ts, "uterm", sh);
	vf::op("equalities");
	std::vector<carl::UEquality> es;
	std::vector<std::string> ek;
	for (int q = 0; q < 8; ++q) {
		std::size_t i = r.below(ts.size());
		std::vector<std::size_t> ok;
		for (std::size_t k = 0; k < ts.size(); ++k) if (dom[k] == dom[i]) ok.push_back(k);
		std::size_t j = r.pick(ok);
		bool neg = r.coin();
		carl::UEquality e(ts[i], ts[j], neg), f(ts[j], ts[i], neg);
		VF_CHECK(e == f && std::hash<carl::UEquality>()(e) == std::hash<carl::UEquality>()(f), "ueq.symmetric", log << e << " and " << f);
		VF_CHECK(e.negated() == neg && ((e.lhs() == ts[i] && e.rhs() == ts[j]) || (e.lhs() == ts[j] && e.rhs() == ts[i])), "ueq.parts", log << e);
		auto n = e.negation();
		VF_CHECK(n.negated() == !neg && n.lhs() == e.lhs() && n.rhs() == e.rhs() && n.negation() == e && !(n == e) && carl::UEquality(e, true) == n && carl::UEquality(e, false) == e, "ueq.negation", log << e << " and " << n);
		std::set<Variable> v;
		std::set<carl::UninterpretedFunction> u, u2;
		std::size_t c = 0;
		walk(i, v, u, c);
		walk(j, v, u, c);
		carl::carlVariables cv;
		e.gatherVariables(cv);
		e.gatherUFs(u2);
		std::set<carl::UVariable> uv;
		e.gatherUVariables(uv);
		std::set<Variable> v2;
		for (auto x : uv) v2.insert(x.variable());
		VF_CHECK(cv.as_set() == v && v2 == v && u == u2 && e.complexity() == c + 1, "ueq.collect", log << e);
		VF_CHECK(vf::str(e) == vf::str(e.lhs()) + (neg ? " != " : " == ") + vf::str(e.rhs()), "ueq.print", e);
		es.push_back(e);
		ek.push_back((neg ? "!" : "=") + std::min(ks[i], ks[j]) + "|" + std::max(ks[i], ks[j]));
	}
	for (std::size_t i = 0; i < es.size(); ++i) for (std::size_t j = 0; j < es.size(); ++j) VF_CHECK((es[i] == es[j]) == (ek[i] == ek[j]), "ueq.identity", log << ek[i] << " and " << ek[j]);
	auto she = [](const carl::UEquality& e) { return vf::str(e); };
	ax::equality(es, "ueq", she);
	ax::order(es, "ueq", she);
	ax::hashing(es, "ueq", she);
}

// --------------------------------------------------------------- variables

const char* prefix(VT t) { switch (t) { case VT::VT_BOOL: return "b"; case VT::VT_REAL: return "r"; case VT::VT_INT: return "i"; case VT::VT_UNINTERPRETED: return "u"; default: return "bv"; } }

void g_variables(Rng& r) {
	auto& vp = carl::VariablePool::getInstance();
	// persistent variables survive clear() with their names; they accumulate over the cases of this process
	static std::vector<std::pair<Variable, std::string>> persistent;
	vp.clear();
	std::vector<std::pair<Variable, std::string>> live = persistent;
	std::string log;
	auto fresh = [&](Variable v, VT t, const std::string& how) {
		VF_CHECK(v.type() == t && v.id() != 0 && v.rank() == 0 && v != Variable::NO_VARIABLE, "variable.type", log << how << " has type " << v.type());
		for (auto& x : live) VF_CHECK(x.first != v && !(x.first == v), "variable.distinct", log << how << ": " << v.safe_name() << " was already in use");
		VF_CHECK(v.safe_name() == prefix(t) + std::to_string(v.id()), "variable.safe-name", v.safe_name());
	};
	for (long i = 0, n = r.range(3, 14); i < n; ++i) {
		VT t = vtype(r);
		bool named = r.coin();
		std::string nm = named ? "n" + std::to_string(r.below(6)) : "";
		bool pers = r.chance(1, 6) && persistent.size() < 12;
		switch (r.below(8)) {
			case 0: if (!live.empty()) { // rename
				auto& x = live[r.below(live.size())];
				bool p = false;
				for (auto& y : persistent) p = p || y.first == x.first;
				if (p) break;
				x.second = "renamed" + std::to_string(r.below(5));
				vf::op("setName");
				vp.setName(x.first, x.second);
				log += "rename " + x.second + "; ";
				break;
			} // fall through
			case 1: if (r.chance(1, 2)) { // clear
				vf::op("clear");
				log += "clear; ";
				vp.clear();
				live = persistent;
				break;
			} // fall through
			default: {
				vf::op(pers ? "persistent" : "fresh");
				std::size_t before = vp.nrVariables(t);
				Variable v = pers ? (named ? vp.getFreshPersistentVariable(nm, t) : vp.getFreshPersistentVariable(t))
					: named ? carl::freshVariable(nm, t) : carl::freshVariable(t);
				log += std::string(pers ? "persistent " : "fresh ") + v.safe_name() + "=" + nm + "; ";
				vf::note(log);
				fresh(v, t, "fresh");
				VF_CHECK(vp.nrVariables(t) == before + 1, "variable.count", log << vp.nrVariables(t));
				live.emplace_back(v, nm);
				if (pers) persistent.emplace_back(v, nm);
			}
		}
		vf::note(log);
		for (auto& x : live) {
			std::string def = std::string("_") + prefix(x.first.type()) + "_" + std::to_string(x.first.id());
			VF_CHECK(x.first.name() == (x.second.empty() ? def : x.second), "variable.name", log << x.first.safe_name() << " is called " << x.first.name() << " expected " << (x.second.empty() ? def : x.second));
			VF_CHECK(vp.getName(x.first, false) == def && vf::str(x.first) == x.first.name(), "variable.default-name", log << vp.getName(x.first, false));
			if (!x.second.empty()) {
				Variable f = vp.findVariableWithName(x.second);
				bool ok = false;
				for (auto& y : live) ok = ok || (y.first == f && y.second == x.second);
				VF_CHECK(ok, "variable.find", log << x.second << " found as " << f.safe_name());
			}
		}
		VF_CHECK(vp.findVariableWithName("nobody") == Variable::NO_VARIABLE && Variable().name() == "NO_VARIABLE", "variable.none", log);
	}
	vf::observe(log);
	std::vector<Variable> vs;
	for (auto& x : live) vs.push_back(x.first);
	vs.push_back(Variable::NO_VARIABLE);
	auto sh = [](const Variable& v) { return v.id() ? v.safe_name() : "NO_VARIABLE"; };
	ax::equality(vs, "variable", sh);
	ax::order(vs, "variable", sh);
	ax::hashing(vs, "variable", sh);
	for (std::size_t i = 0; i < vs.size(); ++i) for (std::size_t j = 0; j < vs.size(); ++j) {
		ax::six(vs[i], vs[j], "variable", [&] { return sh(vs[i]) + " and " + sh(vs[j]); });
		if (vs[i].type() == vs[j].type()) VF_CHECK((vs[i] < vs[j]) == (vs[i].id() < vs[j].id()), "variable.by-creation", sh(vs[i]) << " and " << sh(vs[j]));
	}
}

void g_varsets(Rng& r) {
	static const std::vector<Variable> pool = [] { std::vector<Variable> v; for (int i = 0; i < 12; ++i) for (VT t : {VT::VT_BOOL, VT::VT_REAL, VT::VT_INT, VT::VT_UNINTERPRETED, VT::VT_BITVECTOR}) if (i < 3 || t == VT::VT_REAL) v.push_back(carl::freshVariable("s" + std::to_string(i), t)); return v; }();
	// filters
	std::set<VT> in;
	carl::variable_type_filter f = carl::variable_type_filter::all();
	std::string log;
	auto all = {VT::VT_BOOL, VT::VT_REAL, VT::VT_INT, VT::VT_UNINTERPRETED, VT::VT_BITVECTOR};
	switch (r.below(5)) {
		case 0: in = {VT::VT_BOOL, VT::VT_INT}; f = carl::variable_type_filter::only({VT::VT_BOOL, VT::VT_INT}); break;
		case 1: in = all; in.erase(VT::VT_REAL); f = carl::variable_type_filter::excluding({VT::VT_REAL}); break;
		case 2: { VT a = vtype(r), b = vtype(r); in = all; in.erase(a); in.erase(b); f = carl::variable_type_filter::excluding({a, b}); break; }
		case 3: { VT a = vtype(r), b = vtype(r); in = {a, b}; f = carl::variable_type_filter::only({a, b}); break; }
		default: in = all; break;
	}
	for (VT t : all) VF_CHECK(f.apply(t) == (in.count(t) == 1), "varset.filter", vf::str(t));
	carl::carlVariables vs(f);
	std::set<Variable> m;
	auto rnd = [&]() { return pool[r.chance(1, 2) ? r.below(4) : r.below(pool.size())]; };
	auto madd = [&](Variable v) { if (in.count(v.type())) m.insert(v); };
	for (long i = 0, n = r.range(1, 20); i < n; ++i) {
		switch (r.below(6)) {
			case 0: case 1: { Variable v = rnd(); log += "+" + v.safe_name() + " "; vs.add(v); madd(v); break; }
			case 2: { std::vector<Variable> l; for (long k = 0, e = r.range(0, 8); k < e; ++k) l.push_back(rnd()); for (auto v : l) { log += "*" + v.safe_name() + " "; madd(v); } vs.add(l.begin(), l.end()); break; }
			case 3: { Variable a = rnd(), b = rnd(); log += "{" + a.safe_name() + "," + b.safe_name() + "} "; vs.add({a, b, a}); madd(a); madd(b); break; }
			case 4: { Variable v = rnd(); log += "-" + v.safe_name() + " "; vs.erase(v); m.erase(v); break; }
			default: if (r.chance(1, 6)) { log += "clear "; vs.clear(); m.clear(); }
		}
		vf::note(log);
		Variable v = rnd();
		VF_CHECK(vs.empty() == m.empty() && vs.has(v) == (m.count(v) == 1), "varset.has", log << v.safe_name());
		switch (r.below(8)) {
			case 0: VF_CHECK(vs.size() == m.size(), "varset.size", log << vs.size()); break;
			case 1: VF_CHECK(vs.as_set() == m, "varset.set", log); break;
			case 2: VF_CHECK(vs.as_vector() == std::vector<Variable>(m.begin(), m.end()), "varset.vector", log); break;
			case 3: { std::vector<Variable> w; for (auto x : vs) w.push_back(x); VF_CHECK(w == std::vector<Variable>(m.begin(), m.end()), "varset.iterate", log); break; }
			case 4: {
				vf::op("varset.filter");
				auto sub = [&](const carl::carlVariables& c, std::set<VT> ts) { std::set<Variable> w; for (auto x : m) if (ts.count(x.type())) w.insert(x); return c.as_set() == w && c.size() == w.size(); };
				switch (r.below(5)) {
					case 0: VF_CHECK(sub(vs.boolean(), {VT::VT_BOOL}), "varset.boolean", log); break;
					case 1: VF_CHECK(sub(vs.integer(), {VT::VT_INT}) , "varset.integer", log); break;
					case 2: VF_CHECK(sub(vs.real(), {VT::VT_REAL}), "varset.real", log); break;
					case 3: VF_CHECK(sub(vs.arithmetic(), {VT::VT_REAL, VT::VT_INT}), "varset.arithmetic", log); break;
					default: VF_CHECK(sub(vs.bitvector(), {VT::VT_BITVECTOR}) && sub(vs.uninterpreted(), {VT::VT_UNINTERPRETED}), "varset.other", log);
				}
				break;
			}
			case 5: {
				carl::carlVariables o(m.begin(), m.end(), f), q(f);
				for (auto it = m.rbegin(); it != m.rend(); ++it) q.add(*it);
				VF_CHECK(o == vs && vs == q, "varset.equal", log);
				Variable x = rnd();
				if (in.count(x.type()) && !m.count(x)) { q.add(x); VF_CHECK(!(vs == q), "varset.unequal", log); }
				break;
			}
			case 6: {
				carl::carlVariables q;
				for (auto x : m) q.add(x);
				VF_CHECK(vf::str(vs) == vf::str(q.as_vector()), "varset.print", log << " printed " << vs << " expected " << q.as_vector());
				break;
			}
			default: break;
		}
	}
	vf::observe(log);
	carl::carlVariables il({pool[0], pool[1], pool[0]}, f);
	std::set<Variable> w;
	for (auto x : {pool[0], pool[1]}) if (in.count(x.type())) w.insert(x);
	VF_CHECK(il.as_set() == w && il.size() == w.size(), "varset.list", log);
}

} // namespace

int main(int argc, char** argv) {
	vf::add_group("varsets", 20000, 300000, g_varsets);
	vf::add_group("sorts", 6000, 80000, g_sorts);
	vf::add_group("interpreted", 1000, 10000, g_interpreted);
	vf::add_group("uf", 4000, 60000, g_uf);
	vf::grows();
	vf::add_group("variables", 4000, 60000, g_variables);
	vf::grows();
	return vf::run(argc, argv);
}
