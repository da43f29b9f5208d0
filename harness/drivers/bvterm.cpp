// C18: bit-vector terms and constraints against integers modulo 2^w.
#include "../common/vf.h"
#include "../common/axioms.h"
#include "../ref/bvmodel.h"

#include <carl/core/VariablePool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>

using vf::Rng;
using carl::BVTerm;
using carl::BVTermType;
using carl::BVVariable;
using carl::BVValue;
using T = BVTermType;

namespace {

carl::Sort bvsort(std::size_t w) {
	static carl::Sort base = [] {
		auto& sm = carl::SortManager::getInstance();
		sm.clear();
		carl::Sort s = sm.addSort("BitVec", carl::VariableType::VT_BITVECTOR);
		sm.makeSortIndexable(s, 1, carl::VariableType::VT_BITVECTOR);
		return s;
	}();
	(void)base;
	return carl::SortManager::getInstance().index(base, {w});
}
const BVVariable& var(std::size_t w, std::size_t i) {
	static std::map<std::pair<std::size_t, std::size_t>, BVVariable> vars;
	auto it = vars.find({w, i});
	if (it == vars.end()) it = vars.emplace(std::make_pair(w, i), BVVariable(carl::freshBitvectorVariable("v" + std::to_string(w) + "_" + std::to_string(i)), bvsort(w))).first;
	return it->second;
}

// ------------------------------------------------------------ reference

struct Node;
using Ref = std::shared_ptr<Node>;
struct Node {
	T type;
	std::size_t width;
	mpz_class value;                 // CONSTANT
	std::size_t vw = 0, vi = 0;      // VARIABLE
	Ref a, b;
	std::size_t i = 0, j = 0;
};
using Env = std::map<std::pair<std::size_t, std::size_t>, mpz_class>;

ref::BV eval(const Ref& n, const Env& e) {
	switch (n->type) {
		case T::CONSTANT: return ref::BV(n->width, n->value);
		case T::VARIABLE: return ref::BV(n->width, e.at({n->vw, n->vi}));
		case T::NOT: return ref::bvnot(eval(n->a, e));
		case T::NEG: return ref::bvneg(eval(n->a, e));
		case T::LROTATE: return ref::rotl(eval(n->a, e), n->i);
		case T::RROTATE: return ref::rotr(eval(n->a, e), n->i);
		case T::REPEAT: return ref::repeat(eval(n->a, e), n->i);
		case T::EXT_U: return ref::zext(eval(n->a, e), n->i);
		case T::EXT_S: return ref::sext(eval(n->a, e), n->i);
		case T::EXTRACT: return ref::extract(eval(n->a, e), n->i, n->j);
		default: break;
	}
	ref::BV x = eval(n->a, e), y = eval(n->b, e);
	switch (n->type) {
		case T::CONCAT: return ref::concat(x, y);
		case T::AND: return ref::bvand(x, y);
		case T::OR: return ref::bvor(x, y);
		case T::XOR: return ref::bvxor(x, y);
		case T::NAND: return ref::bvnot(ref::bvand(x, y));
		case T::NOR: return ref::bvnot(ref::bvor(x, y));
		case T::XNOR: return ref::bvnot(ref::bvxor(x, y));
		case T::ADD: return ref::bvadd(x, y);
		case T::SUB: return ref::bvsub(x, y);
		case T::MUL: return ref::bvmul(x, y);
		case T::DIV_U: return ref::bvudiv(x, y);
		case T::DIV_S: return ref::bvsdiv(x, y);
		case T::MOD_U: return ref::bvurem(x, y);
		case T::MOD_S1: return ref::bvsrem(x, y);
		case T::MOD_S2: return ref::bvsmod(x, y);
		case T::EQ: return ref::BV(1, x.v == y.v ? 1 : 0);
		case T::LSHIFT: return ref::bvshl(x, y);
		case T::RSHIFT_LOGIC: return ref::bvlshr(x, y);
		case T::RSHIFT_ARITH: return ref::bvashr(x, y);
		default: abort();
	}
}
std::string show(const Ref& n) {
	std::string s = vf::str(n->type);
	if (n->type == T::CONSTANT) return ref::BV(n->width, n->value).bits();
	if (n->type == T::VARIABLE) return "v" + std::to_string(n->vw) + "_" + std::to_string(n->vi);
	if (n->type == T::EXTRACT) s += "[" + std::to_string(n->i) + ":" + std::to_string(n->j) + "]";
	else if (n->i) s += "[" + std::to_string(n->i) + "]";
	return s + "(" + show(n->a) + (n->b ? "," + show(n->b) : "") + ")";
}

const std::vector<T> SAME = {T::AND, T::OR, T::XOR, T::NAND, T::NOR, T::XNOR, T::ADD, T::SUB, T::MUL, T::DIV_U, T::DIV_S, T::MOD_U, T::MOD_S1, T::MOD_S2, T::LSHIFT, T::RSHIFT_LOGIC, T::RSHIFT_ARITH};

mpz_class gen_value(Rng& r, std::size_t w) {
	mpz_class p = ref::BV::p2(w);
	switch (r.below(9)) {
		case 0: return 0;
		case 1: return 1;
		case 2: return p - 1;
		case 3: return p / 2;
		case 4: return p / 2 - 1;
		case 5: return mpz_class(r.below(2 * w + 2)) % p;
		case 6: { mpz_class x = 1; x <<= r.below(w); return x; }
		default: { mpz_class x = 0; for (std::size_t k = 0; k < w; k += 32) { x <<= 32; x += static_cast<unsigned long>(r.next() & 0xffffffffu); } return x % p; }
	}
}

Ref gen(Rng& r, std::size_t w, int depth, unsigned nvars) {
	auto n = std::make_shared<Node>();
	n->width = w;
	if (depth <= 0 || r.chance(1, 6)) {
		if (r.chance(2, 5) || nvars == 0) { n->type = T::CONSTANT; n->value = gen_value(r, w); }
		else { n->type = T::VARIABLE; n->vw = w; n->vi = r.below(nvars); }
		return n;
	}
	switch (r.below(12)) {
		case 0: n->type = r.coin() ? T::NOT : T::NEG; n->a = gen(r, w, depth - 1, nvars); return n;
		case 1: n->type = r.coin() ? T::LROTATE : T::RROTATE; n->a = gen(r, w, depth - 1, nvars); n->i = r.below(2 * w + 2); return n;
		case 2: if (w > 1) {
			n->type = r.coin() ? T::EXT_U : T::EXT_S;
			n->i = r.below(w);
			n->a = gen(r, w - n->i, depth - 1, nvars);
			return n;
		} break;
		case 3: {
			std::vector<std::size_t> d;
			for (std::size_t k = 1; k <= w; ++k) if (w % k == 0) d.push_back(k);
			n->type = T::REPEAT;
			n->i = r.pick(d);
			n->a = gen(r, w / n->i, depth - 1, nvars);
			return n;
		}
		case 4: {
			std::size_t more = r.below(w < 20 ? 10 : 60);
			std::size_t lo = r.below(more + 1);
			n->type = T::EXTRACT;
			n->a = gen(r, w + more, depth - 1, nvars);
			n->j = lo;
			n->i = lo + w - 1;
			return n;
		}
		case 5: if (w > 1) {
			std::size_t k = 1 + r.below(w - 1);
			n->type = T::CONCAT;
			n->a = gen(r, w - k, depth - 1, nvars);
			n->b = gen(r, k, depth - 1, nvars);
			return n;
		} break;
		case 6: if (w == 1 || r.chance(1, 3)) {
			auto e = std::make_shared<Node>();
			e->width = 1;
			e->type = T::EQ;
			std::size_t k = 1 + r.below(5);
			e->a = gen(r, k, depth - 1, nvars);
			e->b = gen(r, k, depth - 1, nvars);
			if (w == 1) return e;
			n->type = T::EXT_U;
			n->i = w - 1;
			n->a = e;
			return n;
		} break;
		default: break;
	}
	n->type = r.pick(SAME);
	n->a = gen(r, w, depth - 1, nvars);
	n->b = r.chance(1, 10) ? n->a : gen(r, w, depth - 1, nvars);
	if (r.chance(1, 8)) { auto z = std::make_shared<Node>(); z->type = T::CONSTANT; z->width = w; z->value = r.coin() ? mpz_class(0) : gen_value(r, w); n->b = z; }
	return n;
}

BVTerm build(const Ref& n) {
	switch (n->type) {
		case T::CONSTANT: return BVTerm(T::CONSTANT, BVValue(n->width, n->value));
		case T::VARIABLE: return BVTerm(T::VARIABLE, var(n->vw, n->vi));
		case T::EXTRACT: return BVTerm(T::EXTRACT, build(n->a), n->i, n->j);
		default: break;
	}
	if (!n->b) return n->i || carl::typeIsUnary(n->type) ? BVTerm(n->type, build(n->a), n->i) : BVTerm(n->type, build(n->a));
	return BVTerm(n->type, build(n->a), build(n->b));
}

/// Key of a constructed term, read through its accessors.
std::string key(const BVTerm& t, std::set<BVVariable>& vars) {
	std::string s = vf::str(t.type()) + ":" + std::to_string(t.width());
	if (t.type() == T::CONSTANT) return s + "=" + t.value().toString();
	if (t.type() == T::VARIABLE) { vars.insert(t.variable()); return s + "=" + vf::str(t.variable()); }
	if (t.type() == T::EXTRACT) return s + "[" + std::to_string(t.highest()) + "," + std::to_string(t.lowest()) + "](" + key(t.operand(), vars) + ")";
	if (carl::typeIsUnary(t.type())) return s + "[" + std::to_string(t.index()) + "](" + key(t.operand(), vars) + ")";
	return s + "(" + key(t.first(), vars) + ";" + key(t.second(), vars) + ")";
}
void collect(const Ref& n, std::set<std::pair<std::size_t, std::size_t>>& s) { if (n->type == T::VARIABLE) s.insert({n->vw, n->vi}); if (n->a) collect(n->a, s); if (n->b) collect(n->b, s); }

Env env(Rng& r, const Ref& n) {
	std::set<std::pair<std::size_t, std::size_t>> s;
	collect(n, s);
	Env e;
	for (auto& v : s) e[v] = gen_value(r, v.first);
	return e;
}
std::map<BVVariable, BVTerm> assignment(const Env& e) {
	std::map<BVVariable, BVTerm> m;
	for (auto& x : e) m.emplace(var(x.first.first, x.first.second), BVTerm(T::CONSTANT, BVValue(x.first.first, x.second)));
	return m;
}
std::string showe(const Env& e) { std::string s; for (auto& x : e) s += " v" + std::to_string(x.first.first) + "_" + std::to_string(x.first.second) + "=" + x.second.get_str(); return s; }

/// The term's value after substituting constants for all variables.
bool value_of(const BVTerm& t, const Env& e, const Ref& n, const std::string& k) {
	BVTerm c = t.substitute(assignment(e));
	ref::BV want = eval(n, e);
	if (!VF_CHECK(c.isConstant() && !c.isInvalid(), k + ".not-constant", show(n) << " under" << showe(e) << " gives " << c)) return false;
	return VF_CHECK(c.value().toString() == "#b" + want.bits() && c.width() == want.w, k + "." + vf::str(n->type), show(n) << " under" << showe(e) << " gives " << c << " expected " << want.bits());
}

std::size_t width(Rng& r) {
	switch (r.below(6)) { case 0: return 1; case 1: return 2; case 2: return 1 + r.below(8); case 3: return 60 + r.below(10); case 4: return 1 + r.below(130); default: return 1 + r.below(33); }
}

void g_term(Rng& r) {
	Ref n = gen(r, width(r), static_cast<int>(r.range(1, 4)), 2);
	vf::note(show(n));
	vf::observe(show(n));
	vf::op("build");
	BVTerm t = build(n);
	VF_CHECK(t.width() == n->width && !t.isInvalid(), "term.width", show(n) << " has width " << t.width());
	BVTerm again = build(n);
	VF_CHECK(t == again && !(t < again) && !(again < t) && t.hash() == again.hash() && std::hash<BVTerm>()(t) == t.hash(), "term.shared", show(n));
	std::set<BVVariable> vars, walked;
	std::string k = key(t, walked);
	t.gatherBVVariables(vars);
	VF_CHECK(vars == walked, "term.variables", show(n) << " has " << vars.size() << " variables, walk found " << walked.size());
	std::set<std::pair<std::size_t, std::size_t>> mine;
	collect(n, mine);
	for (auto& v : vars) { bool in = false; for (auto& m : mine) in = in || var(m.first, m.second) == v; VF_CHECK(in, "term.variable-foreign", show(n) << " contains " << v); }
	vf::op("substitute");
	for (int i = 0; i < 3; ++i) if (!value_of(t, env(r, n), n, "value")) return;
	// substituting terms, then evaluating
	Env e = env(r, n);
	std::map<BVVariable, BVTerm> sub;
	std::map<std::pair<std::size_t, std::size_t>, Ref> rs;
	for (auto& v : mine) if (r.chance(2, 3)) { Ref s = gen(r, v.first, static_cast<int>(r.range(0, 2)), 3); rs[v] = s; sub.emplace(var(v.first, v.second), build(s)); for (auto& x : env(r, s)) e.emplace(x); }
	BVTerm st = t.substitute(sub);
	VF_CHECK(st.width() == t.width(), "substitute.width", show(n));
	Env inner = e;
	for (auto& x : rs) inner[x.first] = eval(x.second, e).v;
	BVTerm c = st.substitute(assignment(e));
	ref::BV want = eval(n, inner);
	std::string what;
	for (auto& x : rs) what += " v" + std::to_string(x.first.first) + "_" + std::to_string(x.first.second) + ":=" + show(x.second);
	VF_CHECK(c.isConstant() && c.value().toString() == "#b" + want.bits(), "substitute.value", show(n) << what << " under" << showe(e) << " gives " << c << " expected " << want.bits());
	// the variables after substituting terms are those of the structure
	std::set<BVVariable> v2, w2;
	st.gatherBVVariables(v2);
	key(st, w2);
	VF_CHECK(v2 == w2, "substitute.variables", show(n) << what);
	// an empty substitution changes nothing
	VF_CHECK(t.substitute({}) == t, "substitute.empty", show(n));
	VF_CHECK(t.complexity() > 0, "term.complexity", show(n));
}

void g_sharing(Rng& r) {
	// small terms over few variables collide often
	std::vector<BVTerm> ts;
	std::vector<std::string> ks;
	std::string log;
	for (long i = 0, n = r.range(4, 14); i < n; ++i) {
		Ref a = gen(r, 1 + r.below(3), static_cast<int>(r.range(0, 2)), 1);
		ts.push_back(build(a));
		std::set<BVVariable> s;
		ks.push_back(key(ts.back(), s));
		log += show(a) + " ";
	}
	vf::note(log);
	vf::observe(log);
	vf::op("sharing");
	for (std::size_t i = 0; i < ts.size(); ++i) for (std::size_t j = 0; j < ts.size(); ++j)
		VF_CHECK((ts[i] == ts[j]) == (ks[i] == ks[j]), "term.identity", ks[i] << " and " << ks[j] << " equal: " << (ts[i] == ts[j]));
	auto sh = [](const BVTerm& t) { return vf::str(t); };
	ax::order(ts, "term", sh);
	ax::hashing(ts, "term", sh);
}

bool holds(carl::BVCompareRelation rel, const ref::BV& x, const ref::BV& y) {
	using R = carl::BVCompareRelation;
	switch (rel) {
		case R::EQ: return x.v == y.v;
		case R::NEQ: return x.v != y.v;
		case R::ULT: return x.v < y.v;
		case R::ULE: return x.v <= y.v;
		case R::UGT: return x.v > y.v;
		case R::UGE: return x.v >= y.v;
		case R::SLT: return x.sv() < y.sv();
		case R::SLE: return x.sv() <= y.sv();
		case R::SGT: return x.sv() > y.sv();
		case R::SGE: return x.sv() >= y.sv();
	}
	return false;
}
carl::BVCompareRelation rel(std::size_t i) { return static_cast<carl::BVCompareRelation>(i); }

void g_constraint(Rng& r) {
	std::size_t w = width(r);
	Ref a = gen(r, w, static_cast<int>(r.range(0, 3)), 2), b = r.chance(1, 8) ? a : gen(r, w, static_cast<int>(r.range(0, 3)), 2);
	carl::BVCompareRelation rl = rel(r.below(10));
	std::string log = show(a) + " " + carl::toString(rl) + " " + show(b);
	vf::note(log);
	vf::observe(log);
	vf::op("constraint");
	BVTerm ta = build(a), tb = build(b);
	auto c = carl::BVConstraint::create(rl, ta, tb);
	auto c2 = carl::BVConstraint::create(rl, build(a), build(b));
	VF_CHECK(c == c2 && c.id() == c2.id() && c.hash() == c2.hash() && !(c < c2) && !(c2 < c), "constraint.shared", log);
	if (ta.isConstant() && tb.isConstant()) {
		Env none;
		std::set<std::pair<std::size_t, std::size_t>> s;
		collect(a, s);
		collect(b, s);
		for (auto& v : s) none[v] = 0;
		bool want = holds(rl, eval(a, none), eval(b, none));
		VF_CHECK(c.isConstant() && c.isAlwaysConsistent() == want && c.isAlwaysInconsistent() == !want, "constraint.constant." + carl::toString(rl), log << " decided " << c);
	} else if (!c.isConstant()) {
		VF_CHECK(c.lhs() == ta && c.rhs() == tb && c.relation() == rl, "constraint.parts", log << " is " << c);
		std::set<BVVariable> v1, v2;
		c.gatherBVVariables(v1);
		key(ta, v2);
		key(tb, v2);
		VF_CHECK(v1 == v2, "constraint.variables", log);
		carl::carlVariables cv;
		c.gatherVariables(cv);
		std::set<carl::Variable> want;
		for (auto& v : v2) want.insert(v.variable());
		VF_CHECK(cv.as_set() == want, "constraint.carl-variables", log);
	}
	// the meaning under an assignment, and of the inverse relation
	Env e = env(r, a);
	for (auto& x : env(r, b)) e.emplace(x);
	auto m = assignment(e);
	auto v = carl::BVConstraint::create(c.isConstant() ? rl : c.relation(), ta.substitute(m), tb.substitute(m));
	bool want = holds(rl, eval(a, e), eval(b, e));
	VF_CHECK(v.isConstant() && v.isAlwaysConsistent() == want && v.isAlwaysInconsistent() != want, "constraint.value." + carl::toString(rl), log << " under" << showe(e) << " decided " << v);
	if (c.isConstant()) VF_CHECK(c.isAlwaysConsistent() == want, "constraint.simplified", log << " under" << showe(e));
	auto inv = carl::BVConstraint::create(carl::inverse(rl), ta.substitute(m), tb.substitute(m));
	VF_CHECK(inv.isAlwaysConsistent() == !want, "constraint.inverse." + carl::toString(rl), log << " under" << showe(e));
}

void g_csharing(Rng& r) {
	std::vector<carl::BVConstraint> cs;
	std::vector<std::string> ks;
	for (long i = 0, n = r.range(4, 12); i < n; ++i) {
		std::size_t w = 1 + r.below(2);
		BVTerm a = build(gen(r, w, static_cast<int>(r.below(2)), 1)), b = build(gen(r, w, static_cast<int>(r.below(2)), 1));
		carl::BVCompareRelation rl = rel(r.below(10));
		cs.push_back(carl::BVConstraint::create(rl, a, b));
		std::set<BVVariable> s;
		const auto& c = cs.back();
		ks.push_back(c.isConstant() ? (c.isAlwaysConsistent() ? "TRUE" : "FALSE") : key(a, s) + carl::toString(rl) + key(b, s));
	}
	cs.push_back(carl::BVConstraint::create(true));
	ks.push_back("TRUE");
	cs.push_back(carl::BVConstraint::create(false));
	ks.push_back("FALSE");
	VF_CHECK(cs[cs.size() - 2].isAlwaysConsistent() && cs.back().isAlwaysInconsistent() && !cs.back().isAlwaysConsistent(), "constraint.bool", cs.back());
	std::string log;
	for (auto& k : ks) log += k + " ";
	vf::note(log);
	vf::observe(log);
	vf::op("constraint-sharing");
	for (std::size_t i = 0; i < cs.size(); ++i) for (std::size_t j = 0; j < cs.size(); ++j)
		VF_CHECK((cs[i] == cs[j]) == (ks[i] == ks[j]), "constraint.identity", ks[i] << " and " << ks[j] << " equal: " << (cs[i] == cs[j]));
	auto sh = [](const carl::BVConstraint& t) { return vf::str(t); };
	ax::order(cs, "constraint", sh);
	ax::hashing(cs, "constraint", sh);
}

/// Every operation and relation on all pairs of values of widths 1 to 4.
void g_exhaustive(Rng& r) {
	std::size_t w = 1 + r.below(4);
	T ty = r.pick(SAME);
	vf::note("all pairs of width " + std::to_string(w) + " for " + vf::str(ty));
	vf::observe(vf::str(ty) + std::to_string(w));
	vf::op("exhaustive");
	BVTerm xt(T::VARIABLE, var(w, 0)), yt(T::VARIABLE, var(w, 1)), sym(ty, xt, yt);
	auto leaf = [&](std::size_t v) { auto n = std::make_shared<Node>(); n->type = T::CONSTANT; n->width = w; n->value = v; return n; };
	for (std::size_t x = 0; x < (1u << w); ++x) for (std::size_t y = 0; y < (1u << w); ++y) {
		auto n = std::make_shared<Node>();
		n->type = ty;
		n->width = w;
		n->a = leaf(x);
		n->b = leaf(y);
		std::string want = eval(n, {}).bits();
		BVTerm cx = build(n->a), cy = build(n->b);
		std::string k = "pair." + vf::str(ty);
		BVTerm full(ty, cx, cy);
		VF_CHECK(full.isConstant() && full.value().toString() == "#b" + want, k, show(n) << " gives " << full);
		// constant on one side only
		BVTerm half1 = BVTerm(ty, xt, cy).substitute({{var(w, 0), cx}}), half2 = BVTerm(ty, cx, yt).substitute({{var(w, 1), cy}}), s = sym.substitute({{var(w, 0), cx}, {var(w, 1), cy}});
		VF_CHECK(half1.isConstant() && half1.value().toString() == "#b" + want, k + ".right-constant", show(n) << " gives " << half1);
		VF_CHECK(half2.isConstant() && half2.value().toString() == "#b" + want, k + ".left-constant", show(n) << " gives " << half2);
		VF_CHECK(s.isConstant() && s.value().toString() == "#b" + want, k + ".symbolic", show(n) << " gives " << s);
		for (std::size_t q = 0; q < 10; ++q) {
			bool h = holds(rel(q), ref::BV(w, x), ref::BV(w, y));
			auto c = carl::BVConstraint::create(rel(q), cx, cy);
			VF_CHECK(c.isAlwaysConsistent() == h && c.isAlwaysInconsistent() == !h, "pair." + carl::toString(rel(q)), x << " and " << y << " of width " << w << " decided " << c);
		}
	}
}

} // namespace

int main(int argc, char** argv) {
	vf::add_group("term", 40000, 200000, g_term);
	vf::add_group("sharing", 15000, 80000, g_sharing);
	vf::add_group("constraint", 40000, 200000, g_constraint);
	vf::add_group("csharing", 5000, 60000, g_csharing);
	vf::add_group("exhaustive", 480, 960, g_exhaustive);
	return vf::run(argc, argv);
}
