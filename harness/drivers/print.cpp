// C23: printed text denotes the printed object; the string parser reads it back and rejects everything else.
#include <cctype>
#include <polyutil.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/core/SimpleConstraint.h>
#include <carl/formula/Constraint.h>
#include <carl/formula/Sort.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTerm.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstance.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/interval/Interval.h>
#include <carl/io/streamingOperators.h>
#include <carl/numbers/GFNumber.h>
#include <carl/util/stringparser.h>
#include <deque>
#include <forward_list>
#include <list>
#include <optional>
#include <variant>
#include <limits>

using ref::Poly;
using pu::V;

// ---------------------------------------------------------------- reading infix text
struct Bad { std::string why; };
struct Reader {
	const std::string& s; size_t i = 0;
	explicit Reader(const std::string& t) : s(t) {}
	void ws() { while (i < s.size() && s[i] == ' ') ++i; }
	bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
	Poly sum() {
		Poly r = product();
		for (;;) {
			if (eat('+')) r = r + product();
			else if (eat('-')) r = r - product();
			else return r;
		}
	}
	Poly product() {
		Poly r = factor();
		for (;;) {
			if (eat('*')) r = r * factor();
			else if (i < s.size() && i > 0 && isdigit(s[i - 1]) && isalpha(s[i])) r = r * factor();
			else if (eat('/')) { Poly d = factor(); if (!d.constant() || d.zero()) throw Bad{"division"}; r = r * Poly(Q(1) / d.constpart()); }
			else return r;
		}
	}
	Poly factor() {
		if (eat('-')) return Poly(Q(-1)) * factor();
		Poly b = base();
		if (eat('^')) {
			ws();
			size_t j = i; while (j < s.size() && isdigit(s[j])) ++j;
			if (j == i || j - i > 4) throw Bad{"exponent"};
			unsigned e = static_cast<unsigned>(std::stoul(s.substr(i, j - i))); i = j;
			Poly r(Q(1)); for (unsigned k = 0; k < e; ++k) r = r * b;
			return r;
		}
		return b;
	}
	Poly base() {
		if (eat('(')) { Poly r = sum(); if (!eat(')')) throw Bad{"parenthesis"}; return r; }
		ws();
		size_t j = i;
		if (j < s.size() && isdigit(s[j])) {
			while (j < s.size() && isdigit(s[j])) ++j;
			Z z(s.substr(i, j - i), 10); i = j;
			return Poly(Q(z));
		}
		while (j < s.size() && (isalnum(s[j]) || s[j] == '_')) ++j;
		std::string n = s.substr(i, j - i); i = j;
		for (size_t k = 0; k < ref::NV; ++k) if (V()[k].name() == n) return Poly::var(k);
		throw Bad{"name '" + n + "'"};
	}
};
static bool read_poly(const std::string& t, Poly& out, std::string& why) {
	try { Reader r(t); out = r.sum(); r.ws(); if (r.i != t.size()) { why = "trailing text"; return false; } return true; }
	catch (const Bad& b) { why = b.why; return false; }
}
static void denotes(const std::string& text, const Poly& want, const std::string& key) {
	Poly got; std::string why;
	if (!VF_CHECK(read_poly(text, got, why), key + ":syntax", "\"" << text << "\" does not read: " << why << "; printed for " << want.str())) return;
	VF_CHECK(got == want, key, "\"" << text << "\" reads as " << got.str() << " but was printed for " << want.str());
}
template<typename T> std::string pr(const T& t) { std::ostringstream o; o << t; return o.str(); }

static Poly in_main(const Poly& p, size_t v) { Poly r; for (auto& [m, c] : p.t) { ref::Mono n = ref::mone(); n[v] = m[v]; r.add(n, c); } return r; }

static void poly_case(vf::Rng& r) {
	Poly p = pu::gen_poly(r, 6, 4);
	MP m = pu::build(p, r);
	vf::note(p.str()); vf::observe(p.str()); vf::op("print polynomial");
	std::string s = pr(m);
	denotes(s, p, "mp");
	VF_CHECK(pr(m) == s, "mp:stable", s);
	for (const auto& t : m) { denotes(pr(t), pu::rpoly(t), "term"); denotes(pr(t.monomial()), Poly(1, pu::rmono(t.monomial())), "monomial"); }
	{
		size_t v = r.below(ref::NV);
		Poly u = in_main(p, v);
		std::vector<Q> cs(u.deg(v) + 1);
		for (auto& [mm, c] : u.t) cs[mm[v]] = c;
		UP up(V()[v], cs);
		denotes(pr(up), u, "up");
		carl::UnivariatePolynomial<Z> uz(V()[v]);
		{ Z l = 1; for (auto& c : cs) l = lcm(l, c.get_den()); std::vector<Z> zs; for (auto& c : cs) zs.push_back(Z(c * l)); uz = carl::UnivariatePolynomial<Z>(V()[v], zs); denotes(pr(uz), u * Poly(Q(l)), "uz"); }
		UMP um = carl::to_univariate_polynomial(m, V()[v]);
		denotes(pr(um), p, "ump");
	}
	carl::MultivariatePolynomial<Z> mz;
	{ Z l = 1; for (auto& [mm, c] : p.t) l = lcm(l, c.get_den()); for (auto& [mm, c] : p.t) mz += carl::Term<Z>(Z(c * l), pu::mono(mm)); denotes(pr(mz), p * Poly(Q(l)), "mpz"); }
	static const std::pair<carl::Relation, const char*> rels[] = {{carl::Relation::EQ, "="}, {carl::Relation::NEQ, "!="}, {carl::Relation::LESS, "<"}, {carl::Relation::LEQ, "<="}, {carl::Relation::GREATER, ">"}, {carl::Relation::GEQ, ">="}};
	auto split = [&](const std::string& t, const std::string& rel, const std::string& key, const Poly& want) {
		std::string tail = " " + rel + " 0";
		if (!VF_CHECK(t.size() > tail.size() && t.substr(t.size() - tail.size()) == tail, key + ":relation", "\"" << t << "\" for relation " << rel)) return;
		denotes(t.substr(0, t.size() - tail.size()), want, key);
	};
	auto& rl = rels[r.below(6)];
	VF_CHECK(carl::toString(rl.first) == rl.second && pr(rl.first) == rl.second, "relation", rl.second);
	carl::SimpleConstraint<MP> sc(m, rl.first);
	split(pr(sc), rl.second, "simple-constraint", p);
	carl::Constraint<MP> c(m, rl.first);
	for (auto& q : rels) if (q.first == c.relation()) split(pr(c), q.second, "constraint", pu::rpoly(c.lhs()));
	if (!p.constant() && r.coin()) {
		carl::MultivariateHorner<MP, carl::strategy> h(MP{m});
		denotes(pr(h), p, "horner");
	}
}

// ---------------------------------------------------------------- string parser
static std::string gen_number(vf::Rng& r) {
	Q q = vf::gen_q(r, 20, 9);
	if (r.chance(1, 8)) q = vf::gen_mpq(r);
	std::string s = q.get_str();
	if (r.chance(1, 4)) s = "(" + s + ")";
	return s;
}
static std::string gen_text(vf::Rng& r) {
	std::string t;
	size_t n = 1 + r.below(5);
	for (size_t k = 0; k < n; ++k) {
		if (k) t += r.coin() ? " + " : "+";
		std::vector<std::string> fs;
		size_t nc = r.below(8) < 5 ? 1 : r.below(3);
		for (size_t i = 0; i < nc; ++i) fs.push_back(gen_number(r));
		std::vector<size_t> vs; for (size_t i = 0; i < ref::NV; ++i) vs.push_back(i);
		size_t nv = r.below(4);
		for (size_t i = 0; i < nv; ++i) {
			size_t j = r.below(vs.size());
			std::string f = V()[vs[j]].name();
			vs.erase(vs.begin() + static_cast<long>(j));
			if (r.coin()) f += "^" + std::to_string(r.below(6));
			fs.push_back(f);
		}
		if (fs.empty()) fs.push_back(gen_number(r));
		for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[r.below(i)]);
		for (size_t i = 0; i < fs.size(); ++i) t += (i ? "*" : "") + fs[i];
	}
	return t;
}
/// What the documentation promises: a sum of products of coefficients and powers of distinct known variables.
static bool model(const std::string& text, Poly& out) {
	out = Poly();
	size_t from = 0;
	for (;;) {
		size_t to = text.find('+', from);
		std::string term = text.substr(from, to == std::string::npos ? std::string::npos : to - from);
		auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
		while (!term.empty() && sp(term.front())) term.erase(0, 1);
		while (!term.empty() && sp(term.back())) term.pop_back();
		Q c = 1; ref::Mono m = ref::mone(); std::set<size_t> used;
		size_t a = 0;
		for (;;) {
			size_t b = term.find('*', a);
			std::string f = term.substr(a, b == std::string::npos ? std::string::npos : b - a);
			auto find = [&](const std::string& n) { for (size_t k = 0; k < ref::NV; ++k) if (V()[k].name() == n) return static_cast<int>(k); return -1; };
			size_t h = f.find('^');
			if (h != std::string::npos) {
				int k = find(f.substr(0, h)); std::string e = f.substr(h + 1);
				if (k < 0 || e.empty() || e.size() > 10 || e.find_first_not_of("0123456789") != std::string::npos) return false;
				unsigned long x = std::stoul(e); if (x > 4294967295ul) return false;
				if (!used.insert(static_cast<size_t>(k)).second) return false;
				m[static_cast<size_t>(k)] += static_cast<unsigned>(x);
			} else if (int k = find(f); k >= 0) {
				if (!used.insert(static_cast<size_t>(k)).second) return false;
				m[static_cast<size_t>(k)] += 1;
			} else {
				if (f.size() > 1 && f.front() == '(') { if (f.back() != ')') return false; f = f.substr(1, f.size() - 2); }
				Q x; if (f.empty() || !carl::try_parse<Q>(f, x)) return false;
				c *= x;
			}
			if (b == std::string::npos) break;
			a = b + 1;
		}
		if (ref::mdeg(m) > 4000000000ul) return false;
		out.add(m, c);
		if (to == std::string::npos) return true;
		from = to + 1;
	}
}
static carl::StringParser& parser() {
	static carl::StringParser p = [] { carl::StringParser x; std::list<std::string> n; for (auto v : V()) n.push_back(v.name()); x.setVariables(n); return x; }();
	return p;
}
static Poly back(const MP& m) {
	Poly r;
	for (const auto& t : m) {
		ref::Mono x = ref::mone();
		if (t.monomial()) for (const auto& e : *t.monomial()) for (size_t k = 0; k < ref::NV; ++k) if (parser().variables().at(V()[k].name()) == e.first) x[k] += static_cast<unsigned>(e.second);
		r.add(x, t.coeff());
	}
	return r;
}
// "7e123456789" is a number in scientific notation, that would have to be computed
static std::string no_exponent(std::string t) {
	for (size_t i = 0; i < t.size(); ++i) if (t[i] == 'e' || t[i] == 'E') {
		size_t j = i; while (j > 0 && std::isspace(static_cast<unsigned char>(t[j - 1]))) --j;
		if (j > 0 && (std::isdigit(static_cast<unsigned char>(t[j - 1])) || t[j - 1] == '.')) t[i] = 'd';
	}
	return t;
}
static void parse_text(const std::string& t, const std::string& key) {
	Poly want; bool ok = model(t, want);
	vf::op(ok ? "parse valid text" : "parse malformed text");
	try {
		MP got = parser().parseMultivariatePolynomial<Q>(t);
		if (!VF_CHECK(ok, key + ":accepts-malformed", "\"" << t << "\" gave " << got)) return;
		VF_CHECK(back(got) == want, key, "\"" << t << "\" gave " << got << " expected " << want.str());
	} catch (const carl::InvalidInputStringException& e) {
		VF_CHECK(!ok, key + ":rejects-valid", "\"" << t << "\": " << e.what());
	}
}
static void parse_case(vf::Rng& r) {
	std::string t;
	switch (r.below(4)) {
	case 0: { Poly p = pu::gen_poly(r, 6, 4); t = pr(pu::build(p, r)); vf::note(t); vf::observe(t); parse_text(t, "roundtrip");
		try { VF_CHECK(back(parser().parseMultivariatePolynomial<Q>(t)) == p, "roundtrip:value", t); } catch (const std::exception&) {}
		return; }
	case 1: t = gen_text(r); vf::note(t); vf::observe(t); parse_text(t, "text"); return;
	case 2: { // a valid text with a few characters changed
		t = gen_text(r);
		static const std::string al = "vabcdef*^+-/().0123456789 x\t,";
		size_t n = 1 + r.below(3);
		for (size_t i = 0; i < n; ++i) {
			size_t p = r.below(t.size() + 1);
			switch (r.below(3)) { case 0: t.insert(p, 1, al[r.below(al.size())]); break; case 1: if (p < t.size()) t.erase(p, 1 + r.below(2)); break; default: if (p < t.size()) t[p] = al[r.below(al.size())]; }
		}
		t = no_exponent(t);
		vf::note(t); vf::observe(t); parse_text(t, "mutated"); return; }
	default: {
		static const std::vector<std::string> tok = {"va", "vb", "vc", "*", "^", "+", "-", "/", "(", ")", "1", "2", "3/4", "-1", " ", "^2", "^0", "^-1", "0", ".5", "1.5", "v", "", "1/0", "^99999999999", "va*va", "(-2)", "()"};
		size_t n = r.below(9);
		for (size_t i = 0; i < n; ++i) t += tok[r.below(tok.size())];
		if (r.chance(1, 8)) for (size_t i = r.below(12); i > 0; --i) t += static_cast<char>(1 + r.below(255));
		t = no_exponent(t);
		vf::note(t); vf::observe(t); parse_text(t, "tokens"); return; }
	}
}

// ---------------------------------------------------------------- intervals, sets of numbers
template<typename N> void interval_of(vf::Rng& r, const N& a, const N& b, const std::string& key, std::function<bool(const std::string&, const N&)> is) {
	using B = carl::BoundType;
	B lt = static_cast<B>(r.below(3)), ut = static_cast<B>(r.below(3));
	carl::Interval<N> i(a, lt, b, ut);
	std::string s = pr(i);
	vf::note(s); vf::observe(s); vf::op("print interval");
	VF_CHECK(s == i.toString(), key + ":toString", s << " / " << i.toString());
	size_t c = s.find(", ");
	if (!VF_CHECK(s.size() >= 5 && c != std::string::npos && (s[0] == '[' || s[0] == ']') && (s.back() == '[' || s.back() == ']'), key + ":syntax", s)) return;
	std::string l = s.substr(1, c - 1), u = s.substr(c + 2, s.size() - c - 3);
	VF_CHECK((s[0] == '[') == (i.lowerBoundType() == B::WEAK) && (s.back() == ']') == (i.upperBoundType() == B::WEAK), key + ":ends", s);
	VF_CHECK((i.lowerBoundType() == B::INFTY) == (l == "-INF") && (i.lowerBoundType() == B::INFTY || is(l, i.lower())), key + ":lower", s);
	VF_CHECK((i.upperBoundType() == B::INFTY) == (u == "INF") && (i.upperBoundType() == B::INFTY || is(u, i.upper())), key + ":upper", s);
	// the printed text describes the interval it was made from
	if (a < b) VF_CHECK(i.lowerBoundType() == lt && i.upperBoundType() == ut, key + ":made", s);
}
static void interval_case(vf::Rng& r) {
	Q a = vf::gen_mpq(r), b = vf::gen_mpq(r); if (b < a) std::swap(a, b);
	interval_of<Q>(r, a, b, "interval", [](const std::string& t, const Q& q) { Q x; return x.set_str(t, 10) == 0 && (x.canonicalize(), x == q); });
	double x = static_cast<double>(r.range(-1000, 1000)) / 8, y = x + static_cast<double>(r.below(1000)) / 4;
	interval_of<double>(r, x, y, "interval-double", [](const std::string& t, const double& d) { std::ostringstream o; o << d; return o.str() == t; });
}

// ---------------------------------------------------------------- bit-vectors, uninterpreted terms, sorts
static std::string bvtext(const carl::BVTerm& t) {
	using T = carl::BVTermType;
	static const std::map<T, std::string> names = {{T::CONCAT, "concat"}, {T::EXTRACT, "extract"}, {T::NOT, "bvnot"}, {T::NEG, "bvneg"}, {T::AND, "bvand"}, {T::OR, "bvor"}, {T::XOR, "bvxor"}, {T::NAND, "bvnand"}, {T::NOR, "bvnor"}, {T::XNOR, "bvxnor"}, {T::ADD, "bvadd"}, {T::SUB, "bvsub"}, {T::MUL, "bvmul"}, {T::DIV_U, "bvudiv"}, {T::DIV_S, "bvsdiv"}, {T::MOD_U, "bvurem"}, {T::MOD_S1, "bvsrem"}, {T::MOD_S2, "bvsmod"}, {T::EQ, "bvcomp"}, {T::LSHIFT, "bvshl"}, {T::RSHIFT_LOGIC, "bvlshr"}, {T::RSHIFT_ARITH, "bvashr"}, {T::LROTATE, "rotate_left"}, {T::RROTATE, "rotate_right"}, {T::EXT_U, "zero_extend"}, {T::EXT_S, "sign_extend"}, {T::REPEAT, "repeat"}};
	switch (t.type()) {
	case T::CONSTANT: { std::string s = "#b"; for (size_t i = t.width(); i > 0; --i) s += t.value()[i - 1] ? '1' : '0'; return s; }
	case T::VARIABLE: return t.variable().variable().name();
	case T::EXTRACT: return "extract_{" + std::to_string(t.highest()) + "," + std::to_string(t.lowest()) + "}(" + bvtext(t.operand()) + ")";
	case T::LROTATE: case T::RROTATE: case T::EXT_U: case T::EXT_S: case T::REPEAT: return names.at(t.type()) + "_" + std::to_string(t.index()) + "(" + bvtext(t.operand()) + ")";
	case T::NOT: case T::NEG: return names.at(t.type()) + "(" + bvtext(t.operand()) + ")";
	default: return names.at(t.type()) + "(" + bvtext(t.first()) + ", " + bvtext(t.second()) + ")";
	}
}
static carl::Sort bvsort(size_t w) {
	static carl::Sort base = [] { auto& sm = carl::SortManager::getInstance(); carl::Sort s = sm.addSort("BitVec", carl::VariableType::VT_BITVECTOR); sm.makeSortIndexable(s, 1, carl::VariableType::VT_BITVECTOR); return s; }();
	return carl::SortManager::getInstance().index(base, {w});
}
static const std::vector<carl::BVTerm>& bvvars() {
	static std::vector<carl::BVTerm> v = [] {
		std::vector<carl::BVTerm> r;
		auto& sm = carl::SortManager::getInstance();
		for (size_t w : {1, 4, 7}) for (int k = 0; k < 2; ++k) {
			carl::Sort s = bvsort(w);
			carl::BVVariable x(carl::freshBitvectorVariable("bv" + std::to_string(w) + "_" + std::to_string(k)), s);
			r.emplace_back(carl::BVTermType::VARIABLE, x);
		}
		return r;
	}();
	return v;
}
static carl::BVTerm gen_bv(vf::Rng& r, size_t w, int depth) {
	using T = carl::BVTermType;
	if (depth == 0 || r.chance(1, 5)) {
		std::vector<size_t> c; for (size_t i = 0; i < bvvars().size(); ++i) if (bvvars()[i].width() == w) c.push_back(i);
		if (!c.empty() && r.chance(3, 4)) return bvvars()[r.pick(c)];
		return carl::BVTerm(T::CONSTANT, carl::BVValue(w, Z(static_cast<unsigned long>(r.below(1u << std::min<size_t>(w, 20))))));
	}
	switch (r.below(8)) {
	case 0: return carl::BVTerm(r.coin() ? T::NOT : T::NEG, gen_bv(r, w, depth - 1));
	case 1: return carl::BVTerm(r.coin() ? T::LROTATE : T::RROTATE, gen_bv(r, w, depth - 1), r.below(w + 2));
	case 2: if (w > 1) { size_t k = 1 + r.below(w - 1); return carl::BVTerm(r.coin() ? T::EXT_U : T::EXT_S, gen_bv(r, w - k, depth - 1), k); } break;
	case 3: { size_t lo = r.below(3), x = w + lo + r.below(3); return carl::BVTerm(T::EXTRACT, gen_bv(r, x, depth - 1), lo + w - 1, lo); }
	case 4: if (w > 1) { size_t k = 1 + r.below(w - 1); return carl::BVTerm(T::CONCAT, gen_bv(r, k, depth - 1), gen_bv(r, w - k, depth - 1)); } break;
	case 5: if (w % 2 == 0) return carl::BVTerm(T::REPEAT, gen_bv(r, w / 2, depth - 1), 2); break;
	default: break;
	}
	static const std::vector<T> bin = {T::AND, T::OR, T::XOR, T::NAND, T::NOR, T::XNOR, T::ADD, T::SUB, T::MUL, T::DIV_U, T::DIV_S, T::MOD_U, T::MOD_S1, T::MOD_S2, T::LSHIFT, T::RSHIFT_LOGIC, T::RSHIFT_ARITH};
	if (w == 1 && r.chance(1, 3)) { size_t x = 1 + r.below(5); return carl::BVTerm(T::EQ, gen_bv(r, x, depth - 1), gen_bv(r, x, depth - 1)); }
	return carl::BVTerm(r.pick(bin), gen_bv(r, w, depth - 1), gen_bv(r, w, depth - 1));
}
static void bv_case(vf::Rng& r) {
	size_t w = std::vector<size_t>{1, 4, 7}[r.below(3)];
	carl::BVTerm t = gen_bv(r, w, 3), u = gen_bv(r, w, 2);
	std::string want = bvtext(t);
	vf::note(want); vf::observe(want); vf::op("print bit-vector term");
	VF_CHECK(pr(t) == want, "bvterm", "printed \"" << pr(t) << "\" expected \"" << want << "\"");
	using R = carl::BVCompareRelation;
	static const std::vector<std::pair<R, std::string>> rel = {{R::EQ, "="}, {R::NEQ, "<>"}, {R::ULT, "bvult"}, {R::ULE, "bvule"}, {R::UGT, "bvugt"}, {R::UGE, "bvuge"}, {R::SLT, "bvslt"}, {R::SLE, "bvsle"}, {R::SGT, "bvsgt"}, {R::SGE, "bvsge"}};
	auto& q = rel[r.below(rel.size())];
	VF_CHECK(carl::toString(q.first) == q.second, "bvrelation", q.second);
	carl::BVConstraint c = carl::BVConstraint::create(q.first, t, u);
	std::string cw = c.isAlwaysConsistent() ? "TRUE" : c.isAlwaysInconsistent() ? "FALSE" : bvtext(c.lhs()) + " " + carl::toString(c.relation()) + " " + bvtext(c.rhs());
	VF_CHECK(pr(c) == cw, "bvconstraint", "printed \"" << pr(c) << "\" expected \"" << cw << "\"");
}
struct UF { carl::Sort s, s2; std::vector<carl::UVariable> v; std::vector<carl::UninterpretedFunction> f; };
static UF& uf() {
	static UF u = [] {
		UF x; auto& sm = carl::SortManager::getInstance();
		x.s = sm.addSort("PrA"); x.s2 = sm.addSort("PrB");
		for (int i = 0; i < 4; ++i) { auto s = i % 2 ? x.s2 : x.s; x.v.emplace_back(carl::freshUninterpretedVariable("u" + std::to_string(i)), s); }
		x.f.push_back(carl::newUninterpretedFunction("f", {x.s}, x.s));
		x.f.push_back(carl::newUninterpretedFunction("g", {x.s, x.s2}, x.s2));
		x.f.push_back(carl::newUninterpretedFunction("h", {x.s2, x.s, x.s2}, x.s));
		return x;
	}();
	return u;
}
static std::pair<carl::UTerm, std::string> gen_uf(vf::Rng& r, carl::Sort s, int depth) {
	std::vector<size_t> fs; for (size_t i = 0; i < uf().f.size(); ++i) if (uf().f[i].codomain() == s) fs.push_back(i);
	if (depth == 0 || r.chance(1, 3)) { std::vector<size_t> vs; for (size_t i = 0; i < uf().v.size(); ++i) if (uf().v[i].domain() == s) vs.push_back(i); size_t i = r.pick(vs); return {carl::UTerm(uf().v[i]), "u" + std::to_string(i)}; }
	size_t i = r.pick(fs);
	std::vector<carl::UTerm> args; std::string t = uf().f[i].name() + "(";
	for (auto& d : uf().f[i].domain()) { auto a = gen_uf(r, d, depth - 1); if (!args.empty()) t += ", "; t += a.second; args.push_back(a.first); }
	return {carl::UTerm(carl::newUFInstance(uf().f[i], args)), t + ")"};
}
static void uf_case(vf::Rng& r) {
	carl::Sort s = r.coin() ? uf().s : uf().s2;
	auto a = gen_uf(r, s, 3), b = gen_uf(r, s, 2);
	bool neg = r.coin();
	vf::note(a.second); vf::observe(a.second + b.second); vf::op("print uninterpreted term");
	VF_CHECK(pr(a.first) == a.second, "uterm", "printed \"" << pr(a.first) << "\" expected \"" << a.second << "\"");
	carl::UEquality e(a.first, b.first, neg);
	std::string x = a.second + (neg ? " != " : " == ") + b.second, y = b.second + (neg ? " != " : " == ") + a.second;
	VF_CHECK(pr(e) == x || pr(e) == y, "uequality", "printed \"" << pr(e) << "\" expected \"" << x << "\"");
	VF_CHECK(pr(s) == (s == uf().s ? "PrA" : "PrB"), "sort", pr(s));
	size_t w = 1 + r.below(70);
	VF_CHECK(pr(bvsort(w)) == "(_ BitVec " + std::to_string(w) + ")", "sort-indexed", w);
}

// ---------------------------------------------------------------- containers
using carl::operator<<;
template<typename T> std::string cp(const T& t) { std::ostringstream o; o << t; return o.str(); }
static std::string join(const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + v[i]; return s; }
static void container_case(vf::Rng& r) {
	size_t n = r.below(6);
	std::vector<int> v; std::vector<std::string> ts;
	for (size_t i = 0; i < n; ++i) { v.push_back(static_cast<int>(r.range(-50, 50))); ts.push_back(std::to_string(v.back())); }
	std::string sized = "[" + std::to_string(n) + ": " + join(ts) + "]";
	vf::note(sized); vf::observe(sized); vf::op("print container");
	VF_CHECK(cp(v) == sized, "vector", cp(v) << " expected " << sized);
	VF_CHECK(cp(std::list<int>(v.begin(), v.end())) == sized, "list", sized);
	VF_CHECK(cp(std::deque<int>(v.begin(), v.end())) == sized, "deque", sized);
	VF_CHECK(cp(std::forward_list<int>(v.begin(), v.end())) == "[" + join(ts) + "]", "forward_list", sized);
	std::set<int> s(v.begin(), v.end()); std::vector<std::string> ss; for (int x : s) ss.push_back(std::to_string(x));
	VF_CHECK(cp(s) == "{" + std::to_string(s.size()) + ": " + join(ss) + "}", "set", cp(s));
	std::map<int, Q> m; for (int x : v) m[x] = vf::gen_q(r);
	std::vector<std::string> ms; for (auto& [k, q] : m) ms.push_back(std::to_string(k) + " : " + q.get_str());
	VF_CHECK(cp(m) == "{" + join(ms) + "}", "map", cp(m));
	std::multimap<int, int> mm; std::vector<std::string> mms; for (int x : v) mm.emplace(x / 10, x); for (auto& [k, q] : mm) mms.push_back(std::to_string(k) + " : " + std::to_string(q));
	VF_CHECK(cp(mm) == "{" + join(mms) + "}", "multimap", cp(mm));
	std::unordered_set<int> us(v.begin(), v.end()); std::vector<std::string> uss; for (int x : us) uss.push_back(std::to_string(x));
	VF_CHECK(cp(us) == "{" + std::to_string(us.size()) + ": " + join(uss) + "}", "unordered_set", cp(us));
	std::unordered_map<int, int> um; for (int x : v) um[x] = -x; std::vector<std::string> ums; for (auto& [k, q] : um) ums.push_back(std::to_string(k) + " : " + std::to_string(q));
	VF_CHECK(cp(um) == "{" + join(ums) + "}", "unordered_map", cp(um));
	std::optional<int> o; VF_CHECK(cp(o) == "empty", "optional-empty", cp(o)); o = static_cast<int>(n); VF_CHECK(cp(o) == std::to_string(n), "optional", cp(o));
	std::pair<int, std::string> p(3 + static_cast<int>(n), "x"); VF_CHECK(cp(p) == "(" + std::to_string(3 + n) + ", x)", "pair", cp(p));
	std::tuple<int, std::string, Q> tu(static_cast<int>(n), "t", Q(1, 3)); VF_CHECK(cp(tu) == "(" + std::to_string(n) + ", t, 1/3)", "tuple", cp(tu));
	std::variant<int, std::string> va; if (r.coin()) va = static_cast<int>(n); else va = std::string("s" + std::to_string(n));
	VF_CHECK(cp(va) == (va.index() ? "s" : "") + std::to_string(n), "variant", cp(va));
	std::vector<std::vector<int>> nested{v, {}, v};
	VF_CHECK(cp(nested) == "[3: " + sized + ", [0: ], " + sized + "]", "nested", cp(nested));
	std::string glue = std::vector<std::string>{"", ", ", " + ", "--"}[r.below(4)]; std::string jw; for (size_t i = 0; i < ts.size(); ++i) jw += (i ? glue : "") + ts[i];
	std::ostringstream js; js << carl::stream_joined(glue, v); VF_CHECK(js.str() == jw, "stream_joined", js.str());
	std::ostringstream jf; jf << carl::stream_joined(glue, v, [](auto& os, const auto& x) { os << "<" << x << ">"; }); std::string fw; for (size_t i = 0; i < ts.size(); ++i) fw += (i ? glue : "") + "<" + ts[i] + ">";
	VF_CHECK(jf.str() == fw, "stream_joined-fn", jf.str());
}

int main(int argc, char** argv) {
	vf::add_group("poly", 24000, 500000, poly_case);
	vf::add_group("parse", 60000, 1500000, parse_case);
	vf::add_group("interval", 20000, 300000, interval_case);
	vf::add_group("bv", 16000, 300000, bv_case); vf::grows();
	vf::add_group("uf", 8000, 100000, uf_case); vf::grows();
	vf::add_group("container", 8000, 100000, container_case);
	return vf::run(argc, argv);
}
