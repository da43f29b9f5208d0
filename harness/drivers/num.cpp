// C01: exact number operations against their mathematical definition.
#include <vf.h>
#include <cmath>
#include <limits>
#include <carl/numbers/numbers.h>
#include <carl/numbers/adaption_native/EEA.h>
using Q = mpq_class; using Z = mpz_class;
using FQ = carl::FLOAT_T<Q>; using FD = carl::FLOAT_T<double>;

static bool canonical(const Q& q) {
	if (q.get_den() <= 0) return false;
	Z g; mpz_gcd(g.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
	return g == 1;
}
static Z ipow(const Z& b, unsigned long e) { Z r = 1; for (unsigned long i = 0; i < e; ++i) r *= b; return r; }
static Q qp(const Q& b, unsigned long e) { Q r = 1; for (unsigned long i = 0; i < e; ++i) r *= b; return r; }
static Z zabs(const Z& a) { return a < 0 ? Z(-a) : a; }
/// |a|, computed by Euclid on plain remainders
static Z egcd(Z a, Z b) { a = zabs(a); b = zabs(b); while (b != 0) { Z t = a % b; a = b; b = t; } return a; }

static void integer_case(vf::Rng& r) {
	Z a = vf::gen_mpz(r), b = vf::gen_mpz(r);
	if (r.chance(1, 4)) a = b * vf::gen_mpz(r);
	if (r.chance(1, 10)) b = r.coin() ? a : Z(-a);
	std::string d = a.get_str() + " , " + b.get_str();
	vf::note(d); vf::observe(d); vf::op("integer");
	VF_CHECK(carl::isZero(a) == (a == 0) && carl::is_zero(a) == (a == 0), "z.isZero", d);
	VF_CHECK(carl::isOne(a) == (a == 1) && carl::is_one(a) == (a == 1), "z.isOne", d);
	VF_CHECK(carl::isPositive(a) == (a > 0) && carl::isNegative(a) == (a < 0), "z.sign", d);
	VF_CHECK(carl::getNum(a) == a, "z.getNum", d);
	VF_CHECK(carl::getDenom(a) == 1, "z.getDenom", d << " gave " << carl::getDenom(a));
	VF_CHECK(carl::isInteger(a), "z.isInteger", d);
	VF_CHECK(carl::abs(a) == zabs(a), "z.abs", d);
	VF_CHECK(carl::floor(a) == a && carl::ceil(a) == a && carl::round(a) == a, "z.round", d);
	{ size_t n = 0; Z t = zabs(a); while (t != 0) { t /= 2; ++n; } VF_CHECK(carl::bitsize(a) == std::max<size_t>(n, 1), "z.bitsize", d); }
	Z g = egcd(a, b);
	VF_CHECK(carl::gcd(a, b) == g, "z.gcd", d << " gave " << carl::gcd(a, b));
	{ Z x = a; Z& y = carl::gcd_assign(x, b); VF_CHECK(&y == &x && x == g, "z.gcd_assign", d); }
	{ Z l = g == 0 ? Z(0) : Z(zabs(a * b) / g); VF_CHECK(carl::lcm(a, b) == l, "z.lcm", d << " gave " << carl::lcm(a, b)); }
	{ auto p = carl::EEA<Z>::calculate(a, b); VF_CHECK(p.first * a + p.second * b == g, "z.EEA", d << " gave " << p.first << "," << p.second); }
	if (b != 0) {
		Z q = carl::quotient(a, b), m = carl::mod(a, b), rm = carl::remainder(a, b);
		VF_CHECK(q * b + m == a && zabs(m) < zabs(b), "z.quotient-mod", d << " gave " << q << " " << m);
		VF_CHECK(m == 0 || (m < 0) == (a < 0), "z.mod-sign", d << " gave " << m);
		VF_CHECK(rm == m, "z.remainder", d);
		Z q2, r2; carl::divide(a, b, q2, r2);
		VF_CHECK(q2 * b + r2 == a && zabs(r2) < zabs(b), "z.divide", d << " gave " << q2 << " " << r2);
		if (m == 0) { VF_CHECK(carl::div(a, b) * b == a, "z.div", d); Z x = a; carl::div_assign(x, b); VF_CHECK(x * b == a, "z.div_assign", d); }
	}
	unsigned long e = r.below(12);
	VF_CHECK(carl::pow(a, e) == ipow(a, e), "z.pow", d << "^" << e);
	{ Z x = a; carl::pow_assign(x, e); VF_CHECK(x == ipow(a, e), "z.pow_assign", d << "^" << e); }
	std::stringstream ss; ss << a;
	VF_CHECK(carl::parse<Z>(ss.str()) == a, "z.parse-printed", d << " gave " << carl::parse<Z>(ss.str()));
	if (a >= 0) VF_CHECK(carl::parse<Z>(carl::toString(a)) == a, "z.toString-parse", d);
	else { VF_CHECK(carl::toString(a, true) == "(-" + zabs(a).get_str() + ")", "z.toString", d); VF_CHECK(carl::toString(a, false) == "(- " + zabs(a).get_str() + ")", "z.toString-prefix", d); }
	if (a >= std::numeric_limits<long>::min() && a <= std::numeric_limits<long>::max()) {
		VF_CHECK(Z(carl::toInt<carl::sint>(a)) == a, "z.toInt-sint", d);
		VF_CHECK(carl::fromInt<Z>(carl::sint(a.get_si())) == a, "z.fromInt-sint", d);
		VF_CHECK(carl::fromInt<Q>(carl::sint(a.get_si())) == a, "q.fromInt-sint", d);
		VF_CHECK(Z(carl::toInt<carl::sint>(Q(a))) == a, "q.toInt-sint", d);
		VF_CHECK(carl::rationalize<Q>(carl::sint(a.get_si())) == a, "q.rationalize-sint", d);
	}
	if (a >= 0 && a <= std::numeric_limits<unsigned long>::max()) {
		VF_CHECK(Z(carl::toInt<carl::uint>(a)) == a, "z.toInt-uint", d);
		VF_CHECK(carl::fromInt<Z>(carl::uint(a.get_ui())) == a, "z.fromInt-uint", d);
		VF_CHECK(carl::fromInt<Q>(carl::uint(a.get_ui())) == a, "q.fromInt-uint", d);
		VF_CHECK(Z(carl::toInt<carl::uint>(Q(a))) == a, "q.toInt-uint", d);
		VF_CHECK(carl::rationalize<Q>(carl::uint(a.get_ui())) == a, "q.rationalize-uint", d);
	}
	VF_CHECK(carl::toInt<Z>(Q(a)) == a, "q.toInt-mpz", d);
	{
		double x = carl::toDouble(a);
		if (std::isfinite(x)) { Z diff = zabs(Z(Q(x).get_num() / Q(x).get_den()) - a); VF_CHECK(diff == 0 || diff * ipow(Z(2), 52) <= zabs(a), "z.toDouble", d << " gave " << x); }
	}
	if (a == b) VF_CHECK(std::hash<Z>()(a) == std::hash<Z>()(b), "z.hash", d);
}
static void check_double_bounds(const Q& a, const std::string& d) {
	double lo = carl::roundDown(a), hi = carl::roundUp(a), lo2 = carl::roundDown(a, true), hi2 = carl::roundUp(a, true);
	auto le = [](double x, const Q& y) { return x == -INFINITY || (std::isfinite(x) && Q(x) <= y); };
	auto ge = [](double x, const Q& y) { return x == INFINITY || (std::isfinite(x) && Q(x) >= y); };
	VF_CHECK(le(lo, a), "q.roundDown", d << " gave " << lo);
	VF_CHECK(ge(hi, a), "q.roundUp", d << " gave " << hi);
	VF_CHECK(le(lo2, a) && lo2 <= lo && !(std::isfinite(lo2) && Q(lo2) == a), "q.roundDown-over", d << " gave " << lo2);
	VF_CHECK(ge(hi2, a) && hi2 >= hi && !(std::isfinite(hi2) && Q(hi2) == a), "q.roundUp-over", d << " gave " << hi2);
	double x = carl::toDouble(a);
	if (std::isfinite(x) && std::isfinite(lo) && std::isfinite(hi) && Q(x) == a) VF_CHECK(lo == x && hi == x, "q.round-exact", d << " gave " << lo << " " << hi);
	if (std::isfinite(lo) && std::isfinite(hi)) { // not more than a few doubles apart
		int n = 0; double y = lo; while (y < hi && n < 8) { y = std::nextafter(y, INFINITY); ++n; }
		VF_CHECK(n < 8, "q.round-width", d << " gave " << lo << " " << hi);
		VF_CHECK(lo <= x && x <= hi, "q.toDouble-between", d << " gave " << x);
	}
}
static void rational_case(vf::Rng& r) {
	Q a = vf::gen_mpq(r), b = vf::gen_mpq(r);
	if (r.chance(1, 5)) { Q s = vf::gen_mpq(r); a = s * s; }
	if (r.chance(1, 8)) a = Q(vf::gen_mpz(r)) / 2;
	if (r.chance(1, 10)) b = r.coin() ? a : Q(-a);
	std::string d = a.get_str() + " , " + b.get_str();
	vf::note(d); vf::observe(d); vf::op("rational");
	const Z n = a.get_num(), den = a.get_den();
	VF_CHECK(carl::isZero(a) == (n == 0) && carl::is_zero(a) == (n == 0), "q.isZero", d);
	VF_CHECK(carl::isOne(a) == (n == den) && carl::is_one(a) == (n == den), "q.isOne", d);
	VF_CHECK(carl::isPositive(a) == (n > 0) && carl::isNegative(a) == (n < 0), "q.sign", d);
	VF_CHECK(carl::getNum(a) == n && carl::getDenom(a) == den, "q.num-den", d);
	VF_CHECK(carl::isInteger(a) == (den == 1), "q.isInteger", d);
	VF_CHECK(carl::bitsize(a) == carl::bitsize(n) + carl::bitsize(den), "q.bitsize", d);
	VF_CHECK(carl::abs(a) == (n < 0 ? Q(-a) : a) && canonical(carl::abs(a)), "q.abs", d);
	Z f = carl::floor(a), c = carl::ceil(a), ro = carl::round(a);
	VF_CHECK(Q(f) <= a && a < Q(f + 1), "q.floor", d << " gave " << f);
	VF_CHECK(Q(c) >= a && a > Q(c - 1), "q.ceil", d << " gave " << c);
	{ Q e = Q(ro) - a; VF_CHECK(e <= Q(1, 2) && e >= Q(-1, 2), "q.round", d << " gave " << ro); }
	Q g = carl::gcd(a, b), l = carl::lcm(a, b);
	{
		// g generates the same additive group as a and b
		bool ok = canonical(g) && g >= 0;
		if (a == 0 && b == 0) ok = ok && g == 0;
		else {
			ok = ok && g > 0;
			if (ok) { Q x = Q(a / g), y = Q(b / g); ok = x.get_den() == 1 && y.get_den() == 1 && egcd(x.get_num(), y.get_num()) == 1; }
		}
		VF_CHECK(ok, "q.gcd", d << " gave " << g);
		Q x = a; carl::gcd_assign(x, b); VF_CHECK(x == g, "q.gcd_assign", d);
		bool okl = canonical(l) && l >= 0;
		if (a == 0 || b == 0) okl = okl && l == 0;
		else if (okl) { okl = l > 0; if (okl) { Q x2 = Q(l / a), y2 = Q(l / b); okl = x2.get_den() == 1 && y2.get_den() == 1 && egcd(x2.get_num(), y2.get_num()) == 1; } }
		VF_CHECK(okl, "q.lcm", d << " gave " << l);
	}
	if (b != 0) {
		Q q = carl::quotient(a, b);
		VF_CHECK(q * b == a && canonical(q), "q.quotient", d << " gave " << q);
		VF_CHECK(carl::div(a, b) * b == a, "q.div", d);
		Q x = a; carl::div_assign(x, b); VF_CHECK(x * b == a, "q.div_assign", d);
		Q y = carl::reciprocal(b);
		VF_CHECK(y * b == 1 && canonical(y), "q.reciprocal", d << " gave " << y);
	}
	unsigned long e = r.below(9);
	VF_CHECK(carl::pow(a, e) == qp(a, e) && canonical(carl::pow(a, e)), "q.pow", d << "^" << e);
	{ Q x = a; carl::pow_assign(x, e); VF_CHECK(x == qp(a, e), "q.pow_assign", d << "^" << e); }
	{
		Q root = -7; bool ok = carl::sqrt_exact(a, root);
		bool want = n >= 0 && mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(den.get_mpz_t());
		VF_CHECK(ok == want, "q.sqrt_exact-verdict", d);
		if (ok) VF_CHECK(root * root == a && root >= 0 && canonical(root), "q.sqrt_exact", d << " gave " << root);
	}
	if (a > 0) {
		auto p = carl::sqrt_safe(a);
		VF_CHECK(p.first >= 0 && p.first * p.first <= a && p.second * p.second >= a && p.second > 0, "q.sqrt_safe", d << " gave " << p.first << " " << p.second);
		Q s = carl::sqrt(a);
		VF_CHECK(s >= p.first && s <= p.second, "q.sqrt", d << " gave " << s);
		unsigned k = 1 + static_cast<unsigned>(r.below(6));
		auto p2 = carl::root_safe(a, k);
		VF_CHECK(p2.first >= 0 && qp(p2.first, k) <= a && qp(p2.second, k) >= a, "q.root_safe", d << " root " << k << " gave " << p2.first << " " << p2.second);
	}
	if (a >= 0) {
		auto p = carl::sqrt_fast(a);
		VF_CHECK(p.first >= 0 && p.first * p.first <= a && p.second * p.second >= a && p.second >= 0, "q.sqrt_fast", d << " gave " << p.first << " " << p.second);
		if (p.first == p.second) VF_CHECK(p.first * p.first == a, "q.sqrt_fast-exact", d);
		Q root; if (carl::sqrt_exact(a, root)) VF_CHECK(p.first == root && p.second == root, "q.sqrt_fast-exact", d);
	}
	check_double_bounds(a, d);
	std::stringstream ss; ss << a;
	VF_CHECK(carl::parse<Q>(ss.str()) == a, "q.parse-printed", d << " gave " << carl::parse<Q>(ss.str()));
	if (a >= 0) VF_CHECK(carl::parse<Q>(carl::toString(a)) == a, "q.toString-parse", d);
	{
		std::string p = zabs(n).get_str(); if (den != 1) p = "(/ " + p + " " + den.get_str() + ")"; if (a < 0) p = "(- " + p + ")";
		VF_CHECK(carl::toString(a, false) == p, "q.toString-prefix", d << " gave " << carl::toString(a, false));
	}
	VF_CHECK((carl::convert<Q, double>(a)) == carl::toDouble(a), "q.convert-double", d);
	// rational "float" wrapper
	FQ fa(a), fb(b), res;
	VF_CHECK((fa + fb).value() == a + b && (fa - fb).value() == a - b && (fa * fb).value() == a * b && (-fa).value() == -a, "fq.arith", d);
	VF_CHECK(fa.add(res, fb).value() == a + b && fa.sub(res, fb).value() == a - b && fa.mul(res, fb).value() == a * b, "fq.arith-result", d);
	{ FQ x(fa), y(fa), z(fa); x += fb; y -= fb; z *= fb; VF_CHECK(x.value() == a + b && y.value() == a - b && z.value() == a * b, "fq.arith-inplace", d); }
	{ FQ x(fa), y(fa), z(fa); x.add_assign(fb); y.sub_assign(fb); z.mul_assign(fb); VF_CHECK(x.value() == a + b && y.value() == a - b && z.value() == a * b, "fq.arith-assign", d); }
	if (b != 0) { FQ x(fa); x /= fb; FQ y(fa); y.div_assign(fb); VF_CHECK((fa / fb).value() * b == a && x.value() * b == a && y.value() * b == a, "fq.div", d); }
	VF_CHECK((fa == fb) == (a == b) && (fa != fb) == (a != b) && (fa < fb) == (a < b) && (fa > fb) == (a > b) && (fa <= fb) == (a <= b) && (fa >= fb) == (a >= b), "fq.compare", d);
	VF_CHECK(carl::abs(fa).value() == carl::abs(a) && carl::floor(fa).value() == Q(f) && carl::ceil(fa).value() == Q(c), "fq.round", d);
	VF_CHECK(fa.pow(res, e).value() == qp(a, e), "fq.pow", d);
	VF_CHECK(carl::getNum(fa) == n && carl::getDenom(fa) == den && carl::isZero(fa) == (a == 0) && carl::isInteger(fa) == (den == 1), "fq.info", d);
}
static void double_case(vf::Rng& r) {
	double x;
	switch (r.below(5)) {
	case 0: { uint64_t b = r.next(); std::memcpy(&x, &b, 8); if (!std::isfinite(x)) x = 1.5; break; }
	case 1: x = static_cast<double>(r.range(-1000, 1000)) / 16; break;
	case 2: x = std::ldexp(static_cast<double>(r.range(-100000, 100000)), static_cast<int>(r.range(-1080, 1000))); break;
	case 3: { const double e[] = {0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9e-324, -4.9e-324, 1.0, -1.0, 0.1}; x = e[r.below(11)]; break; }
	default: x = static_cast<double>(r.next()) / static_cast<double>(1ull << 40);
	}
	if (!std::isfinite(x)) x = 0.25;
	std::ostringstream o; o.precision(20); o << x; std::string d = o.str();
	vf::note(d); vf::observe(d); vf::op("double");
	// exact value from mantissa and exponent
	int ex; double m = std::frexp(x, &ex); long mi = static_cast<long>(std::ldexp(m, 53)); ex -= 53;
	Q want = ex >= 0 ? Q(Z(mi) * ipow(Z(2), static_cast<unsigned long>(ex))) : Q(Z(mi)) / Q(ipow(Z(2), static_cast<unsigned long>(-ex)));
	VF_CHECK(carl::rationalize<Q>(x) == want, "q.rationalize-double", d << " gave " << carl::rationalize<Q>(x));
	VF_CHECK((carl::convert<double, Q>(x)) == want, "q.convert-from-double", d);
	float fx = static_cast<float>(x);
	if (std::isfinite(fx)) VF_CHECK(carl::rationalize<Q>(fx) == carl::rationalize<Q>(static_cast<double>(fx)), "q.rationalize-float", d);
	VF_CHECK(carl::toDouble(want) == x, "q.toDouble-exact", d << " gave " << carl::toDouble(want));
	check_double_bounds(want, d);
	Q eps = Q(vf::gen_q(r)) / Q(ipow(Z(2), 60 + r.below(1100)));
	check_double_bounds(want + eps, d + " + " + eps.get_str());
	VF_CHECK(carl::isInteger(x) == (want.get_den() == 1), "d.isInteger", d);
	VF_CHECK(Q(carl::floor(x)) == Q(carl::floor(want)), "d.floor", d); VF_CHECK(Q(carl::ceil(x)) == Q(carl::ceil(want)), "d.ceil", d);
	VF_CHECK(carl::isZero(x) == (want == 0) && carl::isPositive(x) == (want > 0) && carl::isNegative(x) == (want < 0), "d.sign", d);
}
static void native_case(vf::Rng& r) {
	carl::sint a = r.coin() ? r.range(-100, 100) : static_cast<carl::sint>(r.next()), b = r.coin() ? r.range(-100, 100) : static_cast<carl::sint>(r.next());
	if (b == 0) b = 3;
	if (b == -1 && a == std::numeric_limits<long>::min()) a = 5;
	std::string d = std::to_string(a) + "," + std::to_string(b);
	vf::note(d); vf::observe(d); vf::op("native");
	carl::sint q = carl::quotient(a, b), m = carl::mod(a, b);
	VF_CHECK(Z(q) * Z(b) + Z(m) == Z(a) && zabs(Z(m)) < zabs(Z(b)) && (m == 0 || (m < 0) == (a < 0)), "n.quotient-mod", d);
	VF_CHECK(carl::remainder(a, b) == m, "n.remainder", d);
	carl::sint q2, r2; carl::divide(a, b, q2, r2);
	VF_CHECK(q2 == q && r2 == m, "n.divide", d);
	// agreement of native and big-integer division
	VF_CHECK(carl::quotient(Z(a), Z(b)) == Z(q) && carl::mod(Z(a), Z(b)) == Z(m), "n.agrees-with-mpz", d);
	auto ua = static_cast<carl::uint>(a), ub = static_cast<carl::uint>(b);
	VF_CHECK(Z(carl::mod(ua, ub)) == Z(ua) % Z(ub), "n.umod", d);
	if (ua) {
		carl::uint h = carl::highestPower(ua);
		VF_CHECK(Z(h) <= Z(ua) && Z(ua) < Z(h) * 2 && (h & (h - 1)) == 0, "n.highestPower", d << " gave " << h);
		unsigned u32 = static_cast<unsigned>(ua); if (u32) { unsigned h32 = carl::highestPower(u32); VF_CHECK(h32 <= u32 && uint64_t(u32) < uint64_t(h32) * 2 && (h32 & (h32 - 1)) == 0, "n.highestPower32", d); }
	}
}
// ---- parsing: an independent recogniser for the documented syntax
struct P {
	const std::string& s; size_t i = 0;
	explicit P(const std::string& t) : s(t) {}
	void sp() { while (i < s.size() && isspace(static_cast<unsigned char>(s[i]))) ++i; }
	bool digits(std::string& o) { size_t b = i; while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) o += s[i++]; return i > b; }
	bool number(Q& v, bool& has_frac) {
		bool neg = false;
		has_frac = false;
		if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
		std::string a, f;
		bool ha = digits(a), hf = false;
		if (i < s.size() && s[i] == '.') { size_t save = i++; hf = digits(f); if (!ha && !hf) { i = save; return false; } }
		if (!ha && !hf) return false;
		v = Q(Z(a.empty() ? "0" : a, 10)) + (f.empty() ? Q(0) : Q(Z(f, 10)) / Q(ipow(Z(10), f.size())));
		if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
			size_t save = i++;
			bool en = false;
			if (i < s.size() && (s[i] == '-' || s[i] == '+')) en = s[i++] == '-';
			std::string e;
			if (!digits(e)) { i = save; }
			else { unsigned long k = std::stoul(e); Q sc = Q(ipow(Z(10), k)); v = en ? Q(v / sc) : Q(v * sc); }
		}
		if (neg) v = -v;
		if (v.get_den() != 1) has_frac = true;
		return true;
	}
};
static bool ref_rational(const std::string& s, Q& v) {
	P p(s); bool fr; p.sp();
	if (!p.number(v, fr)) return false;
	p.sp();
	if (p.i < s.size() && s[p.i] == '/') { ++p.i; p.sp(); Q w; if (!p.number(w, fr)) return false; if (w == 0) return false; v = v / w; p.sp(); }
	return p.i == s.size();
}
static std::string gen_num(vf::Rng& r) {
	std::string s;
	if (r.chance(1, 3)) s += r.chance(1, 4) ? "+" : "-";
	auto dg = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) t += static_cast<char>('0' + (r.chance(1, 4) ? 0 : r.below(10))); return t; };
	s += r.chance(1, 8) ? "" : dg(1 + r.below(r.chance(1, 8) ? 60 : 5));
	if (r.chance(1, 2)) s += "." + (r.chance(1, 6) ? "" : dg(1 + r.below(r.chance(1, 8) ? 40 : 4)));
	if (r.chance(1, 4)) { s += r.coin() ? "e" : "E"; if (r.coin()) s += r.coin() ? "-" : "+"; s += std::to_string(r.below(r.chance(1, 5) ? 40 : 6)); }
	return s;
}
static void parse_case(vf::Rng& r) {
	std::string s = gen_num(r);
	if (r.chance(1, 3)) { if (r.chance(1, 5)) s += " "; s += "/"; if (r.chance(1, 5)) s += " "; s += r.chance(1, 12) ? "0" : gen_num(r); }
	if (r.chance(1, 4)) { // damage it
		static const std::string junk = "0123456789+-./eE x:,(_";
		size_t k = 1 + r.below(2);
		for (size_t i = 0; i < k; ++i) switch (r.below(3)) {
			case 0: s.insert(r.below(s.size() + 1), 1, junk[r.below(junk.size())]); break;
			case 1: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
			default: if (!s.empty()) s[r.below(s.size())] = junk[r.below(junk.size())];
		}
	}
	// keep exponents printable
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == 'e' || s[i] == 'E') { size_t j = i + 1; if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j; size_t k = j; while (k < s.size() && isdigit(static_cast<unsigned char>(s[k]))) ++k; if (k - j > 2) s.erase(j + 2, k - j - 2); }
	std::string d = "\"" + s + "\"";
	vf::note(d); vf::observe(d); vf::op("parse");
	Q want; bool ok = ref_rational(s, want);
	Q got; bool gok = carl::try_parse<Q>(s, got);
	VF_CHECK(gok == ok, "q.try_parse-verdict", d << " accepted " << gok << " value " << got);
	if (gok && ok) { VF_CHECK(got == want && canonical(got), "q.try_parse", d << " gave " << got << " expected " << want); VF_CHECK(carl::parse<Q>(s) == want, "q.parse", d); }
	// integers: no spaces, no slash, integral value
	P p(s); bool fr; Q w; bool wellformed = p.number(w, fr) && p.i == s.size();
	Z zg; 
	if (!(s.find('e') != std::string::npos || s.find('E') != std::string::npos)) {
		bool zok = carl::try_parse<Z>(s, zg);
		if (zok) VF_CHECK(wellformed && w.get_den() == 1 && Q(zg) == w, "z.try_parse", d << " gave " << zg);
		if (wellformed && s.find('.') == std::string::npos) VF_CHECK(zok, "z.try_parse-verdict", d);
	}
}
int main(int argc, char** argv) {
	vf::add_group("integer", 60000, 2000000, integer_case);
	vf::add_group("rational", 60000, 2000000, rational_case);
	vf::add_group("double", 40000, 1000000, double_case);
	vf::add_group("native", 40000, 1000000, native_case);
	vf::add_group("parse", 60000, 2000000, parse_case);
	return vf::run(argc, argv);
}
