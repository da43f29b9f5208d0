// C12: interval operations against exact point sets.
#include <ri.h>
#include <cfenv>
#include <carl/interval/exponential.h>
#include <carl/interval/power.h>
#include <carl/interval/trigonometric.h>

using namespace ri;
using carl::BoundType;
using QI = carl::Interval<mpq_class>;
using DI = carl::Interval<double>;

static std::string show(const QI& i) { return vf::str(i); }
static std::string show(const DI& i) { std::ostringstream o; o.precision(17); o << i; return o.str(); }

/// result must denote exactly the set
static void exact(const char* op, const QI& got, const RI& want, const std::string& in) {
	vf::op(op);
	VF_CHECK(of(got) == want, std::string("ival.q.") + op, in << " gives " << show(got) << ", exact hull " << want);
}
/// result must contain the set
template<typename N>
static void sound(const char* op, const carl::Interval<N>& got, const RI& want, const std::string& in) {
	vf::op(op);
	VF_CHECK(subset(want, of(got)), std::string(std::is_same<N, double>::value ? "ival.d." : "ival.q.") + op, in << " gives " << show(got) << ", loses points of " << want);
}

// ---- rational ----------------------------------------------------------------
static void quotients(const QI& x, const RI& a, const QI& y, const RI& b, vf::Rng& r, const std::string& in) {
	auto pa = points(a, r), pb = points(b, r);
	if (!b.has(0) && !b.empty) {
		QI q = x.div(y);
		vf::op("div");
		RI want = hull(mul(a, recip_sign(pos(b))), mul(a, recip_sign(negp(b))));
		VF_CHECK(subset(want, of(q)), "ival.q.div", in << ": quotient " << show(q) << " loses points of " << want);
		RI g = of(q);
		VF_CHECK(g.linf == want.linf && g.uinf == want.uinf && (want.linf || g.lo == want.lo) && (want.uinf || g.hi == want.hi), "ival.q.div:bounds", in << ": quotient " << show(q) << " for hull " << want);
		QI z = x;
		z.div_assign(y);
		VF_CHECK(of(z) == g, "ival.q.div_assign", in);
		VF_CHECK(of(carl::quotient(x, y)) == g && of(carl::div(x, y)) == g, "ival.q.quotient", in);
	}
	{
		QI u = QI(mpq_class(77)), v = QI(mpq_class(77));
		bool two = x.div_ext(y, u, v);
		vf::op(two ? "div_ext-split" : "div_ext");
		RI ru = of(u), rv = two ? of(v) : RI();
		for (auto& p : pa) for (auto& q : pb) if (q != 0) {
			Q s = p / q;
			if (!VF_CHECK(ru.has(s) || rv.has(s), "ival.q.div_ext", in << ": " << p << "/" << q << " not in " << ru << " u " << rv)) break;
		}
	}
	{
		QI u = QI(mpq_class(77)), v = QI(mpq_class(77));
		bool two = y.reciprocal(u, v);
		vf::op(two ? "reciprocal-split" : "reciprocal");
		RI ru = of(u), rv = two ? of(v) : RI();
		for (auto& q : pb) if (q != 0) {
			if (!VF_CHECK(ru.has(1 / q) || rv.has(1 / q), "ival.q.reciprocal", in << ": 1/" << q << " not in " << ru << " u " << rv)) break;
		}
	}
}
static void unary(const QI& x, const RI& a, vf::Rng& r) {
	std::string in = a.str();
	exact("inverse", x.inverse(), neg(a), in);
	exact("minus", -x, neg(a), in);
	{ QI z = x; z.inverse_assign(); exact("inverse_assign", z, neg(a), in); }
	exact("abs", x.abs(), abs(a), in);
	exact("abs", carl::abs(x), abs(a), in);
	{ QI z = x; z.abs_assign(); exact("abs_assign", z, abs(a), in); }
	for (unsigned n = 0; n <= 6; ++n) {
		std::string inn = in + " ^ " + std::to_string(n);
		exact("pow", carl::pow(x, n), pow(a, n), inn);
		QI z = x;
		carl::pow_assign(z, n);
		exact("pow_assign", z, pow(a, n), inn);
	}
	exact("integralPart", x.integralPart(), integers(a), in);
	{ QI z = x; z.integralPart_assign(); exact("integralPart_assign", z, integers(a), in); }
	VF_CHECK(x.containsInteger() == !integers(a).empty, "ival.q.containsInteger", in << " reported " << x.containsInteger());
	{
		QI f = carl::floor(x), c = carl::ceil(x);
		RI rf = of(f), rc = of(c);
		vf::op("floor/ceil");
		for (auto& p : points(a, r)) {
			VF_CHECK(rf.has(qfloor(p)), "ival.q.floor", in << ": floor of " << p << " not in " << show(f));
			VF_CHECK(rc.has(qceil(p)), "ival.q.ceil", in << ": ceil of " << p << " not in " << show(c));
		}
		if (a.empty) VF_CHECK(rf.empty && rc.empty, "ival.q.floor:empty", show(f) << show(c));
		else {
			VF_CHECK(rf.linf == a.linf && rc.linf == a.linf && rf.uinf == a.uinf && rc.uinf == a.uinf && (a.linf || rf.lo >= qfloor(a.lo)) && (a.uinf || (rf.hi <= qfloor(a.hi) && rc.hi <= qceil(a.hi))), "ival.q.floor:loose", in << ": " << show(f) << show(c));
		}
	}
}
static void scalar(const QI& x, const RI& a, const mpq_class& n) {
	RI p = make(n, 1, n, 1);
	std::string in = a.str() + " and number " + n.get_str();
	exact("+n", x + n, add(a, p), in);
	exact("+n", n + x, add(a, p), in);
	exact("-n", x - n, add(a, neg(p)), in);
	exact("n-", n - x, add(neg(a), p), in);
	exact("*n", x * n, mul(a, p), in);
	exact("*n", n * x, mul(a, p), in);
	{ QI z = x; z += n; exact("+=n", z, add(a, p), in); }
	{ QI z = x; z -= n; exact("-=n", z, add(a, neg(p)), in); }
	{ QI z = x; z *= n; exact("*=n", z, mul(a, p), in); }
	if (n != 0) {
		RI ip = make(1 / n, 1, 1 / n, 1);
		exact("/n", x / n, mul(a, ip), in);
		QI z = x;
		z /= n;
		exact("/=n", z, mul(a, ip), in);
	}
}
static void binary(const QI& x, const RI& a, const QI& y, const RI& b, vf::Rng& r) {
	std::string in = a.str() + " and " + b.str();
	exact("add", x.add(y), add(a, b), in);
	exact("sub", x.sub(y), add(a, neg(b)), in);
	exact("mul", x.mul(y), mul(a, b), in);
	exact("+", x + y, add(a, b), in);
	exact("-", x - y, add(a, neg(b)), in);
	exact("*", x * y, mul(a, b), in);
	{ QI z = x; z += y; exact("+=", z, add(a, b), in); z = x; z -= y; exact("-=", z, add(a, neg(b)), in); z = x; z *= y; exact("*=", z, mul(a, b), in); }
	{ QI z = x; z.add_assign(y); exact("add_assign", z, add(a, b), in); z = x; z.sub_assign(y); exact("sub_assign", z, add(a, neg(b)), in); z = x; z.mul_assign(y); exact("mul_assign", z, mul(a, b), in); }
	quotients(x, a, y, b, r, in);
}
static void g_qbin(vf::Rng& r) {
	RI a = gen(r), b = gen(r);
	QI x = lib<mpq_class>(a), y = lib<mpq_class>(b);
	vf::note("rational " + a.str() + " and " + b.str());
	vf::observe(a.str() + b.str());
	binary(x, a, y, b, r);
}
static void g_qun(vf::Rng& r) {
	RI a = gen(r);
	QI x = lib<mpq_class>(a);
	vf::note("rational unary " + a.str());
	vf::observe(a.str());
	unary(x, a, r);
	scalar(x, a, r.chance(1, 5) ? mpq_class(0) : vf::gen_q(r));
}
/// programs: intervals produced by one operation are operands of the next
static void g_qprog(vf::Rng& r) {
	std::vector<RI> m(4);
	std::vector<QI> c(4);
	std::string log;
	for (size_t i = 0; i < 4; ++i) { m[i] = gen(r); c[i] = lib<mpq_class>(m[i]); log += m[i].str() + "; "; }
	auto small = [](const RI& a) { return mpz_sizeinbase(a.lo.get_num_mpz_t(), 2) < 200 && mpz_sizeinbase(a.hi.get_num_mpz_t(), 2) < 200; };
	for (int step = 0; step < 14; ++step) {
		size_t i = r.below(4), j = r.below(4), k = r.below(4);
		mpq_class n = vf::gen_q(r, 5, 3);
		RI w;
		QI g;
		int o = static_cast<int>(r.below(17));
		log += "r" + std::to_string(k) + "=op" + std::to_string(o) + "(r" + std::to_string(i) + ",r" + std::to_string(j) + "," + n.get_str() + "); ";
		vf::note(log);
		switch (o) {
		case 0: w = add(m[i], m[j]); g = c[i] + c[j]; break;
		case 1: w = add(m[i], neg(m[j])); g = c[i] - c[j]; break;
		case 2: w = mul(m[i], m[j]); g = c[i] * c[j]; break;
		case 3: w = mul(m[i], make(n, 1, n, 1)); g = c[i]; g *= n; break;
		case 4: w = add(m[i], make(n, 1, n, 1)); g = c[i]; g += n; break;
		case 5: w = abs(m[i]); g = c[i].abs(); break;
		case 6: { unsigned e = static_cast<unsigned>(r.below(4)); w = pow(m[i], e); g = carl::pow(c[i], e); break; }
		case 7: w = neg(m[i]); g = -c[i]; break;
		case 8: { // widen
			if (m[i].empty || n < 0) continue;
			w = m[i];
			if (!w.linf) w.lo -= n;
			if (!w.uinf) w.hi += n;
			g = c[i];
			g.bloat_by(n);
			break; }
		case 9: { // narrow
			if (m[i].empty || n < 0 || (m[i].bounded() && m[i].hi - m[i].lo < 2 * n)) continue;
			w = m[i];
			if (!w.linf) w.lo += n;
			if (!w.uinf) w.hi -= n;
			w.norm();
			g = c[i];
			g.shrink_by(n);
			break; }
		case 10: { // new lower bound
			if (m[i].empty || (!m[i].uinf && n > m[i].hi)) continue;
			int t = static_cast<int>(r.below(3));
			w = make(n, t, m[i].hi, m[i].uinf ? 2 : !m[i].uopen);
			g = c[i];
			g.setLowerBound(n, static_cast<BoundType>(t));
			break; }
		case 11: {
			if (m[i].empty || (!m[i].linf && n < m[i].lo)) continue;
			int t = static_cast<int>(r.below(3));
			w = make(m[i].lo, m[i].linf ? 2 : !m[i].lopen, n, t);
			g = c[i];
			g.setUpperBound(n, static_cast<BoundType>(t));
			break; }
		case 12: {
			if (m[i].empty || m[i].linf) continue;
			int t = static_cast<int>(r.below(3));
			w = make(m[i].lo, t, m[i].hi, m[i].uinf ? 2 : !m[i].uopen);
			g = c[i];
			g.setLowerBoundType(static_cast<BoundType>(t));
			break; }
		case 13: {
			if (m[i].empty || m[i].uinf) continue;
			int t = static_cast<int>(r.below(3));
			w = make(m[i].lo, m[i].linf ? 2 : !m[i].lopen, m[i].hi, t);
			g = c[i];
			g.setUpperBoundType(static_cast<BoundType>(t));
			break; }
		case 14: w = integers(m[i]); g = c[i].integralPart(); break;
		case 15: {
			if (n == 0) continue;
			w = mul(m[i], make(1 / n, 1, 1 / n, 1));
			g = c[i] / n;
			break; }
		case 16: w = hull(m[i], m[j]); g = c[i].convexHull(c[j]); break;
		}
		vf::op("prog" + std::to_string(o));
		if (!VF_CHECK(of(g) == w, "ival.prog:op" + std::to_string(o), log << " gives " << show(g) << ", expected " << w)) return;
		if (!small(w)) return;
		m[k] = w;
		c[k] = g;
		if (r.chance(1, 4)) quotients(c[i], m[i], c[k], m[k], r, log);
	}
	vf::observe(log);
}
// ---- construction and conversion -------------------------------------------------
static double gen_d(vf::Rng& r) {
	switch (r.below(8)) {
	case 0: return 0.0;
	case 1: return static_cast<double>(r.range(-3, 3));
	case 2: return static_cast<double>(r.range(-30, 30)) / 10.0;
	case 3: return static_cast<double>(r.range(-100, 100)) / 3.0;
	case 4: return std::ldexp(static_cast<double>(r.range(-3, 3)), static_cast<int>(r.range(-60, 60)));
	case 5: { double x = static_cast<double>(r.range(1, 4)) * (r.coin() ? 1 : -1); return std::nextafter(x, r.coin() ? 1e300 : -1e300); }
	case 6: { // full mantissas
		double x = std::ldexp(static_cast<double>(r.next() >> 11), static_cast<int>(r.range(-70, -30)));
		return r.coin() ? x : -x; }
	default: { double x = std::ldexp(static_cast<double>(r.next() >> 11), -53); return r.coin() ? x : -x; }
	}
}
static RI gen_dri(vf::Rng& r) { return gen(r, [](vf::Rng& q) { return Q(gen_d(q)); }); }
/// bounds of the result are at most a few units in the last place outside the exact ones
static bool tight(const DI& got, const RI& want) {
	RI g = of(got);
	if (want.empty || g.empty) return want.empty == g.empty;
	auto near = [](const Q& x, const Q& y) {
		Q d = x > y ? x - y : y - x, m = y < 0 ? Q(-y) : y;
		return d <= m * Q(1, mpz_class(1) << 49) || d <= Q(1, mpz_class(1) << 900);
	};
	if (g.linf != want.linf || g.uinf != want.uinf) return false;
	return (want.linf || near(g.lo, want.lo)) && (want.uinf || near(g.hi, want.hi));
}
static bool sqrt_ok(const RI& g, const RI& dom) {
	if (g.empty) return dom.empty;
	if (!g.linf && !(g.lo < 0 || g.lo * g.lo <= dom.lo)) return false;
	return g.uinf || (g.hi >= 0 && g.hi * g.hi >= dom.hi);
}
static void g_ctor(vf::Rng& r) {
	auto bt = [](int t) { return static_cast<BoundType>(t); };
	int lt = static_cast<int>(r.below(3)), ut = static_cast<int>(r.below(3));
	Q lo = r.coin() ? vf::gen_q(r, 9, 9) : vf::gen_mpq(r), hi = r.chance(1, 4) ? lo : r.coin() ? vf::gen_q(r, 9, 9) : vf::gen_mpq(r);
	std::string in = lo.get_str() + "/" + std::to_string(lt) + " .. " + hi.get_str() + "/" + std::to_string(ut);
	vf::note(in);
	vf::observe(in);
	RI w = make(lo, lt, hi, ut);
	exact("ctor", QI(lo, bt(lt), hi, bt(ut)), w, in);
	exact("ctor-point", QI(lo), make(lo, 1, lo, 1), in);
	exact("ctor-weak", QI(lo, hi), make(lo, 1, hi, 1), in);
	if (lo <= hi) exact("ctor-boost", QI(QI::BoostInterval(lo, hi), bt(lt), bt(ut)), w, in);
	{
		int a = static_cast<int>(r.range(-4, 4)), b = static_cast<int>(r.range(-4, 4));
		std::string ini = std::to_string(a) + "/" + std::to_string(lt) + " .. " + std::to_string(b) + "/" + std::to_string(ut);
		exact("ctor-int", QI(a, bt(lt), b, bt(ut)), make(a, lt, b, ut), ini);
		exact("ctor-int-weak", QI(a, b), make(a, 1, b, 1), ini);
		exact("ctor-int-point", QI(a), make(a, 1, a, 1), ini);
		VF_CHECK(of(DI(a, bt(lt), b, bt(ut))) == make(a, lt, b, ut), "ival.d.ctor-int", ini);
		VF_CHECK(of(DI(a, b)) == make(a, 1, b, 1), "ival.d.ctor-int-weak", ini);
	}
	{
		double a = gen_d(r), b = r.chance(1, 4) ? a : gen_d(r);
		std::string ind = vf::str(a) + "/" + std::to_string(lt) + " .. " + vf::str(b) + "/" + std::to_string(ut);
		RI wd = make(Q(a), lt, Q(b), ut);
		VF_CHECK(of(DI(a, bt(lt), b, bt(ut))) == wd, "ival.d.ctor", ind);
		VF_CHECK(of(DI(a, b)) == make(Q(a), 1, Q(b), 1), "ival.d.ctor-weak", ind);
		VF_CHECK(of(DI(a)) == make(Q(a), 1, Q(a), 1), "ival.d.ctor-point", ind);
		sound("from-double", QI(a, bt(lt), b, bt(ut)), wd, ind);
		sound("from-double-interval", QI(DI(a, bt(lt), b, bt(ut))), wd, ind);
	}
	if (abs(lo) < Q(mpz_class(1) << 200) && abs(hi) < Q(mpz_class(1) << 200)) {
		DI d(lo, bt(lt), hi, bt(ut));
		sound("from-rational", d, w, in);
		VF_CHECK(tight(d, w), "ival.d.from-rational:loose", in << " gives " << show(d));
		sound("from-rational-interval", DI(QI(lo, bt(lt), hi, bt(ut))), w, in);
		sound("from-rational-weak", DI(lo, hi), make(lo, 1, hi, 1), in);
		sound("from-rational-point", DI(lo), make(lo, 1, lo, 1), in);
	}
}
// ---- floating point ----------------------------------------------------------------
static void rounding(const std::string& in) {
	VF_CHECK(fegetround() == FE_TONEAREST, "ival.d.rounding-mode", in << " left the floating point unit in rounding mode " << fegetround());
	fesetround(FE_TONEAREST);
}
static void d_check(const char* op, const DI& got, const RI& want, const std::string& in) {
	rounding(in);
	sound(op, got, want, in);
	VF_CHECK(tight(got, want), std::string("ival.d.") + op + ":loose", in << " gives " << show(got) << " for hull " << want);
}
static void g_dbin(vf::Rng& r) {
	RI a = gen_dri(r), b = gen_dri(r);
	DI x = lib<double>(a), y = lib<double>(b);
	std::string in = show(x) + " and " + show(y);
	vf::note("double " + in);
	vf::observe(in);
	d_check("add", x + y, add(a, b), in);
	d_check("sub", x - y, add(a, neg(b)), in);
	d_check("mul", x * y, mul(a, b), in);
	{ DI z = x; z += y; d_check("+=", z, add(a, b), in); z = x; z -= y; d_check("-=", z, add(a, neg(b)), in); z = x; z *= y; d_check("*=", z, mul(a, b), in); }
	auto pa = points(a, r), pb = points(b, r);
	if (!b.empty && !b.has(0)) {
		DI q = x.div(y);
		d_check("div", q, hull(mul(a, recip_sign(pos(b))), mul(a, recip_sign(negp(b)))), in);
	}
	{
		DI u(77.0), v(77.0);
		bool two = x.div_ext(y, u, v);
		vf::op("d.div_ext");
		RI ru = of(u), rv = two ? of(v) : RI();
		for (auto& p : pa) for (auto& q : pb) if (q != 0) {
			if (!VF_CHECK(ru.has(p / q) || rv.has(p / q), "ival.d.div_ext", in << ": " << p << "/" << q << " not in " << show(u) << " u " << show(v))) break;
		}
	}
	{
		DI u(77.0), v(77.0);
		bool two = y.reciprocal(u, v);
		RI ru = of(u), rv = two ? of(v) : RI();
		for (auto& q : pb) if (q != 0) {
			if (!VF_CHECK(ru.has(1 / q) || rv.has(1 / q), "ival.d.reciprocal", in << ": 1/" << q << " not in " << show(u) << " u " << show(v))) break;
		}
	}
	double n = gen_d(r);
	RI p = make(Q(n), 1, Q(n), 1);
	std::string inn = in + " number " + vf::str(n);
	d_check("+n", x + n, add(a, p), inn);
	d_check("-n", x - n, add(a, neg(p)), inn);
	d_check("n-", n - x, add(neg(a), p), inn);
	d_check("*n", x * n, mul(a, p), inn);
	{ DI z = x; z += n; d_check("+=n", z, add(a, p), inn); z = x; z -= n; d_check("-=n", z, add(a, neg(p)), inn); z = x; z *= n; d_check("*=n", z, mul(a, p), inn); }
	if (n != 0) { RI ip = make(1 / Q(n), 1, 1 / Q(n), 1); d_check("/n", x / n, mul(a, ip), inn); DI z = x; z /= n; d_check("/=n", z, mul(a, ip), inn); }
}
static void g_dun(vf::Rng& r) {
	RI a = gen_dri(r);
	DI x = lib<double>(a);
	std::string in = show(x);
	vf::note("double unary " + in);
	vf::observe(in);
	d_check("inverse", x.inverse(), neg(a), in);
	d_check("abs", x.abs(), abs(a), in);
	for (unsigned n = 0; n <= 5; ++n) d_check("pow", carl::pow(x, n), pow(a, n), in + " ^ " + std::to_string(n));
	if (std::fabs(x.lower()) < 1e15 && std::fabs(x.upper()) < 1e15) d_check("integralPart", x.integralPart(), integers(a), in);
	// roots: the n-th power of an end must not lie inside the range the root claims to exclude
	for (int deg = 1; deg <= 5; ++deg) {
		if (deg % 2 == 0 && a.empty) continue;
		DI z = x.root(deg);
		RI g = of(z);
		rounding(in);
		vf::op("root");
		RI dom = deg % 2 == 0 ? meet(a, make(0, 1, 0, 2)) : a;
		std::string ind = in + " root " + std::to_string(deg);
		if (dom.empty) { VF_CHECK(g.empty, "ival.d.root:empty", ind << " gives " << show(z)); continue; }
		auto below = [&](const Q& y, const Q& v) { return qpow(y, static_cast<unsigned>(deg)) <= v; }; // y <= root(v) for y in the monotone range
		// lower end of the result must not exceed the root of the lower end of the domain
		if (!g.linf) {
			VF_CHECK(!dom.linf, "ival.d.root", ind << " gives " << show(z));
			if (!dom.linf) {
				bool eq = qpow(g.lo, static_cast<unsigned>(deg)) == dom.lo && (deg % 2 || g.lo >= 0);
				VF_CHECK((deg % 2 == 0 && g.lo < 0) || below(g.lo, dom.lo), "ival.d.root", ind << " gives " << show(z));
				VF_CHECK(!(eq && g.lopen && !dom.lopen), "ival.d.root:type", ind << " gives " << show(z));
			}
		}
		if (!g.uinf) {
			VF_CHECK(!dom.uinf, "ival.d.root", ind << " gives " << show(z));
			if (!dom.uinf) {
				bool eq = qpow(g.hi, static_cast<unsigned>(deg)) == dom.hi;
				VF_CHECK((deg % 2 || g.hi >= 0) && (eq || !below(g.hi, dom.hi)), "ival.d.root", ind << " gives " << show(z));
				VF_CHECK(!(eq && g.uopen && !dom.uopen), "ival.d.root:type", ind << " gives " << show(z));
			}
		}
		DI zz = x;
		zz.root_assign(static_cast<unsigned>(deg));
		VF_CHECK(of(zz) == g, "ival.d.root_assign", ind);
		if (deg == 2) { DI s = carl::sqrt(x); VF_CHECK(of(s).linf == g.linf && of(s).uinf == g.uinf && sqrt_ok(of(s), dom), "ival.d.sqrt", in << " gives " << show(s)); }
	}
}
/// programs over doubles (incl. overflow): every register carries exact points of its interval
static void g_dprog(vf::Rng& r) {
	std::vector<DI> c(4);
	std::vector<std::vector<Q>> p(4);
	std::string log;
	auto big = [](vf::Rng& q) { return Q(q.chance(1, 4) ? std::ldexp(static_cast<double>(q.range(-3, 3)), static_cast<int>(q.range(200, 1000))) : gen_d(q)); };
	for (size_t i = 0; i < 4; ++i) { RI m = gen(r, big); c[i] = lib<double>(m); p[i] = points(m, r, 1); if (p[i].size() > 5) p[i].resize(5); log += show(c[i]) + "; "; }
	for (int step = 0; step < 12; ++step) {
		size_t i = r.below(4), j = r.below(4), k = r.below(4);
		int o = static_cast<int>(r.below(9));
		double n = gen_d(r);
		log += "r" + std::to_string(k) + "=op" + std::to_string(o) + "(r" + std::to_string(i) + ",r" + std::to_string(j) + "," + vf::str(n) + "); ";
		vf::note(log);
		DI g;
		std::vector<Q> np;
		auto zip = [&](const std::function<Q(const Q&, const Q&)>& f) { for (size_t a = 0; a < p[i].size() && !p[j].empty(); ++a) np.push_back(f(p[i][a], p[j][(a + static_cast<size_t>(step)) % p[j].size()])); };
		auto map = [&](const std::function<Q(const Q&)>& f) { for (auto& a : p[i]) np.push_back(f(a)); };
		switch (o) {
		case 0: g = c[i] + c[j]; zip([](const Q& a, const Q& b) { return Q(a + b); }); break;
		case 1: g = c[i] - c[j]; zip([](const Q& a, const Q& b) { return Q(a - b); }); break;
		case 2: g = c[i] * c[j]; zip([](const Q& a, const Q& b) { return Q(a * b); }); break;
		case 3: if (c[j].contains(0.0) || c[j].isEmpty()) continue; g = c[i].div(c[j]); zip([](const Q& a, const Q& b) { return Q(a / b); }); break;
		case 4: g = c[i] * n; map([&](const Q& a) { return Q(a * Q(n)); }); break;
		case 5: g = c[i]; g += n; map([&](const Q& a) { return Q(a + Q(n)); }); break;
		case 6: g = c[i].abs(); map([](const Q& a) { return a < 0 ? Q(-a) : a; }); break;
		case 7: { unsigned e = static_cast<unsigned>(r.below(4)); g = carl::pow(c[i], e); map([&](const Q& a) { return qpow(a, e); }); break; }
		default: g = -c[i]; map([](const Q& a) { return Q(-a); }); break;
		}
		vf::op("dprog" + std::to_string(o));
		rounding(log);
		RI rg = of(g);
		for (auto& q : np) if (!VF_CHECK(rg.has(q), "ival.dprog:op" + std::to_string(o), log << " gives " << show(g) << " without " << q.get_d())) return;
		for (auto& q : np) if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 20000) return;
		c[k] = g;
		p[k] = np;
	}
	vf::observe(log);
}
struct Fn {
	const char* name;
	std::function<DI(const DI&)> f;
	std::function<void(DI&)> fa;
	std::function<long double(long double)> ref;
	double dlo, dhi; // domain (closed, infinite if huge)
	bool dopen;
};
#define FN(n, lo, hi, open) Fn{#n, [](const DI& i) { return carl::n(i); }, [](DI& i) { carl::n##_assign(i); }, [](long double x) { return std::n(x); }, lo, hi, open}
static const std::vector<Fn>& fns() {
	static std::vector<Fn> v = {
		FN(exp, -200, 200, false), FN(log, 0, 1e300, true), FN(sin, -1000, 1000, false), FN(cos, -1000, 1000, false), FN(tan, -1000, 1000, false),
		FN(asin, -1, 1, false), FN(acos, -1, 1, false), FN(atan, -1e300, 1e300, false), FN(sinh, -100, 100, false), FN(cosh, -100, 100, false),
		FN(tanh, -1e300, 1e300, false), FN(asinh, -1e300, 1e300, false), FN(acosh, 1, 1e300, false), FN(atanh, -1, 1, true)};
	return v;
}
static void g_elem(vf::Rng& r) {
	const Fn& F = r.pick(fns());
	auto end = [&](vf::Rng& q) {
		double x = gen_d(q);
		if (std::fabs(F.dlo) == 1 && F.dhi == 1) x = std::fmod(x, 1.0);
		if (F.dlo == 1) x = std::fabs(x) + 1;
		if (F.dlo == 0) x = std::fabs(x);
		if (x < F.dlo || x > F.dhi) x = std::fmod(x, 50.0);
		if (q.chance(1, 6) && !F.dopen && std::fabs(F.dlo) <= 1) x = F.dlo;
		if (q.chance(1, 6) && !F.dopen && std::fabs(F.dhi) <= 1) x = F.dhi;
		return Q(x);
	};
	RI a = gen(r, end);
	// stay within the domain of the function
	bool neginf = F.dlo <= -100, posinf = F.dhi >= 100;
	if (a.linf && !neginf) { a.linf = false; a.lo = a.uinf ? end(r) : a.hi; a.lopen = false; a.norm(); }
	if (a.uinf && !posinf) { a.uinf = false; a.hi = a.linf ? end(r) : a.lo; a.uopen = false; a.norm(); }
	if (F.dopen && !a.empty) {
		if (!a.linf && a.lo == Q(F.dlo)) a.lopen = true;
		if (!a.uinf && F.dhi == 1 && a.hi == Q(F.dhi)) a.uopen = true;
		a.norm();
	}
	if (std::string(F.name) == "log" && !a.empty && !a.linf && a.lo == 0 && a.hi == 0 && !a.uinf) return;
	DI x = lib<double>(a);
	std::string in = std::string(F.name) + " of " + show(x);
	vf::note(in);
	vf::observe(in);
	vf::op(F.name);
	DI g = F.f(x);
	DI ga = x;
	F.fa(ga);
	rounding(in);
	RI rg = of(g);
	if (a.empty) { VF_CHECK(rg.empty, "ival.d." + std::string(F.name) + ":empty", in << " gives " << show(g)); }
	VF_CHECK(of(ga) == rg, "ival.d." + std::string(F.name) + "_assign", in << ": " << show(ga) << " but " << show(g));
	if (a.empty) return;
	std::string key = "ival.d." + std::string(F.name);
	auto inside = [&](long double y) {
		long double tol = 4 * std::ldexp(std::fabs(y), -52) + 1e-300L;
		if (g.lowerBoundType() != BoundType::INFTY && y < static_cast<long double>(g.lower()) - tol) return false;
		if (g.upperBoundType() != BoundType::INFTY && y > static_cast<long double>(g.upper()) + tol) return false;
		return true;
	};
	std::vector<Q> ps = points(a, r, 6);
	for (auto& p : ps) {
		double d = p.get_d();
		if (!a.has(Q(d))) continue;
		long double y = F.ref(d);
		if (!std::isfinite(y)) continue;
		// ill-conditioned arguments of tan near poles are left to the interval's own enclosure
		VF_CHECK(inside(y), key, in << ": value at " << vf::str(d) << " is " << static_cast<double>(y) << ", not in " << show(g));
	}
	// attained ends of monotone functions and attained extrema
	std::string nm = F.name;
	bool even = nm == "cosh", periodic = nm == "sin" || nm == "cos";
	if (even && a.has(0)) VF_CHECK(g.contains(1.0), key + ":extremum", in << " gives " << show(g) << " without 1");
	if (nm == "cos" && a.has(0)) VF_CHECK(g.contains(1.0), key + ":extremum", in << " gives " << show(g) << " without 1");
	if (periodic) {
		const long double pi = 3.14159265358979323846264338327950288L;
		// k*pi/2 strictly inside the interval with room for the error of the constant
		long lo = -700, hi = 700;
		if (!a.linf) lo = static_cast<long>(std::ceil(a.lo.get_d() / 1.5707963267948966)) - 1;
		if (!a.uinf) hi = static_cast<long>(std::floor(a.hi.get_d() / 1.5707963267948966)) + 1;
		if (a.linf && !a.uinf) lo = hi - 12;
		if (a.uinf && !a.linf) hi = lo + 12;
		for (long k = lo; k <= hi && k < lo + 20; ++k) {
			long double e = k * (pi / 2);
			if (!a.linf && e - 1e-12L <= static_cast<long double>(a.lo.get_d())) continue;
			if (!a.uinf && e + 1e-12L >= static_cast<long double>(a.hi.get_d())) continue;
			long m = ((k % 4) + 4) % 4;
			int want = nm == "cos" ? (m == 0 ? 1 : m == 2 ? -1 : 0) : (m == 1 ? 1 : m == 3 ? -1 : 0);
			if (want != 0) VF_CHECK(g.contains(static_cast<double>(want)), key + ":extremum", in << " gives " << show(g) << " without " << want << " (at " << k << "*pi/2)");
		}
	} else if (nm != "tan" && !even) {
		bool dec = nm == "acos";
		// a closed end maps to a value the result must not exclude by strictness
		auto closed_end = [&](bool inf, bool open, const Q& v, bool upper) {
			if (inf || open) return;
			double y = static_cast<double>(F.ref(v.get_d()));
			if (!std::isfinite(y)) return;
			if (upper) VF_CHECK(!(g.upperBoundType() == BoundType::STRICT && g.upper() <= y), key + ":type", in << " gives " << show(g));
			else VF_CHECK(!(g.lowerBoundType() == BoundType::STRICT && g.lower() >= y), key + ":type", in << " gives " << show(g));
		};
		closed_end(a.linf, a.lopen, a.lo, dec);
		closed_end(a.uinf, a.uopen, a.hi, !dec);
	}
}
int main(int argc, char** argv) {
	vf::add_group("qbin", 40000, 600000, g_qbin);
	vf::add_group("qun", 24000, 300000, g_qun);
	vf::add_group("qprog", 24000, 300000, g_qprog);
	vf::add_group("ctor", 24000, 200000, g_ctor);
	vf::add_group("dbin", 40000, 400000, g_dbin);
	vf::add_group("dun", 16000, 200000, g_dun);
	vf::add_group("dprog", 24000, 300000, g_dprog);
	vf::add_group("elem", 60000, 600000, g_elem);
	return vf::run(argc, argv);
}
