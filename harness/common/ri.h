// Reference intervals: sets of reals given by exact rational bounds, with exact image hulls.
#pragma once
#include <vf.h>
#include <carl/interval/Interval.h>
#include <cmath>

using Q = mpq_class;

namespace ri {
struct RI {
	bool empty = true, linf = false, uinf = false, lopen = false, uopen = false;
	Q lo, hi;
	bool has(const Q& x) const {
		if (empty) return false;
		if (!linf && (lopen ? x <= lo : x < lo)) return false;
		if (!uinf && (uopen ? x >= hi : x > hi)) return false;
		return true;
	}
	void norm() {
		if (empty) { *this = RI(); return; }
		if (linf) { lo = 0; lopen = false; }
		if (uinf) { hi = 0; uopen = false; }
		if (!linf && !uinf && (lo > hi || (lo == hi && (lopen || uopen)))) *this = RI();
	}
	bool bounded() const { return empty || (!linf && !uinf); }
	bool point() const { return !empty && !linf && !uinf && lo == hi; }
	std::string str() const {
		if (empty) return "{}";
		std::string r = linf ? "(-oo" : (lopen ? "(" : "[") + lo.get_str();
		r += ", ";
		r += uinf ? "oo)" : hi.get_str() + (uopen ? ")" : "]");
		return r;
	}
};
inline bool operator==(const RI& a, const RI& b) {
	if (a.empty || b.empty) return a.empty == b.empty;
	if (a.linf != b.linf || a.uinf != b.uinf) return false;
	if (!a.linf && (a.lo != b.lo || a.lopen != b.lopen)) return false;
	return a.uinf || (a.hi == b.hi && a.uopen == b.uopen);
}
inline std::ostream& operator<<(std::ostream& o, const RI& a) { return o << a.str(); }
inline RI make(const Q& lo, int lt, const Q& hi, int ut) { // 0 strict, 1 weak, 2 infinite
	RI r;
	r.empty = false;
	r.lo = lo; r.hi = hi;
	r.linf = lt == 2; r.uinf = ut == 2;
	r.lopen = lt == 0; r.uopen = ut == 0;
	r.norm();
	return r;
}
inline RI whole() { return make(0, 2, 0, 2); }
template<typename N>
RI of(const carl::Interval<N>& i) {
	if constexpr (std::is_floating_point<N>::value) {
		int lt = std::isinf(i.lower()) ? 2 : static_cast<int>(i.lowerBoundType()), ut = std::isinf(i.upper()) ? 2 : static_cast<int>(i.upperBoundType());
		return make(lt == 2 ? Q(0) : Q(i.lower()), lt, ut == 2 ? Q(0) : Q(i.upper()), ut);
	} else return make(Q(i.lower()), static_cast<int>(i.lowerBoundType()), Q(i.upper()), static_cast<int>(i.upperBoundType()));
}
/// a within b
inline bool subset(const RI& a, const RI& b) {
	if (a.empty) return true;
	if (b.empty) return false;
	if (!b.linf) {
		if (a.linf || a.lo < b.lo) return false;
		if (a.lo == b.lo && b.lopen && !a.lopen) return false;
	}
	if (!b.uinf) {
		if (a.uinf || a.hi > b.hi) return false;
		if (a.hi == b.hi && b.uopen && !a.uopen) return false;
	}
	return true;
}
inline RI hull(const RI& a, const RI& b) {
	if (a.empty) return b;
	if (b.empty) return a;
	RI r;
	r.empty = false;
	r.linf = a.linf || b.linf;
	r.uinf = a.uinf || b.uinf;
	if (!r.linf) { r.lo = std::min(a.lo, b.lo); r.lopen = !((a.lo == r.lo && !a.lopen) || (b.lo == r.lo && !b.lopen)); }
	if (!r.uinf) { r.hi = std::max(a.hi, b.hi); r.uopen = !((a.hi == r.hi && !a.uopen) || (b.hi == r.hi && !b.uopen)); }
	return r;
}
inline RI meet(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	RI r;
	r.empty = false;
	r.linf = a.linf && b.linf;
	r.uinf = a.uinf && b.uinf;
	if (!r.linf) {
		if (a.linf) { r.lo = b.lo; r.lopen = b.lopen; }
		else if (b.linf) { r.lo = a.lo; r.lopen = a.lopen; }
		else { r.lo = std::max(a.lo, b.lo); r.lopen = (a.lo == r.lo && a.lopen) || (b.lo == r.lo && b.lopen); }
	}
	if (!r.uinf) {
		if (a.uinf) { r.hi = b.hi; r.uopen = b.uopen; }
		else if (b.uinf) { r.hi = a.hi; r.uopen = a.uopen; }
		else { r.hi = std::min(a.hi, b.hi); r.uopen = (a.hi == r.hi && a.uopen) || (b.hi == r.hi && b.uopen); }
	}
	r.norm();
	return r;
}
inline RI neg(const RI& a) {
	if (a.empty) return a;
	RI r;
	r.empty = false;
	r.linf = a.uinf; r.uinf = a.linf;
	r.lo = -a.hi; r.hi = -a.lo;
	r.lopen = a.uopen; r.uopen = a.lopen;
	r.norm();
	return r;
}
inline RI add(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	RI r;
	r.empty = false;
	r.linf = a.linf || b.linf; r.uinf = a.uinf || b.uinf;
	r.lo = a.lo + b.lo; r.hi = a.hi + b.hi;
	r.lopen = a.lopen || b.lopen; r.uopen = a.uopen || b.uopen;
	r.norm();
	return r;
}
/// exact hull of the product set
inline RI mul(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	struct E { int inf; Q v; bool at; }; // inf: -1,0,1
	auto lo = [](const RI& x) { return x.linf ? E{-1, 0, false} : E{0, x.lo, !x.lopen}; };
	auto hi = [](const RI& x) { return x.uinf ? E{1, 0, false} : E{0, x.hi, !x.uopen}; };
	auto prod = [](const E& x, const E& y) -> E {
		if (!x.inf && !y.inf) { Q p = x.v * y.v; return {0, p, (x.at && y.at) || (x.at && x.v == 0) || (y.at && y.v == 0)}; }
		int sx = x.inf ? x.inf : sgn(x.v), sy = y.inf ? y.inf : sgn(y.v);
		if (sx == 0 || sy == 0) return {0, 0, (sx == 0 && x.at) || (sy == 0 && y.at)};
		return {sx * sy, 0, false};
	};
	E es[4] = {prod(lo(a), lo(b)), prod(lo(a), hi(b)), prod(hi(a), lo(b)), prod(hi(a), hi(b))};
	auto less = [](const E& x, const E& y) { return x.inf != y.inf ? x.inf < y.inf : (x.inf == 0 && x.v < y.v); };
	E mn = es[0], mx = es[0];
	for (auto& e : es) { if (less(e, mn)) mn = e; if (less(mx, e)) mx = e; }
	bool zero = a.has(0) || b.has(0);
	bool mnat = false, mxat = false;
	for (auto& e : es) {
		if (!less(mn, e) && e.at) mnat = true;
		if (!less(e, mx) && e.at) mxat = true;
	}
	if (mn.inf == 0 && mn.v == 0 && zero) mnat = true;
	if (mx.inf == 0 && mx.v == 0 && zero) mxat = true;
	return make(mn.v, mn.inf ? 2 : mnat, mx.v, mx.inf ? 2 : mxat);
}
/// exact image of x -> 1/x on an interval of one sign not containing zero
inline RI recip_sign(const RI& b) {
	if (b.empty) return b;
	RI r;
	r.empty = false;
	// upper end of the image comes from the lower end and vice versa
	auto inv = [](bool inf, const Q& v, bool open, bool& rinf, Q& rv, bool& ropen) {
		if (inf) { rinf = false; rv = 0; ropen = true; }
		else if (v == 0) { rinf = true; }
		else { rinf = false; rv = 1 / v; ropen = open; }
	};
	inv(b.uinf, b.hi, b.uopen, r.linf, r.lo, r.lopen);
	inv(b.linf, b.lo, b.lopen, r.uinf, r.hi, r.uopen);
	r.norm();
	return r;
}
inline RI pos(const RI& a) { return meet(a, make(0, 0, 0, 2)); }
inline RI negp(const RI& a) { return meet(a, make(0, 2, 0, 0)); }
inline RI abs(const RI& a) {
	RI p = meet(a, make(0, 1, 0, 2)), n = neg(meet(a, make(0, 2, 0, 1)));
	return hull(p, n);
}
inline Q qpow(const Q& x, unsigned n) { Q r = 1; for (unsigned i = 0; i < n; ++i) r *= x; return r; }
inline RI pow(const RI& a, unsigned n) {
	if (a.empty) return a;
	if (n == 0) return make(1, 1, 1, 1);
	RI b = n % 2 == 0 ? abs(a) : a;
	if (!b.linf) b.lo = qpow(b.lo, n);
	if (!b.uinf) b.hi = qpow(b.hi, n);
	return b;
}
/// hull of the integers contained
inline Q qfloor(const Q& x) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); return Q(r); }
inline Q qceil(const Q& x) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); return Q(r); }
inline RI integers(const RI& a) {
	if (a.empty) return a;
	RI r = a;
	if (!r.linf) { r.lo = qceil(a.lo); if (a.lopen && r.lo == a.lo) r.lo += 1; r.lopen = false; }
	if (!r.uinf) { r.hi = qfloor(a.hi); if (a.uopen && r.hi == a.hi) r.hi -= 1; r.uopen = false; }
	r.norm();
	return r;
}
/// points of the set: ends, near the ends, inside, far out
inline std::vector<Q> points(const RI& a, vf::Rng& r, size_t extra = 2) {
	std::vector<Q> v;
	auto put = [&](const Q& x) { if (a.has(x)) v.push_back(x); };
	if (a.empty) return v;
	put(0); put(1); put(-1);
	if (!a.linf) { put(a.lo); put(a.lo + Q(1, 1000000)); put(a.lo + 1); }
	if (!a.uinf) { put(a.hi); put(a.hi - Q(1, 1000000)); put(a.hi - 1); }
	if (a.linf) { put(-1000000007); if (!a.uinf) put(a.hi - 1000000007); }
	if (a.uinf) { put(1000000007); if (!a.linf) put(a.lo + 1000000007); }
	for (size_t i = 0; i < extra; ++i) {
		Q t(r.range(0, 1000), 1000);
		t.canonicalize();
		if (a.bounded()) put(a.lo + (a.hi - a.lo) * t);
		else if (a.linf && a.uinf) put(vf::gen_q(r, 1000, 7));
		else if (a.linf) put(a.hi - t * 100);
		else put(a.lo + t * 100);
	}
	return v;
}
/// points separating all sets with ends among the given intervals' ends
inline std::vector<Q> critical(const std::vector<RI>& as) {
	std::set<Q> e;
	for (auto& a : as) if (!a.empty) { if (!a.linf) e.insert(a.lo); if (!a.uinf) e.insert(a.hi); }
	std::vector<Q> v;
	if (e.empty()) return {Q(0), Q(-5), Q(5)};
	Q last = *e.begin() - 1;
	v.push_back(last);
	for (auto& x : e) { v.push_back((last + x) / 2); v.push_back(x); last = x; }
	v.push_back(last + 1);
	return v;
}
inline Q gen_end(vf::Rng& r) {
	switch (r.below(5)) {
	case 0: return Q(0);
	case 1: return Q(r.range(-2, 2));
	default: return vf::gen_q(r, 6, 4);
	}
}
inline RI gen(vf::Rng& r, const std::function<Q(vf::Rng&)>& end = gen_end) {
	switch (r.below(14)) {
	case 0: return RI();
	case 1: return whole();
	case 2: { Q x = end(r); return make(x, 1, x, 1); }
	default: break;
	}
	Q a = end(r), b = end(r);
	if (b < a) std::swap(a, b);
	int lt = static_cast<int>(r.below(7)), ut = static_cast<int>(r.below(7));
	return make(a, lt == 6 ? 2 : lt % 2, b, ut == 6 ? 2 : ut % 2);
}
template<typename N> N num(const Q& q) { return N(q); }
template<> inline double num<double>(const Q& q) { return q.get_d(); }
template<typename N>
carl::Interval<N> lib(const RI& a) {
	using carl::BoundType;
	if (a.empty) return carl::Interval<N>::emptyInterval();
	return carl::Interval<N>(num<N>(a.lo), a.linf ? BoundType::INFTY : a.lopen ? BoundType::STRICT : BoundType::WEAK,
		num<N>(a.hi), a.uinf ? BoundType::INFTY : a.uopen ? BoundType::STRICT : BoundType::WEAK);
}
}
