// Fixed-size bit-vectors as integers modulo 2^w, straight from the SMT-LIB theory definitions.
#pragma once
#include <gmpxx.h>
#include <string>
namespace ref {
struct BV {
	size_t w;
	mpz_class v;
	static mpz_class p2(size_t n) { mpz_class r = 1; r <<= n; return r; }
	static mpz_class wrap(const mpz_class& x, size_t w) { mpz_class r; mpz_class m = p2(w); mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); return r; }
	BV(size_t w_, const mpz_class& x) : w(w_), v(wrap(x, w_)) {}
	bool bit(size_t i) const { return mpz_tstbit(v.get_mpz_t(), i); }
	bool neg() const { return bit(w - 1); }
	mpz_class sv() const { return neg() ? mpz_class(v - p2(w)) : v; }
	std::string bits() const { std::string s; for (size_t i = w; i-- > 0;) s += bit(i) ? '1' : '0'; return s; }
};
inline BV bvnot(const BV& a) { return BV(a.w, -a.v - 1); }
inline BV bvneg(const BV& a) { return BV(a.w, -a.v); }
inline BV bvadd(const BV& a, const BV& b) { return BV(a.w, a.v + b.v); }
inline BV bvsub(const BV& a, const BV& b) { return BV(a.w, a.v - b.v); }
inline BV bvmul(const BV& a, const BV& b) { return BV(a.w, a.v * b.v); }
inline BV bvand(const BV& a, const BV& b) { return BV(a.w, a.v & b.v); }
inline BV bvor(const BV& a, const BV& b) { return BV(a.w, a.v | b.v); }
inline BV bvxor(const BV& a, const BV& b) { return BV(a.w, a.v ^ b.v); }
inline BV bvudiv(const BV& a, const BV& b) { if (b.v == 0) return BV(a.w, -1); return BV(a.w, a.v / b.v); }
inline BV bvurem(const BV& a, const BV& b) { if (b.v == 0) return a; return BV(a.w, a.v % b.v); }
inline BV bvsdiv(const BV& a, const BV& b) {
	if (b.v == 0) return a.neg() ? BV(a.w, 1) : BV(a.w, -1);
	mpz_class q; mpz_class x = a.sv(), y = b.sv(); mpz_tdiv_q(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return BV(a.w, q);
}
inline BV bvsrem(const BV& a, const BV& b) {
	if (b.v == 0) return a;
	mpz_class q; mpz_class x = a.sv(), y = b.sv(); mpz_tdiv_r(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return BV(a.w, q);
}
inline BV bvsmod(const BV& a, const BV& b) {
	if (b.v == 0) return a;
	mpz_class q; mpz_class x = a.sv(), y = b.sv(); mpz_fdiv_r(q.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return BV(a.w, q);
}
inline BV bvshl(const BV& a, const BV& b) { if (b.v >= a.w) return BV(a.w, 0); mpz_class r = a.v << b.v.get_ui(); return BV(a.w, r); }
inline BV bvlshr(const BV& a, const BV& b) { if (b.v >= a.w) return BV(a.w, 0); mpz_class r = a.v >> b.v.get_ui(); return BV(a.w, r); }
inline BV bvashr(const BV& a, const BV& b) { mpz_class s = a.sv(); if (b.v >= a.w) return BV(a.w, s < 0 ? -1 : 0); mpz_class r; mpz_fdiv_q_2exp(r.get_mpz_t(), s.get_mpz_t(), b.v.get_ui()); return BV(a.w, r); }
inline BV concat(const BV& a, const BV& b) { mpz_class r = (a.v << b.w) + b.v; return BV(a.w + b.w, r); }
inline BV extract(const BV& a, size_t hi, size_t lo) { mpz_class r = a.v >> lo; return BV(hi - lo + 1, r); }
inline BV zext(const BV& a, size_t n) { return BV(a.w + n, a.v); }
inline BV sext(const BV& a, size_t n) { return BV(a.w + n, a.sv()); }
inline BV rotl(const BV& a, size_t n) { n %= a.w; if (n == 0) return a; return concat(extract(a, a.w - n - 1, 0), extract(a, a.w - 1, a.w - n)); }
inline BV rotr(const BV& a, size_t n) { n %= a.w; if (n == 0) return a; return concat(extract(a, n - 1, 0), extract(a, a.w - 1, n)); }
inline BV repeat(const BV& a, size_t n) { BV r = a; for (size_t i = 1; i < n; ++i) r = concat(r, a); return r; }
}
