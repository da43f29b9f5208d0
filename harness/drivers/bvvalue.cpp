#include <vf.h>
#include <bvmodel.h>
#include <carl/formula/bitvector/BVValue.h>
using carl::BVValue;
using ref::BV;

static BVValue mk(const BV& m) { return BVValue(m.w, m.v); }
static bool eq(const BVValue& a, const BV& m) {
	if (a.width() != m.w) return false;
	for (size_t i = 0; i < m.w; ++i) if (a[i] != m.bit(i)) return false;
	return true;
}
static void cmp(const char* name, const BVValue& got, const BV& want, const BV& a, const BV& b) {
	vf::op(std::string("value.") + name);
	VF_CHECK(eq(got, want), std::string("bv.") + name, name << "(" << a.bits() << ", " << b.bits() << ") gave " << got.toString() << " expected " << want.bits());
}

static void binary(const BV& a, const BV& b) {
	BVValue x = mk(a), y = mk(b);
	if (!eq(x, a) || !eq(y, b)) { VF_CHECK(false, "bv.construct", "construction of " << a.bits() << " gave " << x.toString()); return; }
	vf::note("binary " + a.bits() + " " + b.bits());
	cmp("add", x + y, ref::bvadd(a, b), a, b);
	cmp("sub", x - y, ref::bvsub(a, b), a, b);
	cmp("mul", x * y, ref::bvmul(a, b), a, b);
	cmp("and", x & y, ref::bvand(a, b), a, b);
	cmp("or", x | y, ref::bvor(a, b), a, b);
	cmp("xor", x ^ y, ref::bvxor(a, b), a, b);
	if (b.v != 0) {
		cmp("udiv", x / y, ref::bvudiv(a, b), a, b);
		cmp("urem", x % y, ref::bvurem(a, b), a, b);
		cmp("udiv2", x.divideUnsigned(y), ref::bvudiv(a, b), a, b);
		cmp("sdiv", x.divideSigned(y), ref::bvsdiv(a, b), a, b);
		cmp("srem", x.remSigned(y), ref::bvsrem(a, b), a, b);
		cmp("smod", x.modSigned(y), ref::bvsmod(a, b), a, b);
	}
	cmp("shl", x << y, ref::bvshl(a, b), a, b);
	cmp("lshr", x >> y, ref::bvlshr(a, b), a, b);
	cmp("ashr", x.rightShiftArithmetic(y), ref::bvashr(a, b), a, b);
	vf::op("value.compare");
	VF_CHECK((x == y) == (a.v == b.v), "bv.eq", a.bits() << " == " << b.bits());
	VF_CHECK((x < y) == (a.v < b.v), "bv.less", a.bits() << " < " << b.bits());
	if (a.v == b.v) VF_CHECK(std::hash<BVValue>()(x) == std::hash<BVValue>()(y), "bv.hash", a.bits());
	VF_CHECK(eq(x, a) && eq(y, b), "bv.operands-changed", a.bits() << " " << b.bits());
}
static void unary(const BV& a, vf::Rng& r) {
	BVValue x = mk(a);
	vf::note("unary " + a.bits());
	cmp("not", ~x, ref::bvnot(a), a, a);
	cmp("neg", -x, ref::bvneg(a), a, a);
	VF_CHECK(x.isZero() == (a.v == 0), "bv.iszero", a.bits());
	VF_CHECK(x.toString() == "#b" + a.bits(), "bv.tostring", a.bits() << " printed as " << x.toString());
	VF_CHECK(eq(BVValue(a.bits()), a), "bv.fromstring", a.bits());
	for (int i = 0; i < 3; ++i) {
		size_t n = r.below(2 * a.w + 2);
		if (r.chance(1, 4)) n = a.w * r.below(3);
		cmp("rotl", x.rotateLeft(n), ref::rotl(a, n), a, BV(16, n));
		cmp("rotr", x.rotateRight(n), ref::rotr(a, n), a, BV(16, n));
		size_t e = r.below(70);
		cmp("zext", x.extendUnsignedBy(e), ref::zext(a, e), a, BV(16, e));
		cmp("sext", x.extendSignedBy(e), ref::sext(a, e), a, BV(16, e));
		size_t lo = r.below(a.w), hi = lo + r.below(a.w - lo);
		cmp("extract", x.extract(hi, lo), ref::extract(a, hi, lo), a, BV(16, hi * 256 + lo));
		size_t k = 1 + r.below(5);
		cmp("repeat", x.repeat(k), ref::repeat(a, k), a, BV(16, k));
	}
}
static mpz_class hostile(vf::Rng& r, size_t w) {
	switch (r.below(8)) {
	case 0: return r.below(4);
	case 1: return BV::p2(w) - 1 - r.below(3);
	case 2: return BV::p2(w - 1) - 1 + r.below(3);
	case 3: return BV::p2(r.below(w)) ;
	case 4: return BV::p2(r.below(w + 1)) - 1;
	case 5: return r.below(2 * w + 3);
	default: {
		mpz_class x = 0;
		for (size_t i = 0; i < w / 64 + 1; ++i) { x <<= 64; mpz_class t; uint64_t v = r.next() & (r.coin() ? ~0ull : r.next()); mpz_import(t.get_mpz_t(), 1, 1, 8, 0, 0, &v); x += t; }
		return r.coin() ? x : mpz_class(x >> r.below(w));
	}
	}
}

int main(int argc, char** argv) {
	// exhaustive: all pairs for widths 1..5
	vf::add_group("bv-exhaustive", 5, 6, [](vf::Rng& r) {
		size_t w = static_cast<size_t>(vf::st().cur_case) + 1;
		unsigned long n = 1ul << w;
		for (unsigned long i = 0; i < n; ++i) {
			unary(BV(w, i), r);
			for (unsigned long j = 0; j < n; ++j) { binary(BV(w, i), BV(w, j)); vf::observe(std::to_string(w) + ":" + std::to_string(i) + "," + std::to_string(j)); }
		}
	});
	vf::add_group("bv-random", 6000, 60000, [](vf::Rng& r) {
		static const std::vector<size_t> ws = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200};
		size_t w = r.chance(2, 3) ? r.pick(ws) : 1 + r.below(140);
		BV a(w, hostile(r, w)), b(w, hostile(r, w));
		if (r.chance(1, 20)) b = a;
		vf::observe(std::to_string(w) + ":" + a.v.get_str(16) + "," + b.v.get_str(16));
		unary(a, r);
		binary(a, b);
		BV c(1 + r.below(80), hostile(r, 80));
		cmp("concat", mk(a).concat(mk(c)), ref::concat(a, c), a, c);
		// shift amounts of a different width are accepted at value level
		cmp("shl-w", mk(a) << mk(c), ref::bvshl(a, c), a, c);
		cmp("lshr-w", mk(a) >> mk(c), ref::bvlshr(a, c), a, c);
		cmp("ashr-w", mk(a).rightShiftArithmetic(mk(c)), ref::bvashr(a, c), a, c);
	});
	// conversion from integers of any size and sign
	vf::add_group("bv-convert", 20000, 200000, [](vf::Rng& r) {
		size_t w = 1 + r.below(r.coin() ? 20 : 200);
		mpz_class z = r.coin() ? vf::gen_mpz(r) : hostile(r, w);
		if (r.chance(1, 3)) z = -z;
		BV m(w, z);
		vf::observe(std::to_string(w) + ":" + z.get_str());
		vf::note("convert " + z.get_str() + " width " + std::to_string(w));
		cmp("from-integer", BVValue(w, z), m, m, m);
		unsigned u = static_cast<unsigned>(r.next() >> r.below(32));
		BV mu(w, u);
		cmp("from-machine", BVValue(w, static_cast<carl::uint>(u)), mu, mu, mu);
		// single bit writes
		BVValue x = BVValue(w, z);
		size_t i = r.below(w);
		bool b = r.coin();
		x[i] = b;
		mpz_class v2 = m.v;
		if (b) mpz_setbit(v2.get_mpz_t(), i); else mpz_clrbit(v2.get_mpz_t(), i);
		cmp("set-bit", x, BV(w, v2), m, BV(16, i));
	});
	return vf::run(argc, argv);
}
