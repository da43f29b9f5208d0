// C15: Gröbner bases, ideals and reduction against textbook Buchberger on reference polynomials.
#include <polyutil.h>
#include <rgb.h>
#include <carl/groebner/groebner.h>
#include <carl/groebner/GBProcedure.h>

using namespace carl;
using ref::Poly;
using BP = MultivariatePolynomial<Q, GrLexOrdering, StdMultivariatePolynomialPolicies<BVReasons, NoAllocator>>;
template<typename P> using GBStd = GBProcedure<P, Buchberger, StdAdding>;
template<typename P> using GBReal = GBProcedure<P, Buchberger, RealRadicalAwareAdding>;

static std::string show(const std::vector<Poly>& v) { std::string s = "{"; for (auto& p : v) s += " " + p.str() + ";"; return s + " }"; }
template<typename P> static std::vector<Poly> refs(const std::vector<P>& v) { std::vector<Poly> r; for (auto& p : v) r.push_back(pu::rpoly(p)); return r; }

static Poly gen_gen(vf::Rng& r, size_t nv) {
	Poly p;
	if (r.chance(1, 25)) return p;
	if (r.chance(1, 40)) return Poly(Q(r.range(-3, 3)));
	size_t n = 1 + r.below(3);
	unsigned maxd = nv <= 2 ? 4 : 2;
	for (size_t i = 0; i < n; ++i) {
		ref::Mono m = ref::mone();
		unsigned d = static_cast<unsigned>(r.below(maxd + 1));
		for (unsigned k = 0; k < d; ++k) m[r.below(nv)]++;
		p.add(m, Q(r.coin() ? r.range(1, 3) : -r.range(1, 3)));
	}
	return p;
}
/// a set of generators whose ideal is cheap enough to decide
static bool gen_ideal(vf::Rng& r, std::vector<Poly>& gens, std::vector<Poly>& gb, size_t& nv) {
	nv = 1 + r.below(4);
	size_t n = 1 + r.below(4);
	gens.clear();
	for (size_t i = 0; i < n; ++i) {
		Poly p = gen_gen(r, nv);
		if (!gens.empty() && r.chance(1, 6)) p = r.pick(gens) * gen_gen(r, nv); // dependent
		if (!gens.empty() && r.chance(1, 8)) p = r.pick(gens) + r.pick(gens);
		if (p.tdeg() > 5 || p.t.size() > 8) continue;
		gens.push_back(p);
	}
	return rgb::basis(gens, gb, 4000);
}
/// compare a computed basis with the reference one
template<typename P>
static bool decide_basis(const std::string& key, const std::vector<P>& got, const std::vector<Poly>& want, const std::string& d) {
	std::vector<Poly> g = refs(got);
	std::sort(g.begin(), g.end(), [](const Poly& a, const Poly& b) { if (a.zero() || b.zero()) return a.zero() && !b.zero(); return ref::mcmp(a.lmon(), b.lmon()) < 0; });
	for (auto& p : g) if (!VF_CHECK(!p.zero(), key + ":zero", d << " gives " << show(g))) return false;
	for (auto& p : got) { std::string why; if (!VF_CHECK(pu::canonical(p, why), key + ":canonical", d << ": " << why << " in " << p)) return false; }
	std::vector<Poly> m;
	for (auto& p : g) m.push_back(rgb::monic(p));
	bool ok = m == want;
	if (!VF_CHECK(ok, key, d << " gives " << show(g) << " expected " << show(want))) return false;
	return VF_CHECK(m == g, key + ":monic", d << " gives " << show(g) << " expected " << show(want));
}
struct Model { // what a procedure should hold
	std::vector<Poly> in_gb, scheduled;
};
/// reasons of a basis element name inputs that generate it
static void decide_reasons(const std::string& key, const Poly& p, const BitVector& bits, const std::vector<Poly>& inputs, const std::string& d) {
	std::vector<Poly> sub, gb;
	std::string names;
	for (size_t i = 0; i < inputs.size(); ++i) if (bits.getBit(static_cast<unsigned>(i))) { sub.push_back(inputs[i]); names += " " + std::to_string(i); }
	if (!rgb::basis(sub, gb, 20000)) { vf::op("reasons-skipped"); return; }
	vf::op("reasons");
	VF_CHECK(rgb::member(p, gb), key, d << ": " << p.str() << " is not generated by inputs" << names);
}
template<typename Proc>
static void incremental_case(vf::Rng& r) {
	std::vector<Poly> gens, gb;
	size_t nv;
	if (!gen_ideal(r, gens, gb, nv)) { vf::op("too-expensive"); return; }
	std::string d = show(gens);
	Proc proc;
	std::vector<Poly> added, in;
	std::vector<size_t> cuts;
	size_t resets = 0;
	bool fresh = true; // no reduceInput since the last calculation
	std::unique_ptr<Proc> snapshot;
	std::vector<Poly> snapshot_gb;
	for (size_t i = 0; i < gens.size(); ++i) {
		BP p(pu::build(gens[i], r));
		BitVector b;
		b.setBit(static_cast<unsigned>(i));
		p.setReasons(b);
		proc.addPolynomial(p);
		in.push_back(gens[i]);
		d += "; add " + std::to_string(i);
		VF_CHECK(!proc.inputEmpty(), "gb.input-empty", d);
		if (r.chance(1, 4)) {
			d += "; reduceInput";
			vf::note(d);
			vf::op("reduceInput");
			auto ded = proc.reduceInput();
			for (auto& [first, second] : ded) {
				// a dropped input must follow from the others named
				size_t own = first.findFirstSetBit();
				bool single = true;
				for (size_t k = 0; k < gens.size(); ++k) if (k != own && first.getBit(static_cast<unsigned>(k))) single = false;
				if (!fresh || !single || own >= gens.size()) continue;
				BitVector rest = second;
				rest.setBit(static_cast<unsigned>(own), false);
				decide_reasons("gb.reduceInput:deduction", gens[own], rest, gens, d);
			}
			fresh = false;
		}
		if (r.coin() || i + 1 == gens.size()) {
			d += "; calculate";
			vf::note(d);
			vf::op("calculate");
			proc.calculate();
			fresh = true;
			VF_CHECK(proc.inputEmpty(), "gb.input-left", d);
			std::vector<Poly> want;
			if (!rgb::basis(in, want, 20000)) { vf::op("too-expensive"); return; }
			if (!decide_basis("gb.basis", proc.getBasisPolynomials(), want, d)) return;
			VF_CHECK(proc.basisIsConstant() == (want.size() == 1 && want[0] == Poly(1)), "gb.basisIsConstant", d);
			VF_CHECK(proc.listBasisPolynomials().size() == want.size(), "gb.list", d);
			for (auto& p : proc.getBasisPolynomials()) decide_reasons("gb.reasons", pu::rpoly(p), p.getReasons(), gens, d);
			if (resets == 0) VF_CHECK(proc.nrOrigGenerators() == i + 1, "gb.nrOrigGenerators", d << " reports " << proc.nrOrigGenerators());
			vf::op(want.empty() ? "basis-zero" : want[0] == Poly(1) ? "basis-one" : want.size() == 1 ? "basis-principal" : "basis-proper");
			if (snapshot) { // the copy must not have followed
				if (!decide_basis("gb.copy", snapshot->getBasisPolynomials(), snapshot_gb, d + " (copy taken earlier)")) return;
			}
			if (r.chance(1, 4)) {
				d += "; copy";
				vf::op("copy");
				if (r.coin()) snapshot = std::make_unique<Proc>(proc);
				else { snapshot = std::make_unique<Proc>(); *snapshot = proc; }
				snapshot_gb = want;
				if (r.chance(1, 3)) { // continue on the copy
					Proc other(proc);
					Poly e = gen_gen(r, nv);
					BP ep(pu::build(e, r));
					other.addPolynomial(ep);
					other.calculate();
					std::vector<Poly> in2 = in, w2;
					in2.push_back(e);
					if (rgb::basis(in2, w2, 20000) && !decide_basis("gb.copy-continued", other.getBasisPolynomials(), w2, d + "; add " + e.str() + " to the copy")) return;
					if (!decide_basis("gb.copy", proc.getBasisPolynomials(), want, d + " (after changing a copy)")) return;
				}
			} else if (r.chance(1, 10) && i + 1 < gens.size()) {
				d += "; reset";
				vf::op("reset");
				proc.reset();
				in.clear();
				++resets;
				VF_CHECK(proc.getBasisPolynomials().empty(), "gb.reset", d);
			}
		}
	}
	if (gb.size() > 1) vf::observe(d);
	// continue the copy with the rest as well
	if (snapshot && r.coin()) {
		Poly e = gen_gen(r, nv);
		snapshot->addPolynomial(BP(pu::build(e, r)));
		snapshot->calculate();
		std::vector<Poly> in2 = snapshot_gb, w2;
		in2.push_back(e);
		if (rgb::basis(in2, w2, 20000)) decide_basis("gb.copy-continued", snapshot->getBasisPolynomials(), w2, d + "; add " + e.str() + " to the copy");
	}
}
/// no reasons, all orders of insertion give the same basis
static void order_case(vf::Rng& r) {
	std::vector<Poly> gens, gb;
	size_t nv;
	if (!gen_ideal(r, gens, gb, nv)) { vf::op("too-expensive"); return; }
	std::string d = show(gens);
	if (gb.size() > 1) vf::observe(d);
	vf::op("orders");
	for (int k = 0; k < 3; ++k) {
		std::string dd = d + " in order";
		std::vector<size_t> ord;
		for (size_t i = 0; i < gens.size(); ++i) ord.push_back(i);
		for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
		GBStd<MP> proc;
		for (auto i : ord) { proc.addPolynomial(pu::build(gens[i], r)); dd += " " + std::to_string(i); }
		if (r.coin()) { proc.reduceInput(); dd += " reduceInput"; }
		vf::note(dd);
		proc.calculate();
		if (!decide_basis("gb.order", proc.getBasisPolynomials(), gb, dd)) return;
		// the basis must be stable under another calculation
		if (r.chance(1, 3)) { proc.calculate(); if (!decide_basis("gb.recalculate", proc.getBasisPolynomials(), gb, dd)) return; }
		// ideal queries
		const auto& id = proc.getIdeal();
		bool lin = true;
		for (auto& p : gb) lin = lin && p.tdeg() <= 1;
		VF_CHECK(id.isLinear() == lin, "ideal.isLinear", dd);
		// membership by reduction
		for (int t = 0; t < 3; ++t) {
			Poly f = gen_gen(r, nv);
			if (r.coin() && !gens.empty()) f = r.pick(gens) * gen_gen(r, nv) + (r.coin() ? Poly() : r.pick(gens));
			long b = 1000000;
			Poly want = rgb::reduce(f, gb, b);
			if (b < 0) continue;
			Reductor<MP, MP> red(id, pu::build(f, r));
			MP rem = red.fullReduce();
			vf::op(want.zero() ? "reduced-to-zero" : "reduced");
			CK(rem, want, "gb.reduce", dd << ": " << f.str() << " modulo the basis");
			VF_CHECK(red.reductionOccured() == (f != want), "gb.reductionOccured", dd << ": " << f.str());
		}
	}
}
/// reduction against arbitrary generators
static void reduce_case(vf::Rng& r) {
	std::vector<Poly> gens, gb;
	size_t nv;
	if (!gen_ideal(r, gens, gb, nv)) { vf::op("too-expensive"); return; }
	Ideal<BP> ideal;
	std::vector<Poly> live;
	std::vector<bool> dead;
	std::string d;
	for (size_t i = 0; i < gens.size(); ++i) if (!gens[i].zero()) {
		BP p(pu::build(gens[i], r));
		BitVector b;
		b.setBit(static_cast<unsigned>(live.size()));
		p.setReasons(b);
		ideal.addGenerator(p);
		live.push_back(gens[i]);
	}
	d = show(live);
	for (int t = 0; t < 4; ++t) {
		Poly f = pu::gen_poly(r, 5, 3, nv);
		std::string dd = d + ": reduce " + f.str();
		vf::note(dd);
		BP p(pu::build(f, r));
		BitVector fb;
		fb.setBit(40);
		p.setReasons(fb);
		Reductor<BP, BP> red(ideal, p);
		if (r.chance(1, 4)) { // one step only, then drop everything
			red.reduce();
			vf::op("single-step");
			continue;
		}
		BP rem = red.fullReduce();
		Poly rr = pu::rpoly(rem);
		vf::op("reduce");
		if (!f.zero() && !live.empty()) vf::observe(dd);
		std::string why;
		VF_CHECK(pu::canonical(rem, why), "reduce:canonical", dd << ": " << why);
		for (auto& [m, c] : rr.t) for (auto& g : live) if (!VF_CHECK(!ref::mdivides(g.lmon(), m), "reduce:reducible", dd << " leaves " << rr.str())) return;
		if (!VF_CHECK(rgb::member(f - rr, gb), "reduce:congruent", dd << " gives " << rr.str())) return;
		VF_CHECK(red.reductionOccured() == (rr != f), "reduce:occured", dd << " gives " << rr.str());
		// reasons: own one plus enough generators
		BitVector bits = rem.getReasons();
		VF_CHECK(bits.getBit(40), "reduce:own-reason", dd);
		decide_reasons("reduce:reasons", f - rr, bits, live, dd);
	}
}
/// generator sets under addition, elimination and copying
static void ideal_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3);
	auto id = std::make_unique<Ideal<MP>>();
	std::vector<Poly> gens;
	std::set<size_t> elim;
	std::string d;
	size_t steps = 3 + r.below(12);
	for (size_t s = 0; s < steps; ++s) {
		switch (r.below(6)) {
		case 0: case 1: {
			Poly p;
			do { p = gen_gen(r, nv); } while (p.zero());
			size_t k = id->addGenerator(pu::build(p, r));
			VF_CHECK(k == gens.size(), "ideal.add", d << " index " << k);
			gens.push_back(p);
			d += "; add " + p.str();
			break; }
		case 2: if (!gens.empty()) { size_t k = r.below(gens.size()); id->eliminateGenerator(k); elim.insert(k); d += "; eliminate " + std::to_string(k); } break;
		case 3: {
			id->removeEliminated();
			std::vector<Poly> g2;
			for (size_t i = 0; i < gens.size(); ++i) if (!elim.count(i)) g2.push_back(gens[i]);
			gens = g2;
			elim.clear();
			d += "; removeEliminated";
			break; }
		case 4: {
			auto c = std::make_unique<Ideal<MP>>(*id);
			std::vector<Poly> g2;
			for (size_t i = 0; i < gens.size(); ++i) if (!elim.count(i)) g2.push_back(gens[i]);
			gens = g2;
			elim.clear();
			id = std::move(c);
			d += "; copy";
			break; }
		default: if (r.chance(1, 4)) { id->clear(); gens.clear(); elim.clear(); d += "; clear"; } break;
		}
		vf::note(d);
		vf::op("ideal-step");
		VF_CHECK(id->nrGenerators() == gens.size(), "ideal.size", d << " reports " << id->nrGenerators());
		bool same = refs(id->getGenerators()) == gens;
		if (!VF_CHECK(same, "ideal.generators", d << " holds " << show(refs(id->getGenerators())))) return;
		for (int t = 0; t < 2; ++t) {
			ref::Mono m = pu::gen_mono(r, 4, nv);
			TQ term(pu::gen_c(r), pu::mono(m));
			auto res = id->getDivisor(term);
			bool any = false;
			for (size_t i = 0; i < gens.size(); ++i) if (!elim.count(i) && ref::mdivides(gens[i].lmon(), m)) any = true;
			if (!VF_CHECK(res.success() == any, "ideal.getDivisor", d << ": divisor of " << term << " reported " << res.success())) return;
			if (any) {
				Poly g = pu::rpoly(*res.mDivisor), f = pu::rpoly(res.mFactor);
				bool live = false;
				for (size_t i = 0; i < gens.size(); ++i) if (!elim.count(i) && gens[i] == g) live = true;
				VF_CHECK(live, "ideal.getDivisor:eliminated", d << ": divisor of " << term << " is " << g.str());
				VF_CHECK(f * Poly(g.lcoeff(), g.lmon()) == -pu::rpoly(term), "ideal.getDivisor:factor", d << ": divisor of " << term << " is " << g.str() << " factor " << f.str());
			}
		}
	}
	if (gens.size() > 1) vf::observe(d);
	if (gens.size() >= 2 && elim.empty()) {
		Ideal<MP> two(pu::build(gens[0], r), pu::build(gens[1], r));
		VF_CHECK(two.nrGenerators() == 2 && pu::rpoly(two.getGenerator(0)) == gens[0] && pu::rpoly(two.getGenerator(1)) == gens[1], "ideal.ctor2", d);
	}
	auto ord = id->getOrderedIndices();
	bool ok = ord.size() == gens.size();
	for (size_t i = 1; ok && i < ord.size(); ++i) ok = ref::mcmp(gens[ord[i - 1]].lmon(), gens[ord[i]].lmon()) <= 0;
	VF_CHECK(ok, "ideal.getOrderedIndices", d);
}
/// real-radical aware adding: contains the ideal, keeps the real zeros, is a reduced basis
static void real_case(vf::Rng& r) {
	size_t nv = 1 + r.below(3);
	std::vector<Q> pt(ref::NV);
	for (size_t i = 0; i < nv; ++i) pt[i] = r.coin() ? Q(0) : Q(r.range(-2, 2));
	std::vector<Poly> gens, gb;
	size_t n = 1 + r.below(3);
	for (size_t i = 0; i < n; ++i) {
		Poly p;
		switch (r.below(4)) {
		case 0: { // sum of even terms
			size_t k = 1 + r.below(3);
			for (size_t j = 0; j < k; ++j) { ref::Mono m = ref::mone(); m[r.below(nv)] += 2; if (r.coin()) m[r.below(nv)] += 2; p.add(m, Q(r.range(1, 3))); }
			if (r.coin()) p = p - Poly(p.eval(pt)); // keep the point as a zero
			break; }
		case 1: { ref::Mono m = ref::mone(); for (int j = 0; j < 3; ++j) m[r.below(nv)]++; p.add(m, Q(r.range(1, 3))); break; }
		default: p = gen_gen(r, nv); p = p - Poly(p.eval(pt)); break;
		}
		if (r.chance(1, 5)) p = ref::scale(p, -1);
		gens.push_back(p);
	}
	bool zero_at = true;
	for (auto& p : gens) zero_at = zero_at && p.eval(pt) == 0;
	if (!rgb::basis(gens, gb, 4000)) { vf::op("too-expensive"); return; }
	std::string d = "real-radical aware: " + show(gens);
	vf::note(d);
	if (gb.size() > 0) vf::observe(d);
	GBReal<BP> proc;
	for (size_t i = 0; i < gens.size(); ++i) {
		BP p(pu::build(gens[i], r));
		BitVector b;
		b.setBit(static_cast<unsigned>(i));
		p.setReasons(b);
		proc.addPolynomial(p);
		if (r.chance(1, 3)) { d += "; calculate after " + std::to_string(i); proc.calculate(); }
	}
	proc.calculate();
	vf::op("real-radical");
	std::vector<Poly> got = refs(proc.getBasisPolynomials()), own;
	for (auto& p : got) if (!VF_CHECK(!p.zero(), "gb.real:zero", d << " gives " << show(got))) return;
	if (!rgb::basis(got, own, 20000)) return;
	decide_basis("gb.real:reduced", proc.getBasisPolynomials(), own, d);
	for (auto& p : gens) if (!VF_CHECK(rgb::member(p, own), "gb.real:contains", d << " gives " << show(got) << " which lacks " << p.str())) return;
	if (zero_at) {
		vf::op("real-point");
		for (auto& p : got) if (!VF_CHECK(p.eval(pt) == 0, "gb.real:zeros", d << " gives " << p.str() << " not vanishing at a common zero")) return;
	}
}
/// generators with pairwise coprime leading monomials form a basis, so remainders are unique; long operands make terms meet
static void dense_case(vf::Rng& r) {
	size_t nv = 1 + r.below(4);
	std::vector<Poly> gens;
	std::string d;
	for (size_t i = 0; i < nv; ++i) {
		if (i > 0 && r.chance(1, 4)) continue;
		unsigned a = 1 + static_cast<unsigned>(r.below(3));
		Poly p;
		size_t n = r.below(7);
		for (size_t k = 0; k < n; ++k) {
			ref::Mono m = ref::mone();
			unsigned e = static_cast<unsigned>(r.below(a));
			for (unsigned j = 0; j < e; ++j) m[r.below(nv)]++;
			p.add(m, Q(r.coin() ? 1 : r.range(-3, 3)));
		}
		ref::Mono lead = ref::mone();
		lead[i] = a;
		p.add(lead, Q(r.coin() ? 1 : r.range(1, 3)) - (p.t.count(lead) ? p.t.at(lead) : Q(0)));
		gens.push_back(p);
	}
	d = show(gens);
	Ideal<MP> ideal;
	for (auto& g : gens) ideal.addGenerator(pu::build(g, r));
	for (int t = 0; t < 2; ++t) {
		Poly f;
		size_t n = 1 + r.below(14);
		for (size_t k = 0; k < n; ++k) {
			ref::Mono m = ref::mone();
			unsigned e = static_cast<unsigned>(r.below(6));
			for (unsigned j = 0; j < e; ++j) m[r.below(nv)]++;
			f.add(m, Q(r.coin() ? 1 : r.range(-3, 3)));
		}
		std::string dd = d + ": reduce " + f.str();
		vf::note(dd);
		long b = 60000;
		Poly want = rgb::reduce(f, gens, b);
		if (b < 0) { vf::op("too-expensive"); continue; }
		vf::op("dense-reduce");
		vf::observe(dd);
		Reductor<MP, MP> red(ideal, pu::build(f, r));
		MP rem = red.fullReduce();
		CK(rem, want, "gb.dense", dd);
		std::string why;
		VF_CHECK(pu::canonical(rem, why), "gb.dense:canonical", dd << ": " << why);
		VF_CHECK(red.reductionOccured() == (f != want), "gb.dense:occured", dd);
	}
	if (r.chance(1, 3)) {
		std::vector<Poly> gb;
		if (!rgb::basis(gens, gb, 20000)) return;
		GBStd<MP> proc;
		for (auto& g : gens) proc.addPolynomial(pu::build(g, r));
		proc.calculate();
		decide_basis("gb.dense-basis", proc.getBasisPolynomials(), gb, d);
	}
}
/// many short generators over few monomials: least common multiples coincide, so the pair criteria are exercised
static void pairs_case(vf::Rng& r) {
	size_t nv = 3 + r.below(2), n = 3 + r.below(4);
	std::vector<Poly> gens, gb;
	for (size_t i = 0; i < n; ++i) {
		Poly p;
		size_t k = 1 + r.below(2);
		for (size_t j = 0; j <= k; ++j) {
			ref::Mono m = ref::mone();
			unsigned e = j == 0 ? 2 + static_cast<unsigned>(r.below(2)) : static_cast<unsigned>(r.below(3));
			for (unsigned l = 0; l < e; ++l) m[r.below(nv)]++;
			p.add(m, j == 0 ? Q(1) : Q(r.coin() ? 1 : -1));
		}
		gens.push_back(p);
	}
	if (!rgb::basis(gens, gb, 12000)) { vf::op("too-expensive"); return; }
	std::string d = show(gens);
	vf::note(d);
	vf::op(gb[0] == Poly(1) ? "pairs-one" : "pairs");
	if (gb.size() > 1) vf::observe(d);
	GBStd<MP> proc;
	for (size_t i = 0; i < gens.size(); ++i) {
		proc.addPolynomial(pu::build(gens[i], r));
		if (r.chance(1, 6)) { proc.calculate(); d += "; calculate after " + std::to_string(i); }
	}
	proc.calculate();
	decide_basis("gb.pairs", proc.getBasisPolynomials(), gb, d);
}
int main(int argc, char** argv) {
	pu::V();
	vf::add_group("incremental", 12000, 300000, incremental_case<GBStd<BP>>);
	vf::add_group("order", 6000, 150000, order_case);
	vf::add_group("reduce", 8000, 200000, reduce_case);
	vf::add_group("ideal", 15000, 400000, ideal_case);
	vf::add_group("real", 8000, 200000, real_case);
	vf::add_group("dense", 8000, 200000, dense_case);
	vf::add_group("pairs", 8000, 200000, pairs_case);
	return vf::run(argc, argv);
}
