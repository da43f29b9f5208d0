// C04: monomials and polynomials of a thread-safe build used from several threads.
#include <polyutil.h>
#include <threads.h>
#include <carl/core/MonomialPool.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Substitution.h>

using namespace pu;
using vf::Rng;
namespace {
carl::MonomialPool& pool() { return carl::MonomialPool::getInstance(); }

struct Worker : th::Log {
	std::vector<std::pair<MA, ref::Mono>> ms;
	std::vector<std::pair<MP, ref::Poly>> ps;
	explicit Worker(uint64_t s) : th::Log(s) {}
};

carl::Monomial::Content content(const ref::Mono& m) {
	carl::Monomial::Content c;
	for (size_t i = 0; i < ref::NV; ++i) if (m[i]) c.emplace_back(V()[i], m[i]);
	return c;
}

bool expect(Worker& w, const MA& m, const ref::Mono& want, const char* how) {
	if (!TH_CHECK(w, (m == nullptr) == (ref::mdeg(want) == 0), std::string("thread.") + how + ":one", how << " of" << ref::mstr(want) << " gave " << m)) return false;
	if (!m) return true;
	return TH_CHECK(w, rmono(m) == want && m->tdeg() == ref::mdeg(want) && m->id() != 0, std::string("thread.") + how, how << " gave " << m << " expected" << ref::mstr(want));
}
bool expect(Worker& w, const MP& p, const ref::Poly& want, const char* how) {
	return TH_CHECK(w, rpoly(p) == want, std::string("thread.") + how, how << " gave " << p << " expected " << want.str());
}

/// no worker is running: everything alive is unique and the pool holds nothing else
void global(std::vector<Worker>& ws, const std::vector<std::pair<MP, ref::Poly>>& shared, std::size_t base, const std::string& what) {
	std::map<ref::Mono, const carl::Monomial*> d;
	std::map<std::size_t, const carl::Monomial*> ids;
	auto see = [&](const MA& m, const ref::Mono& c) {
		auto r = d.emplace(c, m.get());
		VF_CHECK(r.first->second == m.get(), "thread.unique", what << ": two live objects for " << m);
		auto i = ids.emplace(m->id(), m.get());
		VF_CHECK(i.first->second == m.get(), "thread.id", what << ": " << m << " shares its identifier " << m->id());
		VF_CHECK(m->id() <= pool().largestID(), "thread.id-bound", what << ": " << m->id());
	};
	for (auto& w : ws) {
		for (auto& x : w.ms) if (x.first) {
			VF_CHECK(rmono(x.first) == x.second, "thread.content", what << ": " << x.first << " expected" << ref::mstr(x.second));
			see(x.first, x.second);
		}
		for (auto& p : w.ps) {
			VF_CHECK(rpoly(p.first) == p.second, "thread.poly-content", what << ": " << p.first << " expected " << p.second.str());
			for (const auto& t : p.first) if (t.monomial()) see(t.monomial(), rmono(t.monomial()));
		}
	}
	for (auto& p : shared) for (const auto& t : p.first) if (t.monomial()) see(t.monomial(), rmono(t.monomial()));
	VF_CHECK(pool().size() == base + d.size(), "thread.size", what << ": pool holds " << pool().size() - base << ", " << d.size() << " monomials are alive");
}

std::vector<Worker> workers(Rng& r, long lo, long hi) {
	std::vector<Worker> ws;
	for (long i = 0, n = r.range(lo, hi); i < n; ++i) ws.emplace_back(r.next());
	return ws;
}
void release(std::vector<Worker>& ws) {
	th::round(ws, [](std::size_t, Worker& w) {
		while (!w.ms.empty() || !w.ps.empty()) {
			w.op("release");
			if (!w.ms.empty()) w.ms.pop_back();
			if (!w.ps.empty()) w.ps.pop_back();
		}
	});
}

/// all threads create and release the same few monomials: dying and reborn objects
void g_rebirth(Rng& r) {
	std::size_t base = pool().size();
	auto ws = workers(r, 2, 4);
	std::vector<ref::Mono> hot;
	for (long i = 0, n = r.range(1, 4); i < n; ++i) hot.push_back(ref::mmul(gen_mono(r, 2, 3), ref::Mono{1}));
	long ops = r.range(30, 120);
	std::string what = "rebirth of " + std::to_string(hot.size()) + " monomials by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	std::size_t keep = r.below(3);
	for (int k = 0; k < 2; ++k) {
		th::round(ws, [&](std::size_t, Worker& w) {
			for (long i = 0; i < ops; ++i) {
				const ref::Mono& m = hot[w.r.below(hot.size())];
				switch (w.r.below(4)) {
					case 0: { // two at once must be one object
						w.op("create twice");
						MA a = carl::createMonomial(content(m)), b = carl::createMonomial(content(m), carl::exponent(ref::mdeg(m)));
						expect(w, a, m, "create");
						TH_CHECK(w, a == b && a->id() == b->id(), "thread.create:twice", "two objects for " << a);
						break;
					}
					case 1: {
						w.op("product");
						MA a = carl::createMonomial(content(m));
						MA b = a * V()[0];
						ref::Mono n = m;
						++n[0];
						expect(w, b, n, "product");
						MA c;
						TH_CHECK(w, b->divide(V()[0], c) && c == a, "thread.divide", b << " divided again gave " << c);
						break;
					}
					default: {
						w.op("create");
						MA a = carl::createMonomial(content(m));
						expect(w, a, m, "create");
						if (w.ms.size() < keep) w.ms.emplace_back(std::move(a), m);
						else if (!w.ms.empty() && w.r.coin()) w.ms.pop_back();
					}
				}
			}
		});
		global(ws, {}, base, what);
	}
	release(ws);
	global(ws, {}, base, what + " after release");
	th::report(ws, what);
}

/// polynomial arithmetic, partly on polynomials shared by all threads
void g_arith(Rng& r) {
	std::size_t base = pool().size();
	{
		auto ws = workers(r, 2, 4);
		std::vector<std::pair<MP, ref::Poly>> shared;
		for (int i = 0; i < 3; ++i) {
			ref::Poly p = gen_poly(r, 4, 2, 3);
			shared.emplace_back(build(p, r), p);
			shared.back().first.makeOrdered();
		}
		long ops = r.range(8, 25);
		std::string what = "arithmetic by " + std::to_string(ws.size()) + " threads on";
		for (auto& s : shared) what += " " + s.second.str() + ",";
		vf::note(what);
		for (int k = 0; k < 2; ++k) {
			th::round(ws, [&](std::size_t, Worker& w) {
				auto pick = [&]() -> const std::pair<MP, ref::Poly>& { return w.ps.empty() || w.r.coin() ? shared[w.r.below(shared.size())] : w.ps[w.r.below(w.ps.size())]; };
				for (long i = 0; i < ops; ++i) {
					const auto a = pick();
					const auto& b = pick();
					std::pair<MP, ref::Poly> c;
					switch (w.r.below(9)) {
						case 0: w.op("add"); c = {a.first + b.first, a.second + b.second}; expect(w, c.first, c.second, "add"); break;
						case 1: w.op("sub"); c = {a.first - b.first, a.second - b.second}; expect(w, c.first, c.second, "sub"); break;
						case 2: case 3: if (a.second.t.size() * b.second.t.size() < 40) { w.op("mul"); c = {a.first * b.first, a.second * b.second}; expect(w, c.first, c.second, "mul"); } break;
						case 4: {
							w.op("compare");
							TH_CHECK(w, (a.first == b.first) == (a.second == b.second), "thread.equal", a.first << " and " << b.first);
							MP x = a.first, y = b.first;
							TH_CHECK(w, (x < y) + (y < x) + (x == y) == 1, "thread.order", x << " and " << y);
							TH_CHECK(w, a.second != b.second || std::hash<MP>()(x) == std::hash<MP>()(y), "thread.hash", x << " and " << y);
							break;
						}
						case 5: {
							w.op("derivative");
							std::size_t v = w.r.below(3);
							c = {carl::derivative(a.first, V()[v]), ref::deriv(a.second, v)};
							expect(w, c.first, c.second, "derivative");
							break;
						}
						case 6: {
							w.op("substitute");
							std::size_t v = w.r.below(3);
							if (a.second.deg(v) > 3) break;
							c = {carl::substitute(a.first, V()[v], MP(V()[(v + 1) % 3]) + MP(Q(1))), ref::subst(a.second, {{v, ref::Poly::var((v + 1) % 3) + ref::Poly(1)}})};
							expect(w, c.first, c.second, "substitute");
							break;
						}
						case 7: {
							w.op("new");
							ref::Poly p = gen_poly(w.r, 4, 2, 3);
							c = {build(p, w.r), p};
							expect(w, c.first, p, "new");
							break;
						}
						default: {
							w.op("add monomial");
							ref::Mono m = gen_mono(w.r, 2, 3);
							MP x = a.first;
							x += TQ(Q(3), mono(m));
							c = {x, a.second + ref::Poly(3, m)};
							expect(w, c.first, c.second, "add-monomial");
						}
					}
					if (c.second.t.size() > 0 && c.second.t.size() < 25 && c.second.tdeg() < 9) w.ps.push_back(std::move(c));
					while (w.ps.size() > 4) w.ps.erase(w.ps.begin() + static_cast<long>(w.r.below(w.ps.size())));
				}
			});
			global(ws, shared, base, what);
		}
		release(ws);
		global(ws, shared, base, what + " after release");
		th::report(ws, what);
	}
	VF_CHECK(pool().size() == base, "thread.leak", "the pool still holds " << pool().size() - base << " monomials");
}

/// the table is rebuilt while other threads look monomials up
void g_growth(Rng& r) {
	std::size_t base = pool().size();
	auto ws = workers(r, 2, 4);
	std::string what = "growth by " + std::to_string(ws.size()) + " threads";
	vf::note(what);
	long n = r.range(300, 900);
	for (int k = 0; k < 2; ++k) {
		th::round(ws, [&](std::size_t i, Worker& w) {
			for (long j = 0; j < n; ++j) {
				ref::Mono m = ref::mone();
				for (auto& e : m) e = static_cast<unsigned>(w.r.below(4));
				if (ref::mdeg(m) == 0) continue;
				w.op("create");
				MA x = carl::createMonomial(content(m));
				expect(w, x, m, "create");
				if (i == 0 || w.r.coin()) w.ms.emplace_back(std::move(x), m);
				if (!w.ms.empty() && w.r.chance(1, 3)) {
					std::swap(w.ms[w.r.below(w.ms.size())], w.ms.back());
					w.ms.pop_back();
				}
				if (j % 64 == 0) TH_CHECK(w, pool().size() < 1000000 && pool().largestID() < 1000000, "thread.count", pool().size());
			}
		});
		global(ws, {}, base, what);
	}
	release(ws);
	global(ws, {}, base, what + " after release");
	th::report(ws, what);
}
} // namespace

int main(int argc, char** argv) {
	V();
	pool();
	vf::add_group("rebirth", 2400, 40000, g_rebirth);
	vf::add_group("arith", 1600, 25000, g_arith);
	vf::add_group("growth", 48, 800, g_growth);
	return vf::run(argc, argv);
}
