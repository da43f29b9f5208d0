// C04: the monomial pool under create/release histories in one thread.
#include <polyutil.h>
#include <carl/core/MonomialPool.h>

using namespace pu;
using vf::Rng;
namespace {
carl::MonomialPool& pool() { return carl::MonomialPool::getInstance(); }
std::size_t& base() { static std::size_t b = pool().size(); return b; }
/// the largest number of simultaneously live monomials since the process started
std::size_t& peak() { static std::size_t p = 0; return p; }

struct Live {
	std::vector<std::pair<MA, ref::Mono>> v;
	std::string log;

	std::map<ref::Mono, const carl::Monomial*> distinct() const {
		std::map<ref::Mono, const carl::Monomial*> r;
		for (auto& x : v) if (x.first) r[x.second] = x.first.get();
		return r;
	}
	void touch() { peak() = std::max(peak(), pool().size() - base()); }
	void add(MA m, const ref::Mono& want, const char* how) {
		touch();
		vf::op(how);
		VF_CHECK((m == nullptr) == (ref::mdeg(want) == 0), std::string("pool.") + how + ":one", log << how << " of " << ref::mstr(want) << " gave " << m);
		if (!m) return;
		VF_CHECK(rmono(m) == want && m->tdeg() == ref::mdeg(want) && m->id() != 0, std::string("pool.") + how, log << how << " gave " << m << " expected " << ref::mstr(want));
		VF_CHECK(m->hash() == carl::Monomial::hashContent(m->exponents()), std::string("pool.") + how + ":hash", log << how << " gave " << m);
		for (auto& x : v) if ((x.second == want) != (x.first == m)) { VF_CHECK(false, std::string("pool.") + how + ":unique", log << how << " of " << ref::mstr(want) << (x.first == m ? " is the object of another monomial" : " is a second object")); break; }
		v.emplace_back(std::move(m), want);
	}
	void verify(const std::string& when) {
		auto d = distinct();
		std::map<std::size_t, const carl::Monomial*> ids;
		for (auto& x : v) {
			VF_CHECK(rmono(x.first) == x.second, "pool.content", log << when << ": a monomial changed to " << x.first << ", was " << ref::mstr(x.second));
			auto it = d.find(x.second);
			VF_CHECK(it->second == x.first.get(), "pool.unique", log << when << ": two objects for " << x.first);
			auto r = ids.emplace(x.first->id(), x.first.get());
			VF_CHECK(r.first->second == x.first.get(), "pool.id", log << when << ": " << x.first << " shares its identifier " << x.first->id());
			VF_CHECK(x.first->id() <= pool().largestID(), "pool.id-bound", log << when << ": identifier " << x.first->id() << " exceeds " << pool().largestID());
		}
		VF_CHECK(pool().size() == base() + d.size(), "pool.size", log << when << ": pool holds " << pool().size() << ", " << d.size() << " monomials are alive");
		VF_CHECK(pool().largestID() <= base() + peak() + 8, "pool.id-leak", log << when << ": identifiers up to " << pool().largestID() << " although at most " << peak() << " monomials were alive at once");
	}
};

ref::Mono rnd(Rng& r, unsigned maxexp) {
	ref::Mono m = ref::mone();
	for (long k = r.range(1, 3); k > 0; --k) m[r.below(ref::NV)] = static_cast<unsigned>(r.range(0, maxexp));
	if (ref::mdeg(m) == 0) m[r.below(ref::NV)] = 1;
	return m;
}
carl::Monomial::Content content(const ref::Mono& m) {
	carl::Monomial::Content c;
	for (size_t i = 0; i < ref::NV; ++i) if (m[i]) c.emplace_back(V()[i], m[i]);
	return c;
}

/// one random creation
void create(Live& l, Rng& r, unsigned maxexp) {
	ref::Mono m = rnd(r, maxexp);
	switch (r.below(12)) {
		case 0: {
			std::size_t v = r.below(ref::NV);
			unsigned e = static_cast<unsigned>(r.range(1, maxexp));
			m = ref::mone();
			m[v] = e;
			l.log += "x" + std::to_string(v) + "^" + std::to_string(e) + "; ";
			l.add(carl::createMonomial(V()[v], carl::exponent(e)), m, "power");
			break;
		}
		case 1: {
			l.log += "sorted" + ref::mstr(m) + "; ";
			l.add(carl::createMonomial(content(m), carl::exponent(ref::mdeg(m))), m, "sorted");
			break;
		}
		case 2: { // unsorted list of two variables
			std::size_t a = r.below(ref::NV), b = (a + 1 + r.below(ref::NV - 1)) % ref::NV;
			unsigned e = static_cast<unsigned>(r.range(1, maxexp)), f = static_cast<unsigned>(r.range(1, maxexp));
			m = ref::mone();
			m[a] = e;
			m[b] = f;
			l.log += "list" + ref::mstr(m) + "; ";
			l.add(carl::createMonomial(std::initializer_list<std::pair<carl::Variable, carl::exponent>>{{V()[a], e}, {V()[b], f}}), m, "list");
			break;
		}
		case 3: case 4: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())], b = l.v[r.below(l.v.size())];
			if (ref::mdeg(a.second) + ref::mdeg(b.second) > 40) break;
			l.log += "product" + ref::mstr(a.second) + "," + ref::mstr(b.second) + "; ";
			l.add(a.first * b.first, ref::mmul(a.second, b.second), "product");
			break;
		} // fall through
		case 5: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())];
			std::size_t v = r.below(ref::NV);
			m = a.second;
			m[v] = 0;
			l.log += "drop" + ref::mstr(a.second) + "; ";
			l.add(a.first->dropVariable(V()[v]), m, "dropVariable");
			break;
		} // fall through
		case 6: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())], b = l.v[r.below(l.v.size())];
			l.log += "divide" + ref::mstr(a.second) + "," + ref::mstr(b.second) + "; ";
			MA res;
			bool ok = a.first->divide(b.first, res);
			VF_CHECK(ok == ref::mdivides(b.second, a.second), "pool.divide:possible", l.log);
			if (ok) l.add(res, ref::mquo(a.second, b.second), "divide");
			break;
		} // fall through
		case 7: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())], b = l.v[r.below(l.v.size())];
			l.log += "lcm" + ref::mstr(a.second) + "," + ref::mstr(b.second) + "; ";
			l.add(carl::Monomial::lcm(a.first, b.first), ref::mlcm(a.second, b.second), "lcm");
			break;
		} // fall through
		case 8: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())];
			std::size_t v = r.below(ref::NV);
			if (ref::mdeg(a.second) > 40) break;
			m = a.second;
			++m[v];
			l.log += "times" + ref::mstr(a.second) + "; ";
			l.add(a.first * V()[v], m, "times-variable");
			break;
		} // fall through
		case 9: if (!l.v.empty()) {
			auto a = l.v[r.below(l.v.size())];
			bool sq = true;
			ref::Mono h = a.second;
			for (auto& e : h) { sq = sq && e % 2 == 0; e /= 2; }
			l.log += "sqrt" + ref::mstr(a.second) + "; ";
			MA s = a.first->sqrt();
			VF_CHECK((s != nullptr) == sq, "pool.sqrt:possible", l.log);
			if (sq) l.add(s, h, "sqrt");
			break;
		} // fall through
		case 10: if (!l.v.empty()) { // copy
			auto a = l.v[r.below(l.v.size())];
			l.log += "copy; ";
			l.add(a.first, a.second, "copy");
			break;
		} // fall through
		default:
			l.log += "vector" + ref::mstr(m) + "; ";
			l.add(carl::createMonomial(content(m)), m, "vector");
	}
}

void drop(Live& l, Rng& r) {
	if (l.v.empty()) return;
	std::size_t i = r.below(l.v.size());
	vf::op("release");
	l.log += "release" + ref::mstr(l.v[i].second) + "; ";
	if (r.coin()) { // all copies: the object itself dies
		ref::Mono m = l.v[i].second;
		for (std::size_t j = l.v.size(); j-- > 0;) if (l.v[j].second == m) l.v.erase(l.v.begin() + static_cast<long>(j));
	} else l.v.erase(l.v.begin() + static_cast<long>(i));
}

void g_history(Rng& r) {
	Live l;
	base();
	unsigned maxexp = static_cast<unsigned>(r.range(1, 4));
	for (long i = 0, n = r.range(5, 40); i < n; ++i) {
		if (r.chance(2, 5)) drop(l, r);
		else create(l, r, maxexp);
		vf::note(l.log);
		if (r.chance(1, 3)) l.verify("step " + std::to_string(i));
	}
	l.verify("end");
	vf::observe(l.log);
	l.v.clear();
	l.verify("after release");
}

/// thousands of live monomials: the pool's table is rebuilt several times
void g_rehash(Rng& r) {
	Live l;
	base();
	std::map<ref::Mono, MA> live;
	long n = r.range(800, 5000);
	l.log = "many " + std::to_string(n) + ": ";
	vf::op("rehash");
	for (int phase = 0; phase < 4; ++phase) {
		std::map<std::size_t, const carl::Monomial*> ids;
		for (long i = 0; i < n; ++i) {
			ref::Mono m = ref::mone();
			for (auto& e : m) e = static_cast<unsigned>(r.below(9));
			if (ref::mdeg(m) == 0) continue;
			MA x = carl::createMonomial(content(m));
			l.touch();
			auto it = live.find(m);
			if (it != live.end()) VF_CHECK(it->second == x, "pool.rehash:unique", l.log << ref::mstr(m) << " created twice");
			else live[m] = x;
		}
		for (auto& x : live) {
			VF_CHECK(rmono(x.second) == x.first, "pool.rehash:content", l.log << ref::mstr(x.first) << " became " << x.second);
			VF_CHECK(ids.emplace(x.second->id(), x.second.get()).second, "pool.rehash:id", l.log << ref::mstr(x.first) << " shares its identifier");
			VF_CHECK(carl::createMonomial(content(x.first)) == x.second, "pool.rehash:lookup", l.log << ref::mstr(x.first) << " is not found any more");
		}
		VF_CHECK(pool().size() == base() + live.size(), "pool.rehash:size", l.log << pool().size() << " in the pool, " << live.size() << " alive");
		VF_CHECK(pool().largestID() <= base() + peak() + 8, "pool.rehash:id-leak", l.log << "identifiers up to " << pool().largestID() << " although at most " << peak() << " monomials were alive at once");
		for (auto it = live.begin(); it != live.end();) if (r.chance(2, 3)) it = live.erase(it); else ++it;
		VF_CHECK(pool().size() == base() + live.size(), "pool.rehash:release", l.log << pool().size() << " in the pool, " << live.size() << " alive");
	}
	vf::observe(l.log + std::to_string(r.next()));
	live.clear();
	l.verify("after release");
}

/// polynomials hold exactly the monomials of their terms
void g_polys(Rng& r) {
	Live l;
	base();
	{
		std::vector<std::pair<MP, ref::Poly>> ps;
		for (long i = 0, n = r.range(3, 14); i < n; ++i) {
			vf::op("polynomial");
			if (ps.size() < 2 || r.chance(1, 4)) {
				ref::Poly p = gen_poly(r, 5, 2, 3);
				l.log += "new " + p.str() + "; ";
				vf::note(l.log);
				ps.emplace_back(build(p, r), p);
			} else if (r.chance(1, 4)) {
				l.log += "release; ";
				ps.erase(ps.begin() + static_cast<long>(r.below(ps.size())));
			} else {
				auto a = ps[r.below(ps.size())], b = ps[r.below(ps.size())];
				l.log += "combine; ";
				vf::note(l.log);
				switch (r.below(5)) {
					case 0: ps.emplace_back(a.first + b.first, a.second + b.second); break;
					case 1: ps.emplace_back(a.first - b.first, a.second - b.second); break;
					case 2: ps.emplace_back(carl::derivative(a.first, V()[0]), ref::deriv(a.second, 0)); break;
					default: if (a.second.t.size() * b.second.t.size() < 60) ps.emplace_back(a.first * b.first, a.second * b.second);
				}
			}
			l.touch();
			std::map<ref::Mono, const carl::Monomial*> seen;
			std::set<std::size_t> ids;
			for (auto& p : ps) for (const auto& t : p.first) if (t.monomial()) {
				auto e = seen.emplace(rmono(t.monomial()), t.monomial().get());
				VF_CHECK(e.first->second == t.monomial().get(), "pool.poly:unique", l.log << " two objects for " << t.monomial());
				if (e.second) VF_CHECK(ids.insert(t.monomial()->id()).second, "pool.poly:id", l.log << t.monomial() << " shares its identifier");
			}
			VF_CHECK(pool().size() >= base() + seen.size(), "pool.poly:missing", l.log << pool().size() << " in the pool, " << seen.size() << " alive");
			VF_CHECK(rpoly(ps.empty() ? MP() : ps.back().first) == (ps.empty() ? ref::Poly() : ps.back().second), "pool.poly:value", l.log);
		}
		vf::observe(l.log);
	}
	VF_CHECK(pool().size() == base(), "pool.poly:leak", l.log << pool().size() - base() << " monomials remain in the pool");
	VF_CHECK(pool().largestID() <= base() + peak() + 64, "pool.poly:id-leak", l.log << pool().largestID());
}
} // namespace

int main(int argc, char** argv) {
	V();
	base();
	vf::add_group("history", 24000, 300000, g_history);
	vf::add_group("rehash", 64, 800, g_rehash);
	vf::add_group("polys", 12000, 150000, g_polys);
	return vf::run(argc, argv);
}
