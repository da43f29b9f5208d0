// C21: util containers against plain reference models: heap, packed tree, growable
// bitset, bit vector, ordered tree, id pools and the reference counted result cache.
#include "../common/vf.h"

#include <cassert>
#include <carl/util/platform.h>
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/Heap.h>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
#include <carl/util/Cache.h>
#include <carl/util/carlTree.h>

#include <algorithm>
#include <memory>

using vf::Rng;

// ---------------------------------------------------------------- Bitset
namespace {

constexpr std::size_t U = 230; // indices decided explicitly; beyond it only the default shows

struct MSet {
	bool dflt = false;
	std::vector<bool> b = std::vector<bool>(U, false);
	explicit MSet(bool d = false) : dflt(d), b(U, d) {}
	bool operator==(const MSet& o) const { return dflt == o.dflt && b == o.b; }
};
std::string show(const MSet& m) {
	std::string s;
	for (std::size_t i = 0; i < U; ++i) if (m.b[i] != m.dflt) s += std::to_string(i) + ",";
	return s + (m.dflt ? "|1" : "|0");
}

void agree(const carl::Bitset& x, const MSet& m, const char* key) {
	bool ok = true;
	std::size_t bad = 0;
	for (std::size_t i = 0; i < U; ++i) if (x.test(i) != m.b[i]) { ok = false; bad = i; break; }
	if (ok && x.test(U + 500) != m.dflt) { ok = false; bad = U + 500; }
	VF_CHECK(ok, std::string("bitset.") + key, "bit " << bad << " of " << x << " differs from model " << show(m));
}
void members(const carl::Bitset& x, const MSet& m) {
	if (m.dflt) return;
	std::vector<std::size_t> got, want;
	for (std::size_t i = 0; i < U; ++i) if (m.b[i]) want.push_back(i);
	std::size_t guard = 0;
	for (auto it = x.begin(); it != x.end() && guard < 2 * U; ++it, ++guard) got.push_back(*it);
	VF_CHECK(got == want, "bitset.iterate", "iteration over " << x << " gives " << got.size() << " of " << want.size() << " members");
	VF_CHECK(x.count() == want.size(), "bitset.count", x << " count " << x.count());
	VF_CHECK(x.any() == !want.empty() && x.none() == want.empty(), "bitset.any", x << " any " << x.any() << " none " << x.none());
	VF_CHECK(x.find_first() == (want.empty() ? carl::Bitset::npos : want.front()), "bitset.first", x << " first " << x.find_first());
	if (!want.empty()) {
		auto it = x.begin();
		auto old = it++;
		VF_CHECK(*old == want[0] && (want.size() == 1 ? it == x.end() : *it == want[1]), "bitset.postfix", "post increment over " << x);
	}
}

void g_bitset(Rng& r) {
	std::vector<carl::Bitset> xs;
	std::vector<MSet> ms;
	std::string log;
	for (int i = 0; i < 3; ++i) {
		bool d = r.chance(1, 3);
		if (d || r.coin()) {
			xs.emplace_back(d);
			ms.emplace_back(d);
		} else {
			std::size_t a = r.below(U), b = r.below(70), c = r.below(U);
			xs.push_back(carl::Bitset({a, b, c}, d));
			ms.emplace_back(d);
			ms.back().b[a] = ms.back().b[b] = ms.back().b[c] = true;
		}
		agree(xs.back(), ms.back(), "construct");
	}
	int n = static_cast<int>(r.range(5, 25));
	for (int s = 0; s < n; ++s) {
		std::size_t i = r.below(3), j = r.below(3);
		auto& x = xs[i];
		auto& m = ms[i];
		std::size_t k = r.coin() ? r.below(70) : r.below(U);
		unsigned o = static_cast<unsigned>(r.below(14));
		log += " " + std::to_string(o) + ":" + std::to_string(i) + std::to_string(j) + "," + std::to_string(k);
		vf::note("bitset" + log);
		switch (o) {
			case 0: vf::op("set"); x.set(k); m.b[k] = true; agree(x, m, "set"); break;
			case 1: { bool v = r.coin(); vf::op("set_value"); x.set(k, v); m.b[k] = v; agree(x, m, "set"); break; }
			case 2: vf::op("reset"); x.reset(k); m.b[k] = false; agree(x, m, "reset"); break;
			case 3: {
				std::size_t l = r.below(U); if (l < k) std::swap(l, k);
				bool v = r.coin();
				vf::op("set_interval");
				x.set_interval(k, l, v);
				for (std::size_t q = k; q <= l; ++q) m.b[q] = v;
				agree(x, m, "set_interval");
				break;
			}
			case 4: vf::op("&="); x &= xs[j]; for (std::size_t q = 0; q < U; ++q) m.b[q] = m.b[q] && ms[j].b[q]; m.dflt = m.dflt && ms[j].dflt; agree(x, m, "and-assign"); break;
			case 5: vf::op("|="); x |= xs[j]; for (std::size_t q = 0; q < U; ++q) m.b[q] = m.b[q] || ms[j].b[q]; m.dflt = m.dflt || ms[j].dflt; agree(x, m, "or-assign"); break;
			case 6:
				if (m.dflt != ms[j].dflt || i == j) break; // asserted precondition
				vf::op("-=");
				x -= xs[j];
				for (std::size_t q = 0; q < U; ++q) m.b[q] = m.b[q] && !ms[j].b[q];
				m.dflt = m.dflt && !ms[j].dflt;
				agree(x, m, "minus-assign");
				break;
			case 7: vf::op("&"); { carl::Bitset y = xs[i] & xs[j]; MSet z(m.dflt && ms[j].dflt); for (std::size_t q = 0; q < U; ++q) z.b[q] = m.b[q] && ms[j].b[q]; agree(y, z, "and"); x = y; m = z; } break;
			case 8: vf::op("|"); { carl::Bitset y = xs[i] | xs[j]; MSet z(m.dflt || ms[j].dflt); for (std::size_t q = 0; q < U; ++q) z.b[q] = m.b[q] || ms[j].b[q]; agree(y, z, "or"); x = y; m = z; } break;
			case 9: vf::op("~"); { carl::Bitset y = ~x; MSet z(!m.dflt); for (std::size_t q = 0; q < U; ++q) z.b[q] = !m.b[q]; agree(y, z, "not"); x = y; m = z; } break;
			case 10:
				vf::op("resize");
				if (k >= x.size() && k < U) {
					if (r.coin()) x.resize(k);
					else {
						bool v = r.coin();
						for (std::size_t q = x.size(); q < k; ++q) m.b[q] = v;
						x.resize(k, v);
					}
				}
				agree(x, m, "resize");
				break;
			case 11: {
				vf::op("subset");
				bool sub = !(m.dflt && !ms[j].dflt);
				for (std::size_t q = 0; q < U; ++q) if (m.b[q] && !ms[j].b[q]) sub = false;
				VF_CHECK(xs[i].is_subset_of(xs[j]) == sub, "bitset.subset", show(m) << " subset of " << show(ms[j]));
				break;
			}
			case 12: {
				vf::op("find_next");
				if (m.dflt) break;
				std::size_t want = carl::Bitset::npos;
				for (std::size_t q = k + 1; q < U; ++q) if (m.b[q]) { want = q; break; }
				VF_CHECK(x.find_next(k) == want, "bitset.next", x << " next after " << k << " is " << x.find_next(k));
				break;
			}
			default: { vf::op("copy"); x = xs[j]; m = ms[j]; agree(x, m, "copy"); break; }
		}
	}
	for (int i = 0; i < 3; ++i) members(xs[i], ms[i]);
	std::string c;
	for (int i = 0; i < 3; ++i) c += show(ms[i]) + ";";
	vf::observe(c + log);
	// equality, order and hash see the represented set only
	vf::op("compare");
	std::hash<carl::Bitset> h;
	std::vector<std::size_t> hs;
	std::vector<std::vector<bool>> lt(3, std::vector<bool>(3));
	for (int i = 0; i < 3; ++i) hs.push_back(h(xs[i]));
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) lt[i][j] = xs[i] < xs[j];
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		bool eq = ms[i] == ms[j];
		VF_CHECK((xs[i] == xs[j]) == eq, "bitset.eq", xs[i] << " == " << xs[j] << ", model says " << eq);
		VF_CHECK(lt[i][j] == (xs[i] < xs[j]), "bitset.less-stable", xs[i] << " < " << xs[j] << " changed after a comparison");
		VF_CHECK((xs[i] < xs[j]) + (xs[j] < xs[i]) + eq == 1, "bitset.trichotomy", show(ms[i]) << " and " << show(ms[j]) << ": lt " << (xs[i] < xs[j]) << " gt " << (xs[j] < xs[i]) << " eq " << eq);
		if (eq) VF_CHECK(hs[i] == hs[j], "bitset.hash", "equal sets " << show(ms[i]) << " hash differently");
		for (int k = 0; k < 3; ++k) if (xs[i] < xs[j] && xs[j] < xs[k]) VF_CHECK(xs[i] < xs[k], "bitset.transitive", show(ms[i]) << " / " << show(ms[j]) << " / " << show(ms[k]));
	}
	// a second object holding the same set, built bit by bit in another order
	int i = static_cast<int>(r.below(3));
	carl::Bitset y(ms[i].dflt);
	if (r.coin()) y.set(r.below(U), ms[i].dflt);
	for (std::size_t q = U; q-- > 0;) if (ms[i].b[q] != ms[i].dflt) y.set(q, ms[i].b[q]);
	std::size_t hy = h(y);
	VF_CHECK(hy == h(xs[i]), "bitset.hash", "two objects for " << show(ms[i]) << " hash differently");
	VF_CHECK(!(y < xs[i]) && !(xs[i] < y), "bitset.trichotomy", "two objects for " << show(ms[i]) << " are ordered");
	VF_CHECK(y == xs[i], "bitset.eq", "two objects for " << show(ms[i]) << " differ");
}

// ---------------------------------------------------------------- BitVector
void bv_agree(const carl::BitVector& x, const std::set<unsigned>& m, const char* key) {
	bool ok = true;
	unsigned bad = 0;
	for (unsigned i = 0; i < 260; ++i) if (x.getBit(i) != (m.count(i) > 0)) { ok = false; bad = i; break; }
	VF_CHECK(ok, std::string("bitvector.") + key, "bit " << bad << " of " << x);
}
void g_bitvector(Rng& r) {
	std::vector<carl::BitVector> xs(3);
	std::vector<std::set<unsigned>> ms(3);
	std::string log;
	int n = static_cast<int>(r.range(4, 20));
	for (int s = 0; s < n; ++s) {
		std::size_t i = r.below(3), j = r.below(3);
		unsigned k = static_cast<unsigned>(r.coin() ? r.below(40) : r.below(200));
		unsigned o = static_cast<unsigned>(r.below(11));
		log += " " + std::to_string(o) + ":" + std::to_string(i) + std::to_string(j) + "," + std::to_string(k);
		vf::note("bitvector" + log);
		switch (o) {
			case 0: case 1: vf::op("setBit"); xs[i].setBit(k); ms[i].insert(k); bv_agree(xs[i], ms[i], "set"); break;
			case 2: vf::op("clearBit"); xs[i].setBit(k, false); ms[i].erase(k); bv_agree(xs[i], ms[i], "clear-bit"); break;
			case 3: vf::op("|="); xs[i] |= xs[j]; ms[i].insert(ms[j].begin(), ms[j].end()); bv_agree(xs[i], ms[i], "or-assign"); break;
			case 4: { vf::op("|"); carl::BitVector y = xs[i] | xs[j]; std::set<unsigned> z = ms[i]; z.insert(ms[j].begin(), ms[j].end()); bv_agree(y, z, "or"); xs[i] = y; ms[i] = z; break; }
			case 5: vf::op("union"); xs[i].calculateUnion(xs[j]); ms[i].insert(ms[j].begin(), ms[j].end()); bv_agree(xs[i], ms[i], "union"); break;
			case 6: case 7: {
				vf::op("subsetOf");
				bool want = std::includes(ms[j].begin(), ms[j].end(), ms[i].begin(), ms[i].end());
				bool got = xs[i].subsetOf(xs[j]);
				VF_CHECK(got == want, "bitvector.subset", xs[i] << " subset of " << xs[j] << ": " << got);
				break;
			}
			case 8:
				if (r.chance(1, 3)) { vf::op("clear"); xs[i].clear(); ms[i].clear(); bv_agree(xs[i], ms[i], "clear"); }
				else { vf::op("reserve"); xs[i].reserve(r.below(9)); bv_agree(xs[i], ms[i], "reserve"); }
				break;
			case 9: vf::op("ctor"); xs[i] = carl::BitVector(k); ms[i] = {k}; bv_agree(xs[i], ms[i], "ctor"); break;
			default: xs[i] = xs[j]; ms[i] = ms[j]; break;
		}
		VF_CHECK(xs[i].empty() == ms[i].empty(), "bitvector.empty", xs[i] << " empty " << xs[i].empty());
		std::size_t first = ms[i].empty() ? xs[i].size() : *ms[i].begin();
		VF_CHECK(xs[i].findFirstSetBit() == first, "bitvector.first", xs[i] << " first " << xs[i].findFirstSetBit());
	}
	for (int i = 0; i < 3; ++i) {
		std::set<unsigned> got;
		unsigned pos = 0;
		for (auto it = xs[i].begin(); !it.isEnd() && pos < 2000; it++, ++pos) if (it.get()) got.insert(pos);
		VF_CHECK(got == ms[i] && pos == xs[i].size(), "bitvector.iterate", xs[i] << " iterated " << pos << " bits");
		std::string p = vf::str(xs[i]);
		bool ok = p.size() == xs[i].size();
		for (unsigned q = 0; ok && q < p.size(); ++q) ok = (p[q] == '1') == (ms[i].count(q) > 0);
		VF_CHECK(ok, "bitvector.print", p);
		for (int j = 0; j < 3; ++j) {
			vf::op("==");
			VF_CHECK((xs[i] == xs[j]) == (ms[i] == ms[j]), "bitvector.eq", xs[i] << " == " << xs[j] << " is " << (xs[i] == xs[j]));
		}
	}
	vf::observe(vf::str(xs[0]) + "," + vf::str(xs[1]) + "," + vf::str(xs[2]) + log);
}

// ---------------------------------------------------------------- Heap
template<std::size_t Pad>
struct HEntry {
	int prio = 0;
	int uid = 0;
	char pad[Pad];
	HEntry() = default;
	HEntry(int p, int u) : prio(p), uid(u) { memset(pad, u & 0x7f, Pad); }
	bool operator==(const HEntry& o) const { return prio == o.prio && uid == o.uid && memcmp(pad, o.pad, Pad) == 0; }
};
int prio(const HEntry<8>& e) { return e.prio; }
int uid(const HEntry<8>& e) { return e.uid; }
int prio(const HEntry<5>& e) { return e.prio; }
int uid(const HEntry<5>& e) { return e.uid; }
struct PEntry { int prio, uid; void print(std::ostream& o) const { o << prio << "/" << uid; } };
int prio(const PEntry* e) { return e->prio; }
int uid(const PEntry* e) { return e->uid; }

template<typename E, bool FI>
struct HConf {
	using Entry = E;
	using CompareResult = int;
	static const bool supportDeduplicationWhileOrdering = false;
	static const bool fastIndex = FI;
	bool reverse = false;
	CompareResult compare(const Entry& a, const Entry& b) const {
		int c = prio(a) < prio(b) ? -1 : prio(a) > prio(b) ? 1 : 0;
		return reverse ? -c : c;
	}
	static bool cmpLessThan(CompareResult c) { return c < 0; }
	static bool cmpEqual(CompareResult c) { return c == 0; }
};

struct Pool {
	std::vector<std::unique_ptr<PEntry>> ps;
	void make(int p, int u, PEntry*& e) { ps.emplace_back(new PEntry{p, u}); e = ps.back().get(); }
	template<std::size_t P> void make(int p, int u, HEntry<P>& e) { e = HEntry<P>(p, u); }
};

template<typename H>
std::map<int, int> contents(const H& h, std::size_t limit) {
	std::map<int, int> m;
	std::size_t n = 0;
	for (auto it = h.begin(); it != h.end() && n <= limit; it.next(), ++n) m[uid(it.get())] = prio(it.get());
	return m;
}

template<typename E, bool FI>
void heap_case(Rng& r, const std::string& tag) {
	using H = carl::Heap<HConf<E, FI>>;
	HConf<E, FI> conf;
	conf.reverse = r.chance(1, 3);
	H h(conf);
	Pool pool;
	std::map<int, int> m; // uid -> prio
	int spread = static_cast<int>(r.pick(std::vector<long>{2, 5, 20, 1000}));
	int next = 1;
	std::string log = tag;
	int n = static_cast<int>(r.range(3, 90));
	auto best = [&]() { int b = 0; bool f = true; for (auto& e : m) if (f || (conf.reverse ? e.second < b : e.second > b)) { b = e.second; f = false; } return b; };
	auto full = [&](const H& x, const char* key) {
		auto c = contents(x, m.size() + 5);
		VF_CHECK(c == m && x.size() == m.size() && x.empty() == m.empty(), tag + key, log << ": heap holds " << c.size() << " entries, model " << m.size());
		if (!m.empty()) VF_CHECK(prio(x.top()) == best(), tag + ".top", log << ": top " << prio(x.top()) << " best " << best());
	};
	for (int s = 0; s < n; ++s) {
		unsigned o = static_cast<unsigned>(r.below(12));
		int p = static_cast<int>(r.below(static_cast<uint64_t>(spread)));
		if (o < 6) {
			E e; pool.make(p, next, e);
			log += " +" + std::to_string(p);
			vf::note(log); vf::op("push");
			h.push(e); m[next++] = p;
		} else if (o < 8) {
			if (m.empty()) continue;
			log += " pop"; vf::note(log); vf::op("pop");
			int b = best();
			E e = h.pop();
			VF_CHECK(prio(e) == b && m.count(uid(e)) && m[uid(e)] == b, tag + ".pop", log << ": popped " << prio(e) << ", best was " << b);
			m.erase(uid(e));
		} else if (o == 8) {
			if (m.empty()) continue;
			std::size_t k = r.below(m.size());
			log += " rm@" + std::to_string(k); vf::note(log); vf::op("popPosition");
			auto it = h.begin();
			for (std::size_t q = 0; q < k; ++q) it.next();
			int u = uid(it.get());
			h.popPosition(it);
			m.erase(u);
		} else if (o == 9) {
			if (m.empty()) continue;
			int u = uid(h.top());
			int np = conf.reverse ? m[u] + p : m[u] - p;
			log += " dec" + std::to_string(p); vf::note(log); vf::op("decreaseTop");
			E e; pool.make(np, next, e);
			h.decreaseTop(e);
			m.erase(u); m[next++] = np;
		} else if (o == 10) {
			log += " copy"; vf::note(log); vf::op("copy");
			H c(h);
			full(c, ".copy");
			if (!m.empty()) { c.pop(); full(h, ".copy-shares"); }
			std::vector<E> es(r.below(4));
			for (auto& e : es) { int q = static_cast<int>(r.below(static_cast<uint64_t>(spread))); pool.make(q, next, e); m[next++] = q; }
			vf::op("push_range");
			h.push(es.data(), es.data() + es.size());
		} else {
			log += " list"; vf::note(log); vf::op("getCopy");
			std::vector<E> v = h.getCopy();
			std::map<int, int> c;
			for (auto& e : v) c[uid(e)] = prio(e);
			VF_CHECK(c == m && v.size() == m.size(), tag + ".getCopy", log << ": " << v.size() << " entries listed, model " << m.size());
		}
		full(h, ".contents");
	}
	vf::observe(log);
	// drain: the order is sorted and every entry comes out once
	vf::op("drain");
	while (!m.empty() && !h.empty()) {
		int b = best();
		E e = h.pop();
		if (!VF_CHECK(prio(e) == b && m.count(uid(e)), tag + ".drain", log << ": drained " << prio(e) << ", best was " << b)) break;
		m.erase(uid(e));
	}
	VF_CHECK(m.empty() && h.empty(), tag + ".drain", log << ": entries left");
}
void print_heap(Rng& r) {
	HConf<PEntry*, true> conf;
	carl::Heap<HConf<PEntry*, true>> h(conf);
	std::vector<std::unique_ptr<PEntry>> ps;
	for (long i = 0, n = r.range(0, 6); i < n; ++i) { ps.emplace_back(new PEntry{static_cast<int>(100 + r.below(100)), static_cast<int>(i)}); h.push(ps.back().get()); }
	std::ostringstream o;
	h.print(o);
	for (auto& p : ps) VF_CHECK(o.str().find(std::to_string(p->prio) + "/" + std::to_string(p->uid)) != std::string::npos, "heap.print", o.str());
}
void g_heap(Rng& r) {
	switch (r.below(6)) {
		case 0: heap_case<PEntry*, true>(r, "heap-ptr-fast"); print_heap(r); break;
		case 1: heap_case<PEntry*, false>(r, "heap-ptr"); break;
		case 2: heap_case<HEntry<8>, true>(r, "heap16-fast"); break;
		case 3: heap_case<HEntry<8>, false>(r, "heap16"); break;
		default: heap_case<HEntry<5>, false>(r, "heap-odd"); break;
	}
}

// ---------------------------------------------------------------- CompactTree
template<typename E, bool FI>
void ct_case(Rng& r, const std::string& tag) {
	using T = carl::CompactTree<E, FI>;
	using N = typename T::Node;
	std::vector<std::unique_ptr<T>> ts;
	std::vector<std::vector<long>> ms;
	std::string log = tag;
	for (int i = 0; i < 2; ++i) { std::size_t c = r.coin() ? 0 : r.below(20); ts.emplace_back(new T(c)); ms.emplace_back(); VF_CHECK(ts[i]->capacity() == c, tag + ".capacity", c); }
	auto agree = [&](std::size_t i) {
		const T& t = *ts[i];
		bool ok = t.size() == ms[i].size() && t.empty() == ms[i].empty() && t.capacity() >= t.size() && t.isValid();
		std::size_t k = 0;
		for (N n; ok && n <= t.lastLeaf(); ++n, ++k) ok = static_cast<long>(t[n]) == ms[i][k];
		VF_CHECK(ok && k == ms[i].size(), tag + ".contents", log);
	};
	for (long s = 0, n = r.range(3, 60); s < n; ++s) {
		std::size_t i = r.below(2);
		long v = r.range(-1000, 1000);
		unsigned o = static_cast<unsigned>(r.below(12));
		log += " " + std::to_string(o) + "/" + std::to_string(i);
		vf::note(log);
		if (o < 5) { vf::op("pushBack"); ts[i]->pushBack(static_cast<E>(v)); ms[i].push_back(static_cast<long>(static_cast<E>(v))); }
		else if (o == 5) { if (ts[i]->hasFreeCapacity(1)) { vf::op("pushBackWithCapacity"); ts[i]->pushBackWithCapacity(static_cast<E>(v)); ms[i].push_back(static_cast<long>(static_cast<E>(v))); } }
		else if (o < 8) { if (!ms[i].empty()) { vf::op("popBack"); ts[i]->popBack(); ms[i].pop_back(); } }
		else if (o == 8) { vf::op("swap"); ts[0]->swap(*ts[1]); std::swap(ms[0], ms[1]); agree(1 - i); }
		else if (o == 9) { vf::op("copy"); std::size_t c = r.below(30); ts[i].reset(new T(*ts[1 - i], c)); ms[i] = ms[1 - i]; VF_CHECK(ts[i]->capacity() >= c, tag + ".copy-capacity", log); }
		else if (o == 10) { if (r.chance(1, 3)) { vf::op("clear"); ts[i]->clear(); ms[i].clear(); } }
		else { vf::op("getCopy"); auto v2 = ts[i]->getCopy(); bool ok = v2.size() == ms[i].size(); for (std::size_t q = 0; ok && q < v2.size(); ++q) ok = static_cast<long>(v2[q]) == ms[i][q]; VF_CHECK(ok, tag + ".getCopy", log); }
		agree(i);
		VF_CHECK(ts[i]->hasFreeCapacity(ts[i]->capacity() - ts[i]->size()) && !ts[i]->hasFreeCapacity(ts[i]->capacity() - ts[i]->size() + 1), tag + ".free", log);
		VF_CHECK(ts[i]->getMemoryUse() == ts[i]->capacity() * sizeof(E), tag + ".memory", log);
	}
	vf::observe(log);
	// node navigation
	N root;
	VF_CHECK(root.isRoot() && root.getNormalIndex() == 1, tag + ".root", "root");
	std::size_t k = 1 + r.below(5000);
	N a = N(0).next(k);
	VF_CHECK(a.getNormalIndex() == k && a.left().getNormalIndex() == 2 * k && a.right().getNormalIndex() == 2 * k + 1, tag + ".children", k);
	VF_CHECK(a.left().parent() == a && a.right().parent() == a && a.left().next() == a.right() && a.right().prev() == a.left(), tag + ".parent", k);
	VF_CHECK(a.left().sibling() == a.right() && a.right().sibling() == a.left() && a.right().leftSibling() == a.left() && a.left().leftSibling() == a.left(), tag + ".sibling", k);
	VF_CHECK(a.isLeft() == (k % 2 == 0) && bool(a.isRight()) == (k % 2 == 1), tag + ".side", k);
	VF_CHECK((a < a.next()) && a.next() > a && a <= a && a >= a && a != a.next(), tag + ".order", k);
}
void g_compact(Rng& r) {
	switch (r.below(3)) {
		case 0: ct_case<long, true>(r, "ctree-fast"); break;
		case 1: ct_case<int, true>(r, "ctree-fast4"); break;
		default: ct_case<long, false>(r, "ctree"); break;
	}
}

// ---------------------------------------------------------------- ordered tree
struct MN { std::string v; MN* p; std::vector<MN*> c; std::size_t depth() const { std::size_t d = 0; for (MN* q = p; q; q = q->p) ++d; return d; } };
struct MTree {
	std::vector<std::unique_ptr<MN>> store;
	MN* root = nullptr;
	MN* mk(const std::string& v, MN* p) { store.emplace_back(new MN{v, p, {}}); return store.back().get(); }
	void pre(MN* n, std::vector<MN*>& o) const { if (!n) return; o.push_back(n); for (auto c : n->c) pre(c, o); }
	void post(MN* n, std::vector<MN*>& o) const { if (!n) return; for (auto c : n->c) post(c, o); o.push_back(n); }
	std::vector<MN*> all() const { std::vector<MN*> o; pre(root, o); return o; }
};
using Names = std::vector<std::string>;
Names names(const std::vector<MN*>& v) { Names n; for (auto x : v) n.push_back(x->v); return n; }
Names rev(Names n) { std::reverse(n.begin(), n.end()); return n; }
std::string join(const Names& n) { std::string s; for (auto& x : n) s += x + " "; return s; }

template<typename I> Names walk(I b, I e, std::size_t limit) {
	Names n;
	for (; b != e && n.size() <= limit; ++b) n.push_back(*b);
	return n;
}
/// from the end backwards
template<typename I> Names walk_back(I b, I e, std::size_t limit) {
	Names n;
	while (b != e && n.size() <= limit) { --e; n.push_back(*e); }
	return n;
}
template<typename A> void same(const Names& got, const Names& want, const std::string& key, const A& log) {
	VF_CHECK(got == want, "tree." + key, log << ": got " << join(got) << "want " << join(want));
}

using Tree = carl::tree<std::string>;

void tree_agree(const Tree& t, const MTree& m, Rng& r, const std::string& log) {
	vf::note("traverse " + log);
	std::vector<MN*> pre = m.all(), post, leaf;
	m.post(m.root, post);
	for (auto n : pre) if (n->c.empty()) leaf.push_back(n);
	std::size_t L = pre.size() + 3;
	VF_CHECK(t.isConsistent(), "tree.consistent", log);
	same(walk(t.begin(), t.end(), L), names(pre), "begin", log);
	same(walk(t.rbegin(), t.rend(), L), rev(names(pre)), "rbegin", log);
	same(walk(t.begin_preorder(), t.end_preorder(), L), names(pre), "preorder", log);
	same(walk(t.rbegin_preorder(), t.rend_preorder(), L), rev(names(pre)), "preorder-reverse", log);
	same(walk(t.begin_postorder(), t.end_postorder(), L), names(post), "postorder", log);
	same(walk(t.rbegin_postorder(), t.rend_postorder(), L), rev(names(post)), "postorder-reverse", log);
	same(walk(t.begin_leaf(), t.end_leaf(), L), names(leaf), "leaf", log);
	same(walk(t.rbegin_leaf(), t.rend_leaf(), L), rev(names(leaf)), "leaf-reverse", log);
	if (!m.root) return;
	same(walk_back(t.begin_preorder(), t.end_preorder(), L), rev(names(pre)), "preorder-dec", log);
	same(walk_back(t.rbegin_preorder(), t.rend_preorder(), L), names(pre), "preorder-reverse-dec", log);
	same(walk_back(t.begin_postorder(), t.end_postorder(), L), rev(names(post)), "postorder-dec", log);
	same(walk_back(t.rbegin_postorder(), t.rend_postorder(), L), names(post), "postorder-reverse-dec", log);
	same(walk_back(t.begin_leaf(), t.end_leaf(), L), rev(names(leaf)), "leaf-dec", log);
	same(walk_back(t.rbegin_leaf(), t.rend_leaf(), L), names(leaf), "leaf-reverse-dec", log);
	std::size_t md = 0;
	for (auto n : pre) md = std::max(md, n->depth());
	VF_CHECK(t.max_depth() == md, "tree.max_depth", log << ": " << t.max_depth() << " want " << md);
	for (std::size_t d = 0; d <= md + 1; ++d) {
		std::vector<MN*> lv;
		for (auto n : pre) if (n->depth() == d) lv.push_back(n);
		same(walk(t.begin_depth(d), t.end_depth(), L), names(lv), "depth", log);
		same(walk(t.rbegin_depth(d), t.rend_depth(), L), rev(names(lv)), "depth-reverse", log);
		if (lv.empty()) continue;
		// step forth to the last one and back again
		auto it = t.begin_depth(d);
		for (std::size_t i = 1; i < lv.size(); ++i) ++it;
		Names back{*it};
		for (std::size_t i = 1; i < lv.size(); ++i) { --it; if (it == t.end_depth()) break; back.push_back(*it); }
		same(back, rev(names(lv)), "depth-dec", log);
		auto rt = t.rbegin_depth(d);
		for (std::size_t i = 1; i < lv.size(); ++i) ++rt;
		Names fwd{*rt};
		for (std::size_t i = 1; i < lv.size(); ++i) { --rt; if (rt == t.rend_depth()) break; fwd.push_back(*rt); }
		same(fwd, names(lv), "depth-reverse-dec", log);
	}
	// one node in detail
	std::size_t k = r.below(pre.size());
	MN* n = pre[k];
	auto it = t.begin();
	for (std::size_t i = 0; i < k; ++i) ++it;
	same(walk(t.begin_children(it), t.end_children(it), L), names(n->c), "children", log);
	same(walk(t.rbegin_children(it), t.rend_children(it), L), rev(names(n->c)), "children-reverse", log);
	same(walk_back(t.begin_children(it), t.end_children(it), L), rev(names(n->c)), "children-dec", log);
	same(walk_back(t.rbegin_children(it), t.rend_children(it), L), names(n->c), "children-reverse-dec", log);
	Names path;
	for (MN* q = n; q; q = q->p) path.push_back(q->v);
	same(walk(t.begin_path(it), t.end_path(), L), path, "path", log);
	VF_CHECK(it.depth() == n->depth() && it.isRoot() == (n == m.root) && it.isValid(), "tree.node", log);
	VF_CHECK(t.is_leaf(it) == n->c.empty(), "tree.is_leaf", log);
	std::vector<MN*> sub;
	m.pre(n, sub);
	std::size_t h = 0;
	for (auto x : sub) h = std::max(h, x->depth() - n->depth());
	VF_CHECK(t.max_depth(it) == h, "tree.height", log << ": " << t.max_depth(it) << " want " << h);
	auto sk = it;
	sk.skipChildren();
	std::size_t after = k + sub.size();
	VF_CHECK(after == pre.size() ? sk == t.end() : (sk != t.end() && *sk == pre[after]->v), "tree.skip", log);
	auto pf = it;
	auto old = pf++;
	VF_CHECK(old == it && (k + 1 == pre.size() ? pf == t.end() : *pf == pre[k + 1]->v), "tree.postfix", log << ": post increment at " << n->v);
	if (k > 0) {
		auto pd = it;
		auto oldd = pd--;
		VF_CHECK(oldd == it && *pd == pre[k - 1]->v, "tree.postfix", log << ": post decrement at " << n->v);
	}
	if (n->p) {
		VF_CHECK(*t.get_parent(it) == n->p->v, "tree.get_parent", log);
		auto& sib = n->p->c;
		std::size_t pos = static_cast<std::size_t>(std::find(sib.begin(), sib.end(), n) - sib.begin());
		VF_CHECK(t.is_leftmost(it) == (pos == 0) && t.is_rightmost(it) == (pos + 1 == sib.size()), "tree.side", log);
		if (pos) VF_CHECK(*t.left_sibling(it) == sib[pos - 1]->v, "tree.left_sibling", log);
	}
	std::ostringstream o, w;
	o << t;
	for (auto x : pre) w << std::string(x->depth(), '\t') << x->v << std::endl;
	VF_CHECK(o.str() == w.str(), "tree.print", log << ": " << o.str());
}

template<typename I> I locate(I b, I e, const std::string& v) { for (; b != e; ++b) if (*b == v) return b; return e; }

void copy_model(const MTree& a, MTree& b) {
	b.store.clear();
	b.root = nullptr;
	std::map<MN*, MN*> f;
	for (MN* n : a.all()) {
		MN* q = b.mk(n->v, n->p ? f[n->p] : nullptr);
		if (n->p) q->p->c.push_back(q); else b.root = q;
		f[n] = q;
	}
}

void g_tree(Rng& r) {
	Tree t;
	MTree m;
	int next = 0;
	std::string log;
	auto fresh = [&]() { return "node-with-a-long-name-" + std::to_string(next++); };
	long n = r.range(4, 30);
	for (long s = 0; s < n; ++s) {
		std::vector<MN*> all = m.all();
		unsigned o = static_cast<unsigned>(r.below(20));
		std::string v = fresh();
		if (all.empty()) {
			if (o == 0) { vf::op("append-to-empty"); log += " a"; vf::note(log); auto it = t.append(v); m.root = m.mk("", nullptr); m.root->c.push_back(m.mk(v, m.root)); VF_CHECK(*it == v, "tree.append", log); }
			else { vf::op("setRoot"); log += " R"; vf::note(log); auto it = t.setRoot(v); m.root = m.mk(v, nullptr); VF_CHECK(*it == v && it.isRoot(), "tree.setRoot", log); }
			tree_agree(t, m, r, log);
			continue;
		}
		std::size_t k = r.below(all.size());
		MN* q = all[k];
		auto it = t.begin();
		for (std::size_t i = 0; i < k; ++i) ++it;
		log += " " + std::to_string(o) + "@" + std::to_string(k);
		vf::note(log);
		auto drop = [&](MN* x) { auto& sib = x->p->c; sib.erase(std::find(sib.begin(), sib.end(), x)); };
		if (o < 8) {
			vf::op("append");
			auto res = t.append(it, v);
			q->c.push_back(m.mk(v, q));
			VF_CHECK(*res == v && res.depth() == q->depth() + 1, "tree.append", log);
		} else if (o == 8) {
			vf::op("append-root");
			auto res = t.append(v);
			m.root->c.push_back(m.mk(v, m.root));
			VF_CHECK(*res == v, "tree.append", log);
		} else if (o < 12) {
			if (!q->p) continue;
			vf::op("insert");
			auto res = t.insert(it, v);
			auto& sib = q->p->c;
			sib.insert(std::find(sib.begin(), sib.end(), q), m.mk(v, q->p));
			VF_CHECK(*res == v && res.depth() == q->depth(), "tree.insert", log);
		} else if (o == 12) {
			vf::op("replace");
			t.replace(it, v);
			q->v = v;
		} else if (o == 13) {
			vf::op("setRoot-again");
			t.setRoot(v);
			m.root->v = v;
		} else if (o < 17) {
			// erase: the subtree goes, the returned iterator is the next survivor of that traversal
			if (!q->p && !r.chance(1, 6)) continue;
			std::vector<MN*> sub;
			m.pre(q, sub);
			std::set<MN*> gone(sub.begin(), sub.end());
			unsigned kind = static_cast<unsigned>(r.below(3));
			std::string want;
			bool last = true;
			bool got_end;
			std::string got;
			if (kind == 0) {
				vf::op("erase-preorder");
				if (k + sub.size() < all.size()) { want = all[k + sub.size()]->v; last = false; }
				auto res = t.erase(it);
				got_end = res == t.end();
				if (!got_end && res.isValid()) got = *res;
			} else if (kind == 1) {
				vf::op("erase-postorder");
				std::vector<MN*> post;
				m.post(m.root, post);
				auto pos = std::find(post.begin(), post.end(), q) + 1;
				if (pos != post.end()) { want = (*pos)->v; last = false; }
				auto res = t.erase(Tree::PostorderIterator<false>(it));
				got_end = res == t.end_postorder();
				if (!got_end && res.isValid()) got = *res;
			} else {
				if (!q->p) continue;
				vf::op("erase-child");
				auto& sib = q->p->c;
				auto pos = std::find(sib.begin(), sib.end(), q) + 1;
				if (pos != sib.end()) { want = (*pos)->v; last = false; }
				auto res = t.erase(Tree::ChildrenIterator<false>(it));
				got_end = res.current == carl::tree_detail::MAXINT;
				if (!got_end && res.isValid()) got = *res;
			}
			if (q->p) drop(q); else m.root = nullptr;
			VF_CHECK(got_end == last && (got_end || got == want), "tree.erase-next", log << " kind " << kind << ": erase returned " << (got_end ? "end" : got) << ", next survivor is '" << want << "'");
		} else if (o == 17) {
			vf::op("eraseChildren");
			t.eraseChildren(it);
			q->c.clear();
		} else if (o == 18) {
			vf::op("copy");
			Tree c(t);
			MTree mc;
			copy_model(m, mc);
			// the copy is independent of the original
			auto ci = c.begin();
			for (std::size_t i = 0; i < k; ++i) ++ci;
			c.append(ci, v);
			MN* cq = mc.all()[k];
			cq->c.push_back(mc.mk(v, cq));
			tree_agree(t, m, r, log + " (original after copy)");
			tree_agree(c, mc, r, log + " (copy)");
			if (r.coin()) { vf::op("assign"); t = c; copy_model(mc, m); }
			else if (r.coin()) { vf::op("move-assign"); t = std::move(c); copy_model(mc, m); }
		} else {
			if (!r.chance(1, 4)) continue;
			vf::op("clear");
			t.clear();
			m.root = nullptr;
		}
		tree_agree(t, m, r, log);
	}
	vf::observe(vf::str(t) + log);
}

// ---------------------------------------------------------------- id pools
template<typename P> void id_case(Rng& r, const std::string& tag, std::size_t lowest, std::size_t (*bound)(const P&)) {
	P p;
	std::set<std::size_t> live;
	std::string log = tag;
	long n = r.range(10, 400);
	unsigned bias = static_cast<unsigned>(r.range(2, 8));
	std::size_t most = 0;
	for (long s = 0; s < n; ++s) {
		if (r.chance(1, 150)) {
			vf::op(tag + ".clear"); log += " c"; p.clear(); live.clear();
		} else if (live.empty() || r.below(10) < bias) {
			vf::op(tag + ".get");
			std::size_t id = p.get();
			log += " +" + std::to_string(id);
			VF_CHECK(!live.count(id), tag + ".live", log.substr(log.size() > 800 ? log.size() - 800 : 0) << ": id handed out twice");
			VF_CHECK(id >= lowest, tag + ".range", "id " << id);
			live.insert(id);
			most = std::max(most, live.size());
			VF_CHECK(bound(p) >= *live.rbegin(), tag + ".bound", "bound " << bound(p) << " below live id " << *live.rbegin());
		} else {
			auto it = live.begin();
			std::advance(it, static_cast<long>(r.below(live.size())));
			vf::op(tag + ".free");
			log += " -" + std::to_string(*it);
			vf::note(log.substr(log.size() > 800 ? log.size() - 800 : 0));
			p.free(*it);
			live.erase(it);
			if (!live.empty()) VF_CHECK(bound(p) >= *live.rbegin(), tag + ".bound", "bound " << bound(p) << " below live id " << *live.rbegin());
		}
	}
	// ids stay dense: never more than the number of ids live at once, rounded up to a block
	vf::observe(log);
	std::vector<std::size_t> rest(live.begin(), live.end());
	for (std::size_t id : rest) p.free(id);
	std::set<std::size_t> again;
	for (std::size_t i = 0; i < most; ++i) again.insert(p.get());
	VF_CHECK(again.size() == most, tag + ".live", "after freeing everything " << again.size() << " of " << most << " ids are distinct");
}
void g_idpool(Rng& r) { id_case<carl::IDPool>(r, "idpool", 0, [](const carl::IDPool& p) { return p.largestID(); }); }
void g_idgen(Rng& r) { id_case<carl::IDGenerator>(r, "idgenerator", 1, [](const carl::IDGenerator& g) { return g.nextID() - 1; }); }

// ---------------------------------------------------------------- result cache
struct Item {
	static long alive;
	mutable int key;
	mutable int payload;
	mutable std::size_t h;
	mutable std::vector<int> body;
	Item(int k, int p) : key(k), payload(p), body(3, k) { rehash(); ++alive; }
	~Item() { --alive; }
	std::size_t getHash() const { return h; }
	void rehash() const { h = static_cast<std::size_t>(key % 7); }
	bool operator==(const Item& o) const { return key == o.key; }
};
long Item::alive = 0;
std::ostream& operator<<(std::ostream& o, const Item& i) { return o << "item " << i.key; }
bool can_update(const Item& old, const Item& neu) { return neu.payload > old.payload; }
void do_update(const Item& old, const Item& neu) { old.payload = neu.payload; }

void g_cache(Rng& r) {
	long before = Item::alive;
	{
		using C = carl::Cache<Item>;
		C cache(static_cast<std::size_t>(r.pick(std::vector<long>{1, 3, 8, 30})), r.coin() ? 0.2 : 0.7, r.coin() ? 0.98 : 0.9);
		struct Ent { int key, payload; long usage; };
		std::vector<Ent> ents;              // entries held by at least one registration
		std::map<C::Ref, std::size_t> ref;  // reference -> entry, only for held entries
		std::map<C::Ref, long> reg;         // registrations made through a reference
		std::string log;
		int keys = static_cast<int>(r.range(3, 40));
		auto find = [&](int key) -> long { for (std::size_t i = 0; i < ents.size(); ++i) if (ents[i].usage > 0 && ents[i].key == key) return static_cast<long>(i); return -1; };
		long n = r.range(10, 120);
		for (long s = 0; s < n; ++s) {
			unsigned o = static_cast<unsigned>(r.below(10));
			vf::note(log.substr(log.size() > 900 ? log.size() - 900 : 0));
			if (o < 5 || reg.empty()) {
				int k = static_cast<int>(r.below(static_cast<uint64_t>(keys)));
				int p = static_cast<int>(r.below(4));
				bool upd = r.chance(1, 3);
				vf::op(upd ? "cache-update" : "cache");
				Item* it = new Item(k, p);
				long e = find(k);
				log += " c" + std::to_string(k) + (upd ? "u" : "");
				auto res = upd ? cache.cache(it, &can_update, &do_update) : cache.cache(it);
				VF_CHECK(res.first != C::NO_REF, "cache.ref", log);
				if (!res.second) delete it;
				if (e >= 0) {
					VF_CHECK(!res.second, "cache.duplicate", log << ": a second entry for a held value");
					if (upd && p > ents[static_cast<std::size_t>(e)].payload) ents[static_cast<std::size_t>(e)].payload = p;
				}
				auto f = ref.find(res.first);
				if (f != ref.end()) VF_CHECK(ents[f->second].key == k, "cache.alias", log << ": reference " << res.first << " of key " << k << " is held for " << ents[f->second].key);
				vf::op("reg");
				cache.reg(res.first);
				const Item& got = cache.get(res.first);
				if (!VF_CHECK(got.key == k && got.body == std::vector<int>(3, k), "cache.get", log << ": reference " << res.first << " gives " << got.key << " want " << k)) return;
				if (res.second) VF_CHECK(&got == it, "cache.new", log);
				if (e < 0) { ents.push_back({k, got.payload, 0}); e = static_cast<long>(ents.size()) - 1; }
				++ents[static_cast<std::size_t>(e)].usage;
				ref[res.first] = static_cast<std::size_t>(e);
				++reg[res.first];
				log += "=" + std::to_string(res.first);
			} else if (o < 8) {
				auto it = reg.begin();
				std::advance(it, static_cast<long>(r.below(reg.size())));
				C::Ref rf = it->first;
				std::size_t e = ref[rf];
				vf::op("dereg");
				log += " d" + std::to_string(rf);
				cache.dereg(rf);
				--ents[e].usage;
				if (--it->second == 0) reg.erase(it);
				if (ents[e].usage == 0) for (auto f = ref.begin(); f != ref.end();) if (f->second == e) f = ref.erase(f); else ++f;
			} else if (o == 8) {
				// change a held value in place, then rehash; merges with an equal entry
				auto it = reg.begin();
				std::advance(it, static_cast<long>(r.below(reg.size())));
				C::Ref rf = it->first;
				std::size_t e = ref[rf];
				int k = static_cast<int>(100 + r.below(static_cast<uint64_t>(keys)));
				long other = find(k);
				if (other == static_cast<long>(e)) continue;
				vf::op(other >= 0 ? "rehash-merge" : "rehash");
				log += " h" + std::to_string(rf) + ">" + std::to_string(k);
				const Item& cur = cache.get(rf);
				cur.key = k;
				cur.body.assign(3, k);
				cache.rehash(rf);
				ents[e].key = k;
				if (other >= 0) {
					std::size_t oe = static_cast<std::size_t>(other);
					for (auto& f : ref) if (f.second == e) f.second = oe;
					ents[oe].usage += ents[e].usage;
					ents[e].usage = 0;
				} else ents[e].payload = cache.get(rf).payload;
			} else {
				auto it = reg.begin();
				std::advance(it, static_cast<long>(r.below(reg.size())));
				vf::op("activity");
				for (int q = 0; q < 3; ++q) cache.strengthenActivity(it->first);
				cache.decayActivity();
				if (r.chance(1, 20)) for (int q = 0; q < 12000; ++q) cache.decayActivity();
			}
			// every held reference still gives its value
			for (auto& f : reg) {
				const Item& got = cache.get(f.first);
				const Ent& e = ents[ref[f.first]];
				if (!VF_CHECK(got.key == e.key && got.payload == e.payload && got.body == std::vector<int>(3, e.key), "cache.stored", log << ": held reference " << f.first << " gives " << got.key << "/" << got.payload << ", stored was " << e.key << "/" << e.payload)) return;
			}
		}
		std::ostringstream o;
		cache.print(o);
		for (auto& e : ents) if (e.usage > 0) VF_CHECK(o.str().find("item " + std::to_string(e.key)) != std::string::npos, "cache.print", o.str());
		vf::observe(log);
	}
	VF_CHECK(Item::alive == before, "cache.lifetime", (Item::alive - before) << " cached objects outlive the cache");
}

} // namespace

int main(int argc, char** argv) {
	vf::add_group("bitset", 20000, 300000, g_bitset);
	vf::add_group("bitvector", 20000, 300000, g_bitvector);
	vf::add_group("heap", 12000, 200000, g_heap);
	vf::add_group("compact", 10000, 150000, g_compact);
	vf::add_group("tree", 6000, 80000, g_tree);
	vf::add_group("idpool", 3000, 50000, g_idpool);
	vf::add_group("idgenerator", 3000, 50000, g_idgen);
	vf::add_group("cache", 10000, 150000, g_cache);
	return vf::run(argc, argv);
}
