// C20: set cover heuristics and interval covering cores against brute force.
#include "../common/vf.h"

#include <carl/util/Bitset.h>
#include <algorithm>
#include <map>
#include <vector>
#include <carl/util/Covering.h>
#include <carl-covering/carl-covering.h>

using vf::Rng;
namespace cov = carl::covering;
namespace heu = carl::covering::heuristic;
using Set = std::set<std::size_t>;

namespace {

Set members(const carl::Bitset& b) { Set s; for (std::size_t i : b) s.insert(i); return s; }
std::string show(const Set& s) { std::string o = "{"; for (auto i : s) o += std::to_string(i) + ","; return o + "}"; }
std::string show(const std::vector<Set>& v) { std::string o; for (auto& s : v) o += show(s) + " "; return o; }
Set join(const std::vector<Set>& v) { Set u; for (auto& s : v) u.insert(s.begin(), s.end()); return u; }
Set join(const std::vector<Set>& v, const Set& ids) { Set u; for (auto i : ids) if (i < v.size()) u.insert(v[i].begin(), v[i].end()); return u; }
Set minus(const Set& a, const Set& b) { Set r; for (auto x : a) if (!b.count(x)) r.insert(x); return r; }

std::vector<Set> instance(Rng& r, std::size_t max_sets) {
	std::size_t n = r.below(max_sets + 1);
	std::size_t e = 1 + r.below(12);
	// element ids: dense, sparse, or at storage block boundaries
	std::vector<std::size_t> ids;
	unsigned kind = static_cast<unsigned>(r.below(4));
	for (std::size_t i = 0; i < e; ++i) ids.push_back(kind < 2 ? i : kind == 2 ? r.below(200) : 60 + i);
	std::vector<Set> v(n);
	unsigned den = static_cast<unsigned>(r.range(2, 5));
	for (auto& s : v) for (auto i : ids) if (r.chance(1, den)) s.insert(i);
	for (std::size_t i = 0; i + 1 < n; ++i) {
		if (r.chance(1, 12)) v[i] = v[r.below(n)];                    // duplicate set
		if (r.chance(1, 12)) v[i].clear();                            // empty set
	}
	if (n > 0 && r.chance(1, 4)) v[r.below(n)].insert(250);          // element of exactly one set
	if (r.chance(1, 3)) for (std::size_t i = 0; i + 1 < e; ++i) if (r.coin()) // duplicate element
		for (auto& s : v) if (s.count(ids[i])) s.insert(ids[i + 1]); else s.erase(ids[i + 1]);
	return v;
}

cov::SetCover make(const std::vector<Set>& v, Rng& r) {
	cov::SetCover sc;
	for (std::size_t i = 0; i < v.size(); ++i) {
		if (v[i].empty() || r.coin()) {
			carl::Bitset b;
			for (auto e : v[i]) b.set(e);
			if (r.chance(1, 5)) b.resize(b.size() + r.below(80));
			sc.set(i, b);
		} else for (auto e : v[i]) sc.set(i, e);
	}
	return sc;
}
std::vector<Set> contents(const cov::SetCover& sc) { std::vector<Set> v; for (std::size_t i = 0; i < sc.set_count(); ++i) v.push_back(members(sc.get_set(i))); return v; }

std::size_t minimum(const std::vector<Set>& v) {
	Set all = join(v);
	if (all.empty()) return 0;
	std::map<std::size_t, unsigned> idx;
	for (auto e : all) { unsigned k = static_cast<unsigned>(idx.size()); idx[e] = k; }
	std::vector<uint32_t> m;
	for (auto& s : v) { uint32_t b = 0; for (auto e : s) b |= 1u << idx[e]; m.push_back(b); }
	uint32_t full = (1u << idx.size()) - 1;
	std::size_t best = v.size();
	for (uint32_t sel = 0; sel < (1u << v.size()); ++sel) {
		std::size_t c = static_cast<std::size_t>(__builtin_popcount(sel));
		if (c >= best) continue;
		uint32_t u = 0;
		for (std::size_t i = 0; i < v.size(); ++i) if (sel >> i & 1) u |= m[i];
		if (u == full) best = c;
	}
	return best;
}
Set essential(const std::vector<Set>& v) {
	Set r;
	for (auto e : join(v)) {
		std::vector<std::size_t> by;
		for (std::size_t i = 0; i < v.size(); ++i) if (v[i].count(e)) by.push_back(i);
		if (by.size() == 1) r.insert(by[0]);
	}
	return r;
}

void g_basic(Rng& r) {
	auto v = instance(r, 9);
	cov::SetCover sc = make(v, r);
	vf::note(show(v));
	vf::observe(show(v));
	vf::op("basic");
	if (!v.empty()) while (contents(sc).size() < v.size()) break;
	VF_CHECK(contents(sc) == v, "cover.store", show(v) << " stored as " << sc);
	VF_CHECK(sc.set_count() == v.size(), "cover.count", sc);
	Set all = join(v);
	VF_CHECK(members(sc.get_uncovered()) == all, "cover.uncovered", sc);
	VF_CHECK(all.empty() || sc.element_count() > *all.rbegin(), "cover.elements", sc);
	auto active = [&](const std::vector<Set>& x) { return static_cast<std::size_t>(std::count_if(x.begin(), x.end(), [](const Set& s) { return !s.empty(); })); };
	VF_CHECK(sc.active_set_count() == active(v), "cover.active", sc);
	if (v.empty()) return;
	std::size_t big = 0;
	for (auto& s : v) big = std::max(big, s.size());
	VF_CHECK(v[sc.largest_set()].size() == big, "cover.largest", sc << " largest " << sc.largest_set());
	// weights, all positive
	std::vector<double> w;
	for (std::size_t i = 0; i < v.size(); ++i) w.push_back(static_cast<double>(r.range(1, 12)) / 4);
	double bw = 0;
	for (std::size_t i = 0; i < v.size(); ++i) bw = std::max(bw, static_cast<double>(v[i].size()) * w[i]);
	std::size_t l = sc.largest_set(w);
	VF_CHECK(l < v.size() && static_cast<double>(v[l].size()) * w[l] == bw, "cover.largest-weighted", sc << " chose " << l);
	// selecting purges the elements everywhere
	std::size_t k = r.below(v.size());
	Set gone = v[k];
	sc.select_set(k);
	for (auto& s : v) s = minus(s, gone);
	VF_CHECK(contents(sc) == v, "cover.select", sc << " after selecting " << k);
	sc.prune_sets();
	VF_CHECK(contents(sc) == v && sc.active_set_count() == active(v), "cover.prune", sc);
	std::string p = vf::str(sc);
	VF_CHECK(static_cast<std::size_t>(std::count(p.begin(), p.end(), '\n')) == v.size() + 1, "cover.print", p);
}

void g_greedy(Rng& r) {
	auto v = instance(r, 9);
	vf::note(show(v));
	vf::observe(show(v));
	Set all = join(v);
	std::size_t opt = minimum(v);
	{
		vf::op("greedy");
		cov::SetCover sc = make(v, r);
		Set sel = members(heu::greedy(sc));
		VF_CHECK(join(v, sel) == all && (sel.empty() || *sel.rbegin() < v.size()), "greedy.cover", show(v) << " selected " << show(sel));
		VF_CHECK(sc.get_uncovered().none(), "greedy.rest", show(v) << " leaves " << sc);
		std::size_t d = 0;
		for (auto& s : v) d = std::max(d, s.size());
		double h = 0;
		for (std::size_t i = 1; i <= d; ++i) h += 1.0 / static_cast<double>(i);
		VF_CHECK(static_cast<double>(sel.size()) <= h * static_cast<double>(opt) + 1e-9, "greedy.quality", show(v) << " selected " << sel.size() << " sets, minimum " << opt);
	}
	{
		vf::op("greedy_bounded");
		cov::SetCover sc = make(v, r);
		std::size_t b = r.below(7);
		Set sel = members(heu::greedy_bounded(sc, b));
		Set rest = members(sc.get_uncovered());
		VF_CHECK(sc.active_set_count() <= b, "bounded.bound", show(v) << " bound " << b << " leaves " << sc);
		VF_CHECK(rest == minus(all, join(v, sel)), "bounded.cover", show(v) << " selected " << show(sel) << " leaves " << show(rest));
		std::size_t act = static_cast<std::size_t>(std::count_if(v.begin(), v.end(), [](const Set& s) { return !s.empty(); }));
		if (act <= b) VF_CHECK(sel.empty(), "bounded.idle", show(v) << " selected " << show(sel) << " below the bound");
	}
	{
		vf::op("greedy_weighted");
		cov::SetCover sc = make(v, r);
		std::vector<double> w;
		bool neg = r.chance(1, 4);
		for (std::size_t i = 0; i < v.size(); ++i) w.push_back(static_cast<double>(neg ? r.range(-3, 3) : r.range(1, 20)) / 2);
		std::size_t b = r.coin() ? 0 : r.below(5);
		Set sel = members(heu::greedy_weighted(sc, w, b));
		Set rest = members(sc.get_uncovered());
		VF_CHECK(sc.active_set_count() <= b, "weighted.bound", show(v) << " bound " << b << " leaves " << sc);
		VF_CHECK(rest == minus(all, join(v, sel)), "weighted.cover", show(v) << " selected " << show(sel) << " leaves " << show(rest));
		if (!neg && b == 0) {
			// a set of infinite weight is always taken first if it covers anything
			std::size_t k = v.empty() ? 0 : r.below(v.size());
			if (!v.empty() && !v[k].empty()) {
				std::vector<double> w2(v.size(), 1);
				w2[k] = 1000;
				cov::SetCover s2 = make(v, r);
				VF_CHECK(members(heu::greedy_weighted(s2, w2, 0)).count(k), "weighted.order", show(v) << " heavy set " << k << " not selected");
			}
		}
	}
	{
		vf::op("trivial");
		cov::SetCover sc = make(v, r);
		Set sel = members(heu::trivial(sc)), want;
		for (std::size_t i = 0; i < v.size(); ++i) want.insert(i);
		VF_CHECK(sel == want, "trivial.all", show(v) << " selected " << show(sel));
	}
}

void g_reduce(Rng& r) {
	auto v = instance(r, 8);
	vf::note(show(v));
	vf::observe(show(v));
	Set all = join(v);
	{
		vf::op("select_essential");
		cov::SetCover sc = make(v, r);
		Set sel = members(heu::select_essential(sc));
		VF_CHECK(sel == essential(v), "essential.selected", show(v) << " selected " << show(sel) << " essential " << show(essential(v)));
		std::vector<Set> want = v;
		Set got = join(v, sel);
		for (auto& s : want) s = minus(s, got);
		VF_CHECK(contents(sc) == want, "essential.rest", show(v) << " leaves " << sc);
	}
	{
		vf::op("remove_duplicates");
		cov::SetCover sc = make(v, r);
		Set sel = members(heu::remove_duplicates(sc));
		VF_CHECK(sel.empty(), "duplicates.selected", show(v) << " selected " << show(sel));
		std::vector<Set> w = contents(sc);
		VF_CHECK(w.size() <= v.size(), "duplicates.sets", show(v) << " -> " << sc);
		w.resize(v.size());
		Set rest = join(w);
		for (uint32_t s = 0; s < (1u << v.size()); ++s) {
			Set ids;
			for (std::size_t i = 0; i < v.size(); ++i) if (s >> i & 1) ids.insert(i);
			if (!VF_CHECK((join(v, ids) == all) == (join(w, ids) == rest), "duplicates.coverability", show(v) << " -> " << show(w) << " differ for " << show(ids))) break;
		}
		std::set<Set> cols, cols2;
		auto column = [](const std::vector<Set>& x, std::size_t e) { Set c; for (std::size_t i = 0; i < x.size(); ++i) if (x[i].count(e)) c.insert(i); return c; };
		for (auto e : all) cols.insert(column(v, e));
		for (auto e : rest) VF_CHECK(cols2.insert(column(w, e)).second, "duplicates.left", show(v) << " -> " << show(w));
		VF_CHECK(cols == cols2, "duplicates.columns", show(v) << " -> " << show(w));
	}
}

void g_exact(Rng& r) {
	auto v = instance(r, r.chance(1, 8) ? 12 : 8);
	vf::note(show(v));
	vf::observe(show(v));
	vf::op("exact");
	cov::SetCover sc = make(v, r);
	Set sel = members(heu::exact(sc));
	std::size_t opt = minimum(v);
	VF_CHECK(join(v, sel) == join(v) && (sel.empty() || *sel.rbegin() < v.size()), "exact.cover", show(v) << " selected " << show(sel));
	VF_CHECK(sel.size() == opt, "exact.minimum", show(v) << " selected " << show(sel) << " minimum " << opt);
	VF_CHECK(sc.get_uncovered().none(), "exact.rest", show(v) << " leaves " << sc);
	// a bounded greedy step followed by the exact procedure is still a cover
	vf::op("greedy_bounded+exact");
	cov::SetCover s2 = make(v, r);
	Set a = members(heu::greedy_bounded(s2, r.below(8)));
	Set b = members(heu::exact(s2));
	a.insert(b.begin(), b.end());
	VF_CHECK(join(v, a) == join(v), "exact.after-greedy", show(v) << " selected " << show(a));
}

void g_typed(Rng& r) {
	auto v = instance(r, 8);
	vf::note(show(v));
	vf::observe(show(v));
	std::vector<std::string> names;
	for (std::size_t i = 0; i < v.size(); ++i) names.push_back("set" + std::to_string(100 - i));
	std::vector<std::string> order = names;
	for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
	cov::TypedSetCover<std::string> t;
	std::map<std::string, Set> m;
	for (std::size_t i = 0; i < v.size(); ++i) m[names[i]] = v[i];
	// elements arrive interleaved over the sets
	for (int round = 0; round < 2; ++round) for (auto& n : order) {
		carl::Bitset b;
		std::size_t k = 0;
		for (auto e : m[n]) { if ((k++ % 2 == 0) == (round == 0)) { if (r.coin()) b.set(e); else t.set(n, e); } }
		t.set(n, b);
	}
	vf::op("typed");
	for (std::size_t i = 0; i < t.set_cover().set_count(); ++i) VF_CHECK(m.count(t.get_set(i)) && members(t.set_cover().get_set(i)) == m[t.get_set(i)], "typed.map", t);
	VF_CHECK(t.set_cover().set_count() == v.size(), "typed.count", t);
	auto covers = [&](const std::vector<std::string>& s) { Set u; for (auto& n : s) u.insert(m[n].begin(), m[n].end()); return u; };
	auto copy = t;
	auto g = copy.get_cover(heu::greedy);
	VF_CHECK(covers(g) == join(v), "typed.greedy", t);
	copy = t;
	auto x = copy.get_cover(heu::exact);
	VF_CHECK(covers(x) == join(v) && x.size() == minimum(v), "typed.exact", t << " selected " << x.size());
	copy = t;
	std::map<std::string, double> wt;
	for (auto& n : names) wt[n] = static_cast<double>(r.range(1, 9));
	auto sel = copy.get_cover([&](auto& sc) { (void)sc; return heu::greedy_weighted(copy, [&](const std::string& n) { return wt.at(n); }); });
	VF_CHECK(covers(sel) == join(v), "typed.weighted", t);
}

void g_intervals(Rng& r) {
	std::size_t n = 1 + r.below(r.chance(1, 5) ? 150 : 12);
	carl::Covering<int> c(n);
	std::map<int, Set> m;
	Set open;
	for (std::size_t i = 0; i < n; ++i) open.insert(i);
	std::string log = std::to_string(n);
	for (long k = 0, e = r.range(0, 10); k < e; ++k) {
		int id = static_cast<int>(r.below(8));
		carl::Bitset b;
		Set s;
		unsigned den = static_cast<unsigned>(r.range(2, 6));
		for (std::size_t i = 0; i < n; ++i) if (r.chance(1, den)) { b.set(i); s.insert(i); }
		if (r.chance(1, 5)) { b = carl::Bitset(); s.clear(); std::size_t lo = r.below(n), hi = lo + r.below(n - lo); b.set_interval(lo, hi); for (std::size_t i = lo; i <= hi; ++i) s.insert(i); }
		log += " " + std::to_string(id) + show(s);
		vf::note(log);
		vf::op("covering.add");
		c.add(id, b);
		m[id].insert(s.begin(), s.end());
		for (auto x : s) open.erase(x);
		VF_CHECK(c.conflicts() == open.empty(), "covering.conflicts", log << " conflicts " << c.conflicts());
		if (!open.empty()) VF_CHECK(open.count(c.satisfyingInterval()), "covering.satisfying", log << " gives " << c.satisfyingInterval());
		if (open.empty()) {
			vf::op("covering.core");
			std::vector<int> core;
			c.buildConflictingCore(core);
			Set u;
			std::set<int> ids(core.begin(), core.end());
			for (int i : core) u.insert(m[i].begin(), m[i].end());
			VF_CHECK(u.size() == n && ids.size() == core.size(), "covering.core", log << " core of " << core.size() << " covers " << u.size() << " of " << n);
		}
		vf::str(c);
	}
	vf::observe(log);
}

} // namespace

int main(int argc, char** argv) {
	vf::add_group("basic", 20000, 300000, g_basic);
	vf::add_group("greedy", 12000, 150000, g_greedy);
	vf::add_group("reduce", 6000, 80000, g_reduce);
	vf::add_group("exact", 8000, 100000, g_exact);
	vf::add_group("typed", 8000, 100000, g_typed);
	vf::add_group("intervals", 15000, 200000, g_intervals);
	return vf::run(argc, argv);
}
