// Reference Gröbner bases: textbook Buchberger on reference polynomials, with a work budget.
#pragma once
#include <rpoly.h>
#include <algorithm>
#include <set>

namespace rgb {
using ref::Poly;
using ref::Mono;
inline Poly monic(const Poly& p) { return p.zero() ? p : ref::scale(p, 1 / p.lcoeff()); }
/// normal form modulo gs
inline Poly reduce(Poly a, const std::vector<Poly>& gs, long& budget) {
	Poly r;
	while (!a.zero()) {
		Mono la = a.lmon();
		bool hit = false;
		for (auto& g : gs) {
			Mono lg = g.lmon();
			if (!ref::mdivides(lg, la)) continue;
			a = a - Poly(a.t.at(la) / g.t.at(lg), ref::mquo(la, lg)) * g;
			budget -= static_cast<long>(g.t.size() + a.t.size());
			hit = true;
			break;
		}
		if (budget < 0) return r;
		if (!hit) { r.add(la, a.t.at(la)); a.t.erase(la); }
	}
	return r;
}
inline Poly spoly(const Poly& p, const Poly& q) {
	Mono lp = p.lmon(), lq = q.lmon(), l = ref::mlcm(lp, lq);
	return Poly(1 / p.t.at(lp), ref::mquo(l, lp)) * p - Poly(1 / q.t.at(lq), ref::mquo(l, lq)) * q;
}
/// reduced, monic, sorted basis; false if the budget was exhausted
inline bool basis(const std::vector<Poly>& in, std::vector<Poly>& out, long budget = 60000) {
	std::vector<Poly> g;
	std::vector<std::pair<size_t, size_t>> pairs;
	auto add = [&](const Poly& p) { g.push_back(monic(p)); for (size_t i = 0; i + 1 < g.size(); ++i) pairs.emplace_back(i, g.size() - 1); };
	for (auto& p : in) {
		Poly r = reduce(p, g, budget);
		if (budget < 0) return false;
		if (!r.zero()) add(r);
	}
	while (!pairs.empty()) {
		size_t best = 0;
		for (size_t i = 1; i < pairs.size(); ++i)
			if (ref::mcmp(ref::mlcm(g[pairs[i].first].lmon(), g[pairs[i].second].lmon()), ref::mlcm(g[pairs[best].first].lmon(), g[pairs[best].second].lmon())) < 0) best = i;
		auto pr = pairs[best];
		pairs.erase(pairs.begin() + static_cast<long>(best));
		budget -= 5;
		const Poly &p = g[pr.first], &q = g[pr.second];
		if (ref::mdeg(ref::mgcd(p.lmon(), q.lmon())) == 0) continue;
		Poly r = reduce(spoly(p, q), g, budget);
		if (budget < 0) return false;
		if (!r.zero()) add(r);
		if (!r.zero() && r.constant()) { out = {Poly(1)}; return true; }
	}
	// minimal, then reduced
	std::vector<Poly> m;
	for (size_t i = 0; i < g.size(); ++i) {
		bool drop = false;
		for (size_t j = 0; j < g.size() && !drop; ++j) if (j != i && ref::mdivides(g[j].lmon(), g[i].lmon()) && (g[j].lmon() != g[i].lmon() || j < i)) drop = true;
		if (!drop) m.push_back(g[i]);
	}
	out.clear();
	for (size_t i = 0; i < m.size(); ++i) {
		std::vector<Poly> others;
		for (size_t j = 0; j < m.size(); ++j) if (j != i) others.push_back(m[j]);
		out.push_back(monic(reduce(m[i], others, budget)));
		if (budget < 0) return false;
	}
	std::sort(out.begin(), out.end(), [](const Poly& a, const Poly& b) { return ref::mcmp(a.lmon(), b.lmon()) < 0; });
	return true;
}
inline bool member(const Poly& p, const std::vector<Poly>& gb) { long b = 1000000; return reduce(p, gb, b).zero() && b >= 0; }
}
