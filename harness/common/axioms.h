// Order, equality and hash axioms over a set of values.
#pragma once
#include <vf.h>

namespace ax {
template<typename T, typename S>
void equality(const std::vector<T>& v, const std::string& k, const S& show) {
	for (size_t i = 0; i < v.size(); ++i) {
		VF_CHECK(v[i] == v[i] && !(v[i] != v[i]), k + ":eq-reflexive", show(v[i]));
		for (size_t j = 0; j < v.size(); ++j) {
			bool e = v[i] == v[j];
			VF_CHECK(e == (v[j] == v[i]), k + ":eq-symmetric", show(v[i]) << " and " << show(v[j]));
			VF_CHECK((v[i] != v[j]) == !e, k + ":neq", show(v[i]) << " and " << show(v[j]));
			if (e) for (size_t l = 0; l < v.size(); ++l)
				VF_CHECK((v[i] == v[l]) == (v[j] == v[l]), k + ":eq-transitive", show(v[i]) << ", " << show(v[j]) << ", " << show(v[l]));
		}
	}
}
template<typename T, typename S>
void hashing(const std::vector<T>& v, const std::string& k, const S& show) {
	std::hash<T> h;
	for (size_t i = 0; i < v.size(); ++i)
		for (size_t j = i; j < v.size(); ++j)
			if (v[i] == v[j]) VF_CHECK(h(v[i]) == h(v[j]), k + ":hash", "equal but hashed differently: " << show(v[i]) << " and " << show(v[j]));
}
/// strict total order given by a functor and compatible with an equivalence
template<typename T, typename L, typename E, typename S>
void order_fn(const std::vector<T>& v, const std::string& k, const L& lt, const E& eq, const S& show) {
	for (size_t i = 0; i < v.size(); ++i) {
		VF_CHECK(!lt(v[i], v[i]), k + ":irreflexive", show(v[i]));
		for (size_t j = 0; j < v.size(); ++j) {
			int n = (lt(v[i], v[j]) ? 1 : 0) + (lt(v[j], v[i]) ? 1 : 0) + (eq(v[i], v[j]) ? 1 : 0);
			VF_CHECK(n == 1, k + ":trichotomy", show(v[i]) << " and " << show(v[j]) << ": less=" << lt(v[i], v[j]) << " greater=" << lt(v[j], v[i]) << " equal=" << eq(v[i], v[j]));
			if (lt(v[i], v[j])) for (size_t l = 0; l < v.size(); ++l)
				if (lt(v[j], v[l])) VF_CHECK(lt(v[i], v[l]), k + ":transitive", show(v[i]) << " < " << show(v[j]) << " < " << show(v[l]));
		}
	}
}
template<typename A, typename B, typename S>
void six(const A& a, const B& b, const std::string& k, const S& show) {
	bool lt = a < b, eq = a == b;
	VF_CHECK((a != b) == !eq && (a <= b) == (lt || eq) && (a > b) == (!lt && !eq) && (a >= b) == !lt, k + ":operators",
		show() << ": < " << lt << " == " << eq << " != " << (a != b) << " <= " << (a <= b) << " > " << (a > b) << " >= " << (a >= b));
}
template<typename T, typename S>
void order(const std::vector<T>& v, const std::string& k, const S& show, bool six_ops = true) {
	order_fn(v, k, [](const T& a, const T& b) { return a < b; }, [](const T& a, const T& b) { return a == b; }, show);
	(void)six_ops;
}
}
