// Multi-threaded cases: every worker owns its generator, its objects and its verdicts;
// the verdicts are reported by the main thread after the workers have been joined, so
// the monitor itself adds no synchronisation between the workers. The order in which
// the workers' operations started is taken from a relaxed counter, which orders nothing
// for the race detector; it is only used to count distinct interleavings.
#pragma once
#include <vf.h>
#include <atomic>
#include <chrono>
#include <ctime>
#include <thread>

namespace th {

struct Log {
	vf::Rng r;
	uint64_t evals = 0;
	std::map<std::string, uint64_t> ops;
	std::vector<std::pair<std::string, std::string>> fails;
	std::vector<uint32_t> tickets;
	explicit Log(uint64_t seed) : r(seed) {}
	void op(const char* name);
	template<typename F> bool check(bool ok, const std::string& key, F&& detail) {
		++evals;
		if (!ok && fails.size() < 20) { std::ostringstream o; detail(o); fails.emplace_back(key, o.str()); }
		return ok;
	}
};
#define TH_CHECK(log, cond, key, msg) (log).check((cond), (key), [&](std::ostream& vf_o) { vf_o << msg; })

inline std::atomic<uint32_t>& ticket() { static std::atomic<uint32_t> t{0}; return t; }
inline void Log::op(const char* name) {
	++ops[name];
	tickets.push_back(ticket().fetch_add(1, std::memory_order_relaxed));
}

inline double cpu() {
	timespec t;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
	return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

/// Runs fn(i, log) in one thread per log and waits for all of them. If neither the operation
/// counter nor the CPU clock moves for a minute, the workers block each other for good.
template<typename W, typename F>
void round(std::vector<W>& ws, F&& fn) {
	std::atomic<std::size_t> ready{0}, done{0};
	std::vector<std::thread> ts;
	for (std::size_t i = 0; i < ws.size(); ++i) ts.emplace_back([&, i] {
		ready.fetch_add(1, std::memory_order_relaxed);
		while (ready.load(std::memory_order_relaxed) < ws.size()) std::this_thread::yield();
		fn(i, ws[i]);
		done.fetch_add(1, std::memory_order_relaxed);
	});
	uint32_t last = ticket().load(std::memory_order_relaxed);
	double lastcpu = cpu();
	auto since = std::chrono::steady_clock::now();
	unsigned wait = 50;
	while (done.load(std::memory_order_relaxed) < ws.size()) {
		std::this_thread::sleep_for(std::chrono::microseconds(wait));
		if (wait < 20000) wait *= 2;
		uint32_t t = ticket().load(std::memory_order_relaxed);
		double c = cpu();
		if (t != last || c - lastcpu > 0.5) { last = t; lastcpu = c; since = std::chrono::steady_clock::now(); }
		else if (std::chrono::steady_clock::now() - since > std::chrono::seconds(60)) {
			vf::fail((vf::st().cur ? vf::st().cur->name : std::string()) + ":deadlock", "no worker advances and no CPU time is used for a minute");
			_exit(0);
		}
	}
	for (auto& t : ts) t.join();
}

/// Hands the verdicts and the observed interleaving of the workers to the driver.
template<typename W>
void report(std::vector<W>& ws, const std::string& what) {
	std::vector<std::pair<uint32_t, std::size_t>> order;
	auto& s = vf::st();
	for (std::size_t i = 0; i < ws.size(); ++i) {
		Log& l = ws[i];
		s.evals += l.evals;
		for (auto& o : l.ops) s.ops[o.first] += o.second;
		for (auto& f : l.fails) vf::fail(f.first, f.second);
		for (auto t : l.tickets) order.emplace_back(t, i);
	}
	std::sort(order.begin(), order.end());
	std::string il;
	uint64_t switches = 0;
	for (std::size_t i = 0; i < order.size(); ++i) {
		il += static_cast<char>('a' + order[i].second);
		if (i && order[i].second != order[i - 1].second) ++switches;
	}
	s.ops["thread switches between operations"] += switches;
	if (switches) vf::observe(what + " order " + il);
}
}
