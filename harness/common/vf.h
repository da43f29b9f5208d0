// Shared run-time for all drivers: seeded case generation, operation accounting,
// oracle verdicts and violation records. A driver is a set of named groups; each
// group runs a number of independent cases, every case with its own RNG derived
// from (seed, group, case index), so a violation replays from those three values.
#pragma once
#include <gmpxx.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t splitmix(uint64_t& s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { splitmix(s); }
	uint64_t next() { return splitmix(s); }
	/// uniform in [0,n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	/// uniform in [lo,hi]
	long range(long lo, long hi) { return lo + static_cast<long>(below(static_cast<uint64_t>(hi - lo + 1))); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	bool coin() { return next() & 1; }
	template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Group { std::string name; long quick; long thorough; std::function<void(Rng&)> fn; bool grows = false; };

struct State {
	std::vector<Group> groups;
	uint64_t seed = 1;
	long shard = 0, shards = 1;
	bool thorough = false;
	std::string out, only_group;
	long only_case = -1, start_case = 0;
	std::string start_group;
	int fd = -1;
	// progress page shared with the runner through a file mapping
	char* prog = nullptr;
	const Group* cur = nullptr;
	long cur_case = 0;
	uint64_t evals = 0, cases = 0, nontrivial_calls = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> ops;
	std::map<std::string, std::vector<std::string>> samples;
	std::map<std::string, int> fails;
	long viol = 0;
	std::string trace; // description of the current case, for crash reports
	double case_cpu = 60;
	// memory mode: cases are repeated and the memory in use afterwards is compared
	bool leak = false, quiet = false;
	long div = 1;
	std::map<std::string, std::function<size_t()>> probes;
	uint64_t leak_decisions = 0, probe_decisions = 0, repeats = 0;
};
inline State& st() { static State s; return s; }

inline std::string jesc(const std::string& s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += static_cast<char>(c);
	}
	return r;
}
inline void emit(const std::string& line) {
	std::string l = line + "\n";
	size_t off = 0;
	while (off < l.size()) { ssize_t w = ::write(st().fd, l.data() + off, l.size() - off); if (w <= 0) break; off += static_cast<size_t>(w); }
}

/// Record one operation observed (for coverage accounting).
inline void op(const std::string& name) { if (!st().quiet) ++st().ops[name]; }
/// Note what is being executed now; appears in crash / hang reports.
inline void note(const std::string& what) {
	State& s = st();
	if (s.prog) { size_t n = std::min<size_t>(what.size(), 3000); memcpy(s.prog + 256, what.data(), n); s.prog[256 + n] = 0; }
}
/// Register the content of a non-trivial case; distinct contents are counted.
inline void observe(const std::string& content) {
	State& s = st();
	if (s.quiet) return;
	++s.nontrivial_calls;
	s.distinct.insert(hash_str((s.cur ? s.cur->name : "") + "|" + content));
	auto& v = s.samples[s.cur ? s.cur->name : ""];
	if (v.size() < 2) v.push_back(content.substr(0, 400));
}
inline void fail(const std::string& key, const std::string& detail) {
	State& s = st();
	if (s.quiet) return;
	++s.viol;
	int n = ++s.fails[key];
	if (n > 3) return;
	std::ostringstream o;
	o << "{\"t\":\"fail\",\"key\":\"" << jesc(key) << "\",\"group\":\"" << (s.cur ? s.cur->name : "") << "\",\"case\":" << s.cur_case
	  << ",\"detail\":\"" << jesc(detail.substr(0, 4000)) << "\"}";
	emit(o.str());
}
/// One oracle decision.
inline bool check(bool ok, const std::string& key, const std::function<std::string()>& detail) {
	if (st().quiet) return ok;
	++st().evals;
	if (!ok) fail(key, detail());
	return ok;
}
#define VF_CHECK(cond, key, msg) \
	::vf::check((cond), (key), [&]() { std::ostringstream vf_o; vf_o << msg; return vf_o.str(); })

inline void add_group(const std::string& name, long quick, long thorough, std::function<void(Rng&)> fn) {
	st().groups.push_back({name, quick, thorough, std::move(fn), false});
}
/// The latest group registers names for good (variables, sorts, ...), so repeating a case legitimately uses more memory.
inline void grows() { st().groups.back().grows = true; }
/// A count that has to come back to its value once a case has dropped its objects.
inline void probe(const std::string& name, std::function<size_t()> f) { st().probes[name] = std::move(f); }

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

/// Repeat a case until a repetition does not increase the memory in use; if none does, the case leaks.
inline void repeat_case(const Group& g, uint64_t base) {
	State& s = st();
	if (s.fails[g.name + ":leak"] >= 3) return;
	// buffers that the library keeps grow to their final size over a number of repetitions
	const int limit = 64;
	s.quiet = true;
	long d[limit];
	int n = 0;
	for (; n < limit; ++n) {
		struct itimerval it;
		memset(&it, 0, sizeof it);
		it.it_value.tv_sec = static_cast<long>(s.case_cpu);
		setitimer(ITIMER_PROF, &it, nullptr);
		size_t before = __sanitizer_get_current_allocated_bytes();
		{
			Rng rng(base);
			try { g.fn(rng); } catch (...) {}
		}
		size_t after = __sanitizer_get_current_allocated_bytes();
		++s.repeats;
		d[n] = static_cast<long>(after) - static_cast<long>(before);
		if (d[n] <= 0) break;
	}
	s.quiet = false;
	++s.leak_decisions;
	if (n == limit) fail(g.name + ":leak", "memory in use grows with every repetition of the case, by " + std::to_string(d[n - 3]) + ", " + std::to_string(d[n - 2]) + ", " + std::to_string(d[n - 1]) + " bytes");
}

extern "C" inline void vf_alarm(int) {
	const char* m = "{\"t\":\"hang\"}\n";
	ssize_t r = ::write(st().fd, m, strlen(m));
	(void)r;
	_exit(77);
}

template<typename T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }

inline int run(int argc, char** argv) {
	State& s = st();
	std::string progfile;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i + 1];
		if (a == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
		else if (a == "--shard") s.shard = atol(v.c_str());
		else if (a == "--shards") s.shards = atol(v.c_str());
		else if (a == "--tier") s.thorough = v == "thorough";
		else if (a == "--out") s.out = v;
		else if (a == "--prog") progfile = v;
		else if (a == "--group") s.only_group = v;
		else if (a == "--case") s.only_case = atol(v.c_str());
		else if (a == "--start-group") s.start_group = v;
		else if (a == "--start-case") s.start_case = atol(v.c_str());
		else if (a == "--leak") s.leak = v == "1";
		else if (a == "--div") s.div = atol(v.c_str());
		else if (a == "--cpu") s.case_cpu = atof(v.c_str());
	}
	s.fd = s.out.empty() ? 1 : ::open(s.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (s.fd < 0) { perror("out"); return 3; }
	if (!progfile.empty()) {
		int pf = ::open(progfile.c_str(), O_RDWR | O_CREAT, 0644);
		if (pf < 0 || ftruncate(pf, 4096) != 0) { perror("prog"); return 3; }
		s.prog = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0));
		if (s.prog == MAP_FAILED) { perror("mmap"); return 3; }
	}
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = vf_alarm;
	sigaction(SIGPROF, &sa, nullptr);
	bool started = s.start_group.empty();
	for (const auto& g : s.groups) {
		if (!s.only_group.empty() && g.name != s.only_group) continue;
		long first = 0;
		if (!started) {
			if (g.name != s.start_group) continue;
			started = true;
			first = s.start_case;
		}
		long n = s.thorough ? g.thorough : g.quick;
		if (s.div > 1) n = std::max(std::min(n, 8 * s.shards), n / s.div);
		std::map<std::string, std::pair<long, std::string>> grown;
		s.cur = &g;
		for (long c = first; c < n; ++c) {
			if (s.only_case >= 0) { if (c != s.only_case) continue; }
			else if (c % s.shards != s.shard) continue;
			s.cur_case = c;
			if (s.prog) { snprintf(s.prog, 256, "%s %ld", g.name.c_str(), c); s.prog[256] = 0; }
			uint64_t base = s.seed * 0x9e3779b97f4a7c15ull ^ hash_str(g.name) ^ (static_cast<uint64_t>(c) * 0xd1342543de82ef95ull);
			Rng rng(base);
			struct itimerval it;
			memset(&it, 0, sizeof it);
			it.it_value.tv_sec = static_cast<long>(s.case_cpu);
			setitimer(ITIMER_PROF, &it, nullptr);
			++s.cases;
			std::map<std::string, size_t> held;
			if (s.leak) for (auto& p : s.probes) held[p.first] = p.second();
			try {
				g.fn(rng);
			} catch (const std::exception& e) {
				fail(g.name + ":exception", std::string("unexpected exception: ") + e.what());
			} catch (...) {
				fail(g.name + ":exception", "unexpected exception");
			}
			if (s.leak) {
				for (auto& p : s.probes) {
					size_t now = p.second();
					++s.probe_decisions;
					if (now > held[p.first]) { auto& e = grown[p.first]; ++e.first; e.second += " " + std::to_string(c); }
				}
				if (!g.grows && __sanitizer_get_current_allocated_bytes) repeat_case(g, base);
			}
		}
		// objects made once and kept by the library are no leak; objects left behind by case after case are
		for (auto& p : grown) if (p.second.first > 5) fail(g.name + ":held:" + p.first, std::to_string(p.second.first) + " cases left objects in the pool of " + p.first + ": cases" + p.second.second.substr(0, 200));
	}
	struct itimerval it;
	memset(&it, 0, sizeof it);
	setitimer(ITIMER_PROF, &it, nullptr);
	if (s.leak) { s.ops["memory.repeated-runs"] = s.repeats; s.ops["memory.leak-decisions"] = s.leak_decisions; s.ops["memory.pool-decisions"] = s.probe_decisions; }
	std::ostringstream o;
	o << "{\"t\":\"end\",\"evals\":" << s.evals << ",\"cases\":" << s.cases << ",\"nontrivial\":" << s.nontrivial_calls << ",\"ops\":{";
	bool f = true;
	for (auto& [k, v] : s.ops) { o << (f ? "" : ",") << "\"" << jesc(k) << "\":" << v; f = false; }
	o << "},\"samples\":{";
	f = true;
	for (auto& [k, v] : s.samples) {
		o << (f ? "" : ",") << "\"" << jesc(k) << "\":[";
		for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << "\"" << jesc(v[i]) << "\"";
		o << "]";
		f = false;
	}
	o << "}}";
	emit(o.str());
	// distinct hashes in a side file (merged over shards by the runner)
	if (!s.out.empty()) {
		std::string hf = s.out + ".h";
		FILE* fp = fopen(hf.c_str(), "ab");
		if (fp) { for (uint64_t h : s.distinct) fwrite(&h, 8, 1, fp); fclose(fp); }
	}
	if (s.prog) snprintf(s.prog, 256, "done");
	return 0;
}

// ---- hostile number generators -------------------------------------------------
inline mpz_class gen_mpz(Rng& r) {
	switch (r.below(8)) {
	case 0: return mpz_class(r.range(-3, 3));
	case 1: return mpz_class(r.range(-100, 100));
	case 2: { mpz_class x = 1; x <<= static_cast<unsigned>(r.range(0, 200)); x += r.range(-2, 2); return r.coin() ? x : mpz_class(-x); }
	case 3: { // boundary of machine types
		static const std::vector<unsigned> b = {7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 127, 128};
		mpz_class x = 1; x <<= r.pick(b); x += r.range(-2, 2); return r.coin() ? x : mpz_class(-x); }
	case 4: { mpz_class x = 1; int n = static_cast<int>(r.range(1, 12)); static const std::vector<long> ps = {2, 2, 2, 3, 3, 5, 7, 11, 13}; for (int i = 0; i < n; ++i) x *= r.pick(ps); return r.coin() ? x : mpz_class(-x); }
	case 5: { mpz_class x = 0; int n = static_cast<int>(r.range(1, 5)); for (int i = 0; i < n; ++i) { x <<= 64; mpz_class w; uint64_t v = r.next(); mpz_import(w.get_mpz_t(), 1, 1, 8, 0, 0, &v); x += w; } return r.coin() ? x : mpz_class(-x); }
	case 6: { mpz_class x = r.range(-1000, 1000); return x * x * x; }
	default: return mpz_class(static_cast<long>(r.next() >> r.below(64)) * (r.coin() ? 1 : -1));
	}
}
inline mpz_class gen_small(Rng& r, long b = 20) { return mpz_class(r.range(-b, b)); }
inline mpq_class gen_q(Rng& r, long num = 12, long den = 6) {
	mpq_class q(r.range(-num, num), r.coin() ? 1 : r.range(1, den));
	q.canonicalize();
	return q;
}
inline mpq_class gen_mpq(Rng& r) {
	if (r.chance(1, 2)) return gen_q(r);
	mpz_class d = gen_mpz(r);
	if (d == 0) d = 1;
	mpq_class q(gen_mpz(r), d);
	q.canonicalize();
	return q;
}
}
