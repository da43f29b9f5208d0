// C22: option values, settings parser, quantity printing and statistics output
// against exact arithmetic and a model of option precedence.
#include "../common/vf.h"

#include <carl-settings/Settings.h>
#include <carl-settings/SettingsParser.h>
#include <carl-settings/settings_utils.h>
#include <carl-statistics/carl-statistics.h>
#include <carl-statistics/StatisticsPrinter.h>

#include <boost/any.hpp>
#include <cstdlib>
#include <fstream>
#include <unistd.h>

using vf::Rng;
namespace cs = carl::settings;
namespace po = boost::program_options;
using Z = mpz_class;

namespace {

struct Unit { const char* name; const char* value; };
const std::vector<Unit> BIN = {{"", "1"}, {"K", "1024"}, {"Ki", "1024"}, {"M", "1048576"}, {"Mi", "1048576"}, {"G", "1073741824"}, {"Gi", "1073741824"},
	{"T", "1099511627776"}, {"Ti", "1099511627776"}, {"P", "1125899906842624"}, {"Pi", "1125899906842624"}, {"E", "1152921504606846976"}, {"Ei", "1152921504606846976"}};
const std::vector<Unit> MET = {{"", "1"}, {"K", "1000"}, {"M", "1000000"}, {"G", "1000000000"}, {"T", "1000000000000"}, {"P", "1000000000000000"}, {"E", "1000000000000000000"}};
const std::vector<Unit> DUR = {{"ns", "1"}, {"us", "1000"}, {"\xc2\xb5s", "1000"}, {"ms", "1000000"}, {"s", "1000000000"}, {"m", "60000000000"}, {"h", "3600000000000"}};
// units in the order used for printing
const std::vector<Unit> BINP = {{"", "1"}, {"Ki", "1024"}, {"Mi", "1048576"}, {"Gi", "1073741824"}, {"Ti", "1099511627776"}, {"Pi", "1125899906842624"}, {"Ei", "1152921504606846976"}};
const std::vector<Unit> DURP = {{"ns", "1"}, {"\xc2\xb5s", "1000"}, {"ms", "1000000"}, {"s", "1000000000"}, {"m", "60000000000"}, {"h", "3600000000000"}};

const Z U64MAX("18446744073709551615", 10), I64MAX("9223372036854775807", 10), I64MIN("-9223372036854775808", 10);

/// Grammar `<number><unit>`; gives whether s is a legal text and its exact value.
bool denote(const std::string& s, const std::vector<Unit>& units, bool sign, Z& value) {
	std::size_t i = 0;
	bool neg = false;
	if (sign && i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	std::size_t b = i;
	while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
	if (i == b) return false;
	Z n(s.substr(b, i - b), 10);
	if (neg) n = -n;
	std::string u = s.substr(i);
	for (auto& x : units) if (u == x.name) { value = n * Z(x.value, 10); return true; }
	return false;
}

std::string number(Rng& r) {
	switch (r.below(6)) {
		case 0: return std::to_string(r.below(3));
		case 1: return std::to_string(r.below(5000));
		case 2: return vf::gen_mpz(r).get_str();
		case 3: { // around the largest value of some unit
			const auto& us = r.coin() ? BIN : r.coin() ? MET : DUR;
			Z u(us[r.below(us.size())].value, 10);
			Z m = (r.coin() ? U64MAX : I64MAX) / u + r.range(-2, 2);
			if (r.chance(1, 4)) m = -m;
			return m.get_str();
		}
		case 4: { Z m = (Z(1) << static_cast<unsigned>(r.below(66))) + r.range(-1, 1); return m.get_str(); }
		default: return std::string(r.below(4), '0') + std::to_string(r.below(100000));
	}
}
std::string text(Rng& r, const std::vector<Unit>& units) {
	std::string s = number(r);
	if (r.chance(1, 20)) s = "";
	if (r.chance(1, 25)) s = "+" + s;
	if (r.chance(1, 15)) s = "-" + s;
	std::string u = units[r.below(units.size())].name;
	switch (r.below(14)) {
		case 0: u += "i"; break;
		case 1: { const auto& o = r.coin() ? BIN : r.coin() ? MET : DUR; u = o[r.below(o.size())].name; break; }
		case 2: u = " " + u; break;
		case 3: u += std::string(1, "BsK10.- "[r.below(8)]); break;
		case 4: for (auto& c : u) c = r.coin() ? static_cast<char>(toupper(c)) : static_cast<char>(tolower(c)); break;
		case 5: u = ".5" + u; break;
		case 6: u = "e3" + u; break;
		default: break;
	}
	if (r.chance(1, 30)) s = " " + s;
	return s + u;
}

/// -1 rejected, 1 accepted with its value in v
template<typename T> int parse(const std::string& s, boost::any& v) {
	try { cs::validate(v, std::vector<std::string>{s}, static_cast<T*>(nullptr), 0); return 1; }
	catch (const po::error&) { return -1; }
}
template<typename Q> Z zval(const Q& q) { return Z(std::to_string(q.n()), 10); }
Z zval(const cs::duration& d) { return Z(std::to_string(d.count()), 10); }

void check_print(const Z& value, const std::string& out, const std::vector<Unit>& units, const std::string& key) {
	Z shown;
	if (!VF_CHECK(denote(out, units, true, shown), key + ".print-form", value << " printed as " << out)) return;
	std::size_t i = 0;
	while (i < out.size() && (out[i] == '-' || isdigit(static_cast<unsigned char>(out[i])))) ++i;
	Z u = 1;
	for (auto& x : units) if (out.substr(i) == x.name) u = Z(x.value, 10);
	VF_CHECK((value >= 0 ? shown <= value && value < shown + u : shown >= value && shown - u < value && shown <= 0), key + ".print-value", value << " printed as " << out);
	// the largest unit in which a non-negative value does not vanish
	if (value > 0) {
		Z best = 1;
		for (auto& x : units) if (Z(x.value, 10) <= value) best = std::max(best, Z(x.value, 10));
		VF_CHECK(u == best, key + ".print-unit", value << " printed as " << out);
	}
}

template<typename T> void quantity(Rng& r, const std::vector<Unit>& units, const std::vector<Unit>& printed, const std::string& key, bool sign) {
	std::string s = text(r, units);
	vf::note(key + " '" + s + "'");
	vf::observe(key + s);
	vf::op(key + ".parse");
	Z want;
	bool legal = denote(s, units, sign, want) && (sign ? want >= I64MIN && want <= I64MAX : want <= U64MAX);
	boost::any v;
	int got = parse<T>(s, v);
	if (got == 1 && !legal) { VF_CHECK(false, key + ".accepts", "'" << s << "' accepted as " << zval(boost::any_cast<T>(v))); return; }
	if (!VF_CHECK((got == 1) == legal, key + ".rejects", "'" << s << "' rejected")) return;
	if (!legal) { VF_CHECK(v.empty(), key + ".leaves-value", s); return; }
	T q = boost::any_cast<T>(v);
	VF_CHECK(zval(q) == want, key + ".value", "'" << s << "' parsed as " << zval(q) << " expected " << want);
	vf::op(key + ".print");
	check_print(zval(q), vf::str(q), printed, key);
}

template<typename T, typename A> void accessors(const T& q, const Z& n, const std::vector<Unit>& units, const A& values, const std::string& key) {
	for (std::size_t i = 0; i < values.size(); ++i)
		VF_CHECK(Z(std::to_string(values[i]), 10) == n / Z(units[i].value, 10), key + ".access", n << " in " << units[i].name << " is " << values[i]);
}

void g_quantity(Rng& r) {
	quantity<cs::binary_quantity>(r, BIN, BINP, "binary", false);
	quantity<cs::metric_quantity>(r, MET, MET, "metric", false);
	quantity<cs::duration>(r, DUR, DURP, "duration", true);
	// arbitrary values, not only those reachable by parsing
	std::size_t n = static_cast<std::size_t>(r.next()) >> r.below(64);
	if (r.chance(1, 4)) n = (std::size_t(1) << r.below(64)) - r.below(2);
	std::size_t m = r.coin() ? n : static_cast<std::size_t>(r.next()) >> r.below(64);
	vf::note("n " + std::to_string(n));
	Z z(std::to_string(n), 10);
	cs::binary_quantity b(n), b2(m);
	cs::metric_quantity q(n), q2(m);
	vf::op("print");
	check_print(z, vf::str(b), BINP, "binary");
	check_print(z, vf::str(q), MET, "metric");
	accessors(b, z, BINP, std::vector<std::size_t>{b.n(), b.kibi(), b.mebi(), b.gibi(), b.tebi(), b.pebi(), b.exbi()}, "binary");
	accessors(q, z, MET, std::vector<std::size_t>{q.n(), q.kilo(), q.mega(), q.giga(), q.tera(), q.peta(), q.exa()}, "metric");
	VF_CHECK((b == b2) == (n == m) && (b < b2) == (n < m) && (q == q2) == (n == m) && (q < q2) == (n < m), "quantity.compare", n << " " << m);
	cs::duration d = std::chrono::nanoseconds(static_cast<long>(n));
	check_print(Z(std::to_string(static_cast<long>(n)), 10), vf::str(d), DURP, "duration");
	long ns = static_cast<long>(n);
	VF_CHECK(static_cast<std::chrono::seconds>(d).count() == ns / 1000000000 && static_cast<std::chrono::milliseconds>(d).count() == ns / 1000000 && static_cast<std::chrono::hours>(d).count() == ns / 3600000000000L, "duration.convert", ns);
	cs::duration e = std::chrono::minutes(ns % 100000);
	VF_CHECK(e.count() == (ns % 100000) * 60000000000L, "duration.from-minutes", ns % 100000);
}

// ---------------------------------------------------------------- parser

struct Parser : cs::SettingsParser {
	mutable std::vector<std::string> unknown, noconfig;
	void warn_for_unrecognized_option(const std::string& s) const override { unknown.push_back(s); }
	void warn_config_file(const std::string& s) const override { noconfig.push_back(s); }
	po::variables_map& values() { return mValues; }
	po::positional_options_description& positional() { return mPositional; }
};

std::string scratch() {
	static std::string dir;
	if (dir.empty()) {
		const char* base = getenv("TMPDIR");
		std::string t = std::string(base && *base ? base : "/tmp") + "/vf-settings-XXXXXX";
		std::vector<char> buf(t.begin(), t.end());
		buf.push_back(0);
		if (!mkdtemp(buf.data())) abort();
		dir = buf.data();
		static struct Clean { std::string d; ~Clean() { for (const char* f : {"/c.ini", "/stats.xml", "/given"}) unlink((d + f).c_str()); rmdir(d.c_str()); } } clean{dir};
	}
	return dir;
}

struct Data { std::size_t num = 0; std::string str; bool flag = false; cs::duration dur; cs::binary_quantity bin; cs::metric_quantity met; std::vector<std::string> list; };

void g_parser(Rng& r) {
	std::string dir = scratch();
	Parser p;
	cs::Settings settings;
	Data& d = settings.get<Data>("data");
	VF_CHECK(&settings.get<Data>("data") == &d && &settings.get<Data>("other") != &d, "settings.get", "different objects for the same name");
	std::string cfg;
	bool has_default = r.coin();
	{
		auto& g = p.add("core");
		g.add_options()
			("num,n", po::value<std::size_t>(&d.num)->default_value(17), "a number")
			("str", po::value<std::string>(&d.str)->default_value("dflt"), "a string")
			("flag", po::bool_switch(&d.flag), "a switch");
	}
	{
		auto& g = p.add("limits");
		if (has_default) g.add_options()("limits.time", po::value<cs::duration>(&d.dur)->default_value(cs::duration(std::chrono::seconds(3))), "time");
		else g.add_options()("limits.time", po::value<cs::duration>(&d.dur), "time");
		g.add_options()("limits.mem", po::value<cs::binary_quantity>(&d.bin), "mem")("limits.steps", po::value<cs::metric_quantity>(&d.met), "steps");
	}
	{
		auto& g = p.add("files");
		g.add_options()("config", po::value<std::string>(&cfg), "config file")("input", po::value<std::string>(), "input");
	}
	p.positional().add("input", 1);

	// finalisers: each records that it ran, some change the map
	std::size_t nf = r.below(5);
	std::vector<int> ran(nf, 0), order;
	std::vector<bool> changes;
	bool overwritten = false, defaulted = false;
	std::size_t over_value = 0, dflt_value = 0;
	for (std::size_t i = 0; i < nf; ++i) {
		bool ch = r.coin();
		changes.push_back(ch);
		unsigned kind = static_cast<unsigned>(r.below(3));
		std::size_t val = 1000 + i;
		p.add_finalizer([&, i, ch, kind, val](po::variables_map& m) {
			++ran[i];
			order.push_back(static_cast<int>(i));
			if (kind == 0) { cs::overwrite_to(m, "num", val); overwritten = true; over_value = val; }
			if (kind == 1) {
				bool was = m.find("num")->second.defaulted();
				cs::default_to(m, "num", val);
				if (was) { defaulted = true; dflt_value = val; overwritten = false; }
			}
			if (kind == 2) cs::default_to(m, "extra" + std::to_string(i), val);
			return ch;
		});
	}
	p.finalize();

	// choose for every option: command line, config file, both, none
	struct Given { bool cl = false, cf = false; std::string a, b; };
	std::map<std::string, Given> g;
	bool bad = false;
	auto value = [&](const std::string& o) -> std::string {
		auto legal = [&](const std::vector<Unit>& u, bool sign, const Z& max) {
			for (;;) { std::string s = text(r, u); Z v; if (denote(s, u, sign, v) && v >= 0 && v <= max && s[0] != '+' && s[0] != '-') return s; }
		};
		if (o == "num") return std::to_string(r.below(100000));
		if (o == "str") return std::string("v") + std::to_string(r.below(1000)) + (r.coin() ? "=x y" : "");
		if (o == "limits.time") return legal(DUR, true, I64MAX);
		if (o == "limits.mem") return legal(BIN, false, U64MAX);
		return legal(MET, false, U64MAX);
	};
	bool use_config = r.chance(2, 3), config_exists = r.chance(5, 6);
	std::vector<std::string> args = {"prog"};
	std::string file;
	std::string section;
	for (std::string o : {"num", "str", "limits.time", "limits.mem", "limits.steps"}) {
		Given& x = g[o];
		x.cl = r.chance(1, 2);
		x.cf = r.chance(1, 2);
		if (x.cl) {
			x.a = value(o);
			if (r.coin()) args.push_back("--" + o + "=" + x.a); else { args.push_back("--" + o); args.push_back(x.a); }
		}
		if (x.cf) {
			x.b = value(o);
			std::size_t dot = o.find('.');
			if (dot == std::string::npos) file = o + " = " + x.b + "\n" + file;
			else if (r.coin()) { section += o.substr(dot + 1) + "=" + x.b + "\n"; }
			else file = o + "=" + x.b + "   # comment\n" + file;
		}
	}
	bool flag = r.coin();
	if (flag) args.push_back("--flag");
	bool unk = r.chance(1, 3), unkc = r.chance(1, 4);
	if (unk) args.push_back("--unknown=1");
	if (unkc) file = "mystery = 2\n" + file;
	bool input = r.coin();
	if (input) args.push_back("file.smt2");
	if (use_config) args.push_back("--config=" + dir + "/c.ini");
	file = "# configuration\n" + file + (section.empty() ? "" : "[limits]\n" + section);
	if (use_config && config_exists) std::ofstream(dir + "/c.ini") << file; else unlink((dir + "/c.ini").c_str());
	bool cf = use_config && config_exists;
	bool strict = r.chance(1, 5);
	std::string log;
	for (auto& a : args) log += a + " ";
	log += " file:" + file;
	vf::note(log);
	vf::observe(log);
	vf::op("parse_options");
	std::vector<std::vector<char>> store;
	std::vector<char*> argv;
	for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
	for (auto& s : store) argv.push_back(s.data());
	bool thrown = false;
	try { p.parse_options(static_cast<int>(argv.size()), argv.data(), !strict); }
	catch (const po::error& e) { thrown = true; bad = strict && (unk || (unkc && cf)); if (!VF_CHECK(bad, "parser.throws", log << ": " << e.what())) return; }
	if (thrown) return;
	VF_CHECK(!(strict && (unk || (unkc && cf))), "parser.strict", log << " unknown option accepted");
	auto chosen = [&](const std::string& o) -> std::string { const Given& x = g[o]; return x.cl ? x.a : x.cf && cf ? x.b : ""; };
	std::string s = chosen("num");
	VF_CHECK(d.num == (s.empty() ? 17 : std::stoul(s)), "parser.num", log << " num " << d.num);
	{
		std::size_t want = overwritten ? over_value : defaulted ? dflt_value : s.empty() ? 17 : std::stoul(s);
		VF_CHECK(p.values()["num"].as<std::size_t>() == want, "parser.finalized", log << " num " << p.values()["num"].as<std::size_t>() << " expected " << want);
		if (!overwritten && !s.empty()) VF_CHECK(!defaulted, "parser.default-over-given", log);
	}
	s = chosen("str");
	VF_CHECK(d.str == (s.empty() ? "dflt" : s), "parser.str", log << " str " << d.str);
	VF_CHECK(d.flag == flag, "parser.flag", log);
	Z v;
	s = chosen("limits.time");
	if (!s.empty()) { denote(s, DUR, true, v); VF_CHECK(zval(d.dur) == v, "parser.duration", log << " " << d.dur.count()); }
	else VF_CHECK(has_default ? d.dur.count() == 3000000000L : p.values().count("limits.time") == 0, "parser.duration-default", log);
	s = chosen("limits.mem");
	if (!s.empty()) { denote(s, BIN, false, v); VF_CHECK(zval(d.bin) == v, "parser.binary", log << " " << d.bin.n()); }
	else VF_CHECK(p.values().count("limits.mem") == 0, "parser.binary-default", log);
	s = chosen("limits.steps");
	if (!s.empty()) { denote(s, MET, false, v); VF_CHECK(zval(d.met) == v, "parser.metric", log << " " << d.met.n()); }
	else VF_CHECK(p.values().count("limits.steps") == 0, "parser.metric-default", log);
	VF_CHECK((p.values().count("input") == 1) == input && (!input || p.values()["input"].as<std::string>() == "file.smt2"), "parser.positional", log);
	for (std::size_t i = 0; i < nf; ++i) VF_CHECK(ran[i] == 1, "parser.finalizer", log << " finaliser " << i << " of " << nf << " ran " << ran[i] << " times");
	VF_CHECK(std::is_sorted(order.begin(), order.end()), "parser.finalizer-order", log);
	VF_CHECK(p.unknown.size() == (unk ? 1u : 0u) + (unkc && cf ? (p.unknown.size() > (unk ? 1u : 0u) ? p.unknown.size() - (unk ? 1u : 0u) : 1u) : 0u), "parser.unknown", log << " warned about " << p.unknown.size());
	VF_CHECK(p.noconfig.size() == (use_config && !config_exists ? 1u : 0u), "parser.noconfig", log);
	// the printed settings name every option with its value
	vf::op("print_options");
	std::istringstream in(vf::str(p.print_options()));
	std::map<std::string, std::string> lines;
	std::string line;
	while (std::getline(in, line)) { auto e = line.find(" = "); if (VF_CHECK(e != std::string::npos, "parser.print-form", line)) lines[line.substr(0, e)] = line.substr(e + 3); }
	auto printed = [&](const std::string& canonical) { auto it = lines.find(canonical); return it == lines.end() ? std::string("<missing>") : it->second; };
	VF_CHECK(printed("str") == d.str, "parser.print-str", log << " printed " << printed("str"));
	VF_CHECK(printed("flag") == (flag ? "true" : "false"), "parser.print-flag", log << " printed " << printed("flag"));
	if (!chosen("limits.mem").empty()) check_print(zval(d.bin), printed("limits.mem"), BINP, "parser.print-mem");
	else VF_CHECK(printed("limits.mem") == "<empty>", "parser.print-unset", printed("limits.mem"));
	if (!chosen("limits.steps").empty()) check_print(zval(d.met), printed("limits.steps"), MET, "parser.print-steps");
	if (has_default || !chosen("limits.time").empty()) check_print(zval(d.dur), printed("limits.time"), DURP, "parser.print-time");
	vf::op("print_help");
	std::string help = vf::str(p.print_help());
	for (const char* o : {"--num", "--str", "--flag", "--limits.time", "--limits.mem", "--limits.steps", "--config", "Usage: prog", "input"}) VF_CHECK(help.find(o) != std::string::npos, "parser.help", o << " missing in " << help);
}

void g_badvalue(Rng& r) {
	// an illegal value for an option is an error, never a silent default
	Parser p;
	Data d;
	p.add("x").add_options()("time", po::value<cs::duration>(&d.dur), "t")("mem", po::value<cs::binary_quantity>(&d.bin), "m")("steps", po::value<cs::metric_quantity>(&d.met), "s");
	p.finalize();
	unsigned k = static_cast<unsigned>(r.below(3));
	std::string s = text(r, k == 0 ? DUR : k == 1 ? BIN : MET);
	if (s.empty() || s[0] == '-') s = "5" + s;
	Z v;
	bool legal = k == 0 ? denote(s, DUR, true, v) && v >= I64MIN && v <= I64MAX : k == 1 ? denote(s, BIN, false, v) && v <= U64MAX : denote(s, MET, false, v) && v <= U64MAX;
	std::string a = std::string(k == 0 ? "--time=" : k == 1 ? "--mem=" : "--steps=") + s;
	vf::note(a);
	vf::observe(a);
	vf::op("bad value");
	std::string prog = "prog";
	char* argv[] = {prog.data(), a.data()};
	bool ok = true;
	try { p.parse_options(2, argv); } catch (const po::error&) { ok = false; }
	VF_CHECK(ok == legal, "parser.value-accepted", a << (ok ? " accepted" : " rejected"));
}

void g_path(Rng& r) {
	std::string dir = scratch();
	std::string f = dir + "/given";
	bool exists = r.coin();
	if (exists) std::ofstream(f) << "x"; else unlink(f.c_str());
	std::string given = r.coin() ? f : dir + "/../" + dir.substr(dir.rfind('/') + 1) + "/./given";
	vf::note(given);
	vf::op("path");
	boost::any v;
	std::validate(v, {given}, static_cast<std::filesystem::path*>(nullptr), 0);
	auto got = boost::any_cast<std::filesystem::path>(v);
	VF_CHECK(got.is_absolute(), "path.absolute", given << " -> " << got);
	if (exists) VF_CHECK(got == std::filesystem::canonical(f), "path.canonical", given << " -> " << got);
	else VF_CHECK(got.lexically_normal() == std::filesystem::path(f).lexically_normal(), "path.same", given << " -> " << got);
	unlink(f.c_str());
}

// ------------------------------------------------------------- statistics

struct Stat : carl::statistics::Statistics {
	std::map<std::string, std::string> want;
	std::map<std::string, long> ints;
	std::map<std::string, std::string> strs;
	std::map<std::string, double> dbl;
	carl::statistics::timer tm;
	bool use_timer = false, on = true;
	int calls = 0;
	bool enabled() const override { return on; }
	void collect() override {
		++calls;
		for (auto& x : ints) addKeyValuePair(x.first, x.second);
		for (auto& x : strs) addKeyValuePair(x.first, x.second);
		for (auto& x : dbl) addKeyValuePair(x.first, x.second);
		if (use_timer) addKeyValuePair("tm", tm);
	}
	void expect() {
		for (auto& x : ints) want[x.first] = std::to_string(x.second);
		for (auto& x : strs) want[x.first] = x.second;
		for (auto& x : dbl) want[x.first] = vf::str(x.second);
		if (use_timer) { want["tm_count"] = std::to_string(tm.count()); want["tm_overall_ms"] = std::to_string(tm.overall_ms()); }
	}
};

void g_stats(Rng& r) {
	// The collector is a process-wide singleton; only the statistics added here are compared.
	auto& col = carl::statistics::StatisticsCollector::getInstance();
	std::size_t base = col.statistics().size();
	static std::size_t serial = 0;
	std::size_t n = 1 + r.below(3);
	std::vector<Stat*> st;
	std::vector<std::string> names;
	std::string log;
	auto fill = [&](Stat& s) {
		for (long k = 0, e = r.range(0, 3); k < e; ++k) s.ints["i" + std::to_string(r.below(6))] = r.range(-100000, 100000);
		for (long k = 0, e = r.range(0, 2); k < e; ++k) s.strs["longer_key" + std::to_string(r.below(4))] = "val" + std::to_string(r.below(1000));
		if (r.chance(1, 3)) s.dbl["d"] = static_cast<double>(r.range(-1000, 1000)) / 8;
		if (r.chance(1, 3)) {
			s.use_timer = true;
			std::size_t c = s.tm.count(), o = s.tm.overall_ms();
			std::size_t back = r.below(5000);
			auto t0 = carl::statistics::timing::now();
			s.tm.finish(carl::statistics::timer::start() - std::chrono::milliseconds(back));
			auto t1 = std::chrono::duration_cast<std::chrono::milliseconds>(carl::statistics::timing::now() - t0).count();
			VF_CHECK(s.tm.count() == c + 1 && s.tm.overall_ms() >= o + back && s.tm.overall_ms() <= o + back + static_cast<std::size_t>(t1) + 1, "stats.timer", "count " << s.tm.count() << " overall " << s.tm.overall_ms());
		}
	};
	for (std::size_t i = 0; i < n; ++i) {
		std::string nm = "mod<" + std::to_string(serial++) + ">";
		Stat& s = carl::statistics::get<Stat>(nm);
		VF_CHECK(s.name() == nm, "stats.name", s.name());
		s.on = !r.chance(1, 5);
		st.push_back(&s);
		names.push_back(nm);
	}
	VF_CHECK(col.statistics().size() == base + n, "stats.registered", col.statistics().size());
	for (int round = 0, e = static_cast<int>(r.range(1, 3)); round < e; ++round) {
		for (auto* s : st) { fill(*s); if (s->on) s->expect(); }
		vf::op("collect");
		std::vector<int> before;
		for (auto* s : st) before.push_back(s->calls);
		col.collect();
		for (std::size_t i = 0; i < n; ++i) {
			VF_CHECK(st[i]->calls == before[i] + (st[i]->on ? 1 : 0), "stats.collect-called", st[i]->calls);
			VF_CHECK(st[i]->collected() == st[i]->want, round == 0 ? "stats.values" : "stats.values-again", "collected " << st[i]->collected().size() << " pairs, expected " << st[i]->want.size());
		}
	}
	// parse both outputs back
	vf::op("smtlib");
	std::map<std::string, std::vector<std::map<std::string, std::string>>> seen;
	{
		std::istringstream in(vf::str(carl::statistics::statistics_as_smtlib()));
		std::string line, cur;
		while (std::getline(in, line)) {
			if (line.compare(0, 2, "(:") == 0) { auto e = line.rfind(" ("); cur = line.substr(2, e - 2); seen[cur].emplace_back(); }
			else if (line == "))") cur.clear();
			else {
				std::istringstream l(line);
				std::string k, v, rest;
				l >> k >> v;
				if (!VF_CHECK(!cur.empty() && k.size() > 1 && k[0] == ':' && !(l >> rest), "stats.smtlib-form", line)) continue;
				VF_CHECK(seen[cur].back().emplace(k.substr(1), v).second, "stats.smtlib-once", line);
			}
		}
	}
	for (std::size_t i = 0; i < n; ++i) {
		std::size_t cnt = seen.count(names[i]) ? seen[names[i]].size() : 0;
		if (VF_CHECK(cnt == (st[i]->want.empty() ? 0u : 1u), "stats.smtlib-module", names[i] << " printed " << cnt << " times") && cnt)
			VF_CHECK(seen[names[i]][0] == st[i]->want, "stats.smtlib-values", names[i]);
	}
	vf::op("xml");
	std::string file = scratch() + "/stats.xml";
	carl::statistics::statistics_to_xml_file(file);
	std::ifstream in(file);
	std::string line, cur;
	seen.clear();
	std::size_t heads = 0, tails = 0;
	auto attr = [](const std::string& l, const std::string& a) { auto b = l.find(a + "=\""); if (b == std::string::npos) return std::string("?"); b += a.size() + 2; return l.substr(b, l.find('"', b) - b); };
	while (std::getline(in, line)) {
		if (line == "<runtimestats>") ++heads;
		else if (line == "</runtimestats>") ++tails;
		else if (line.find("<module") != std::string::npos) { cur = attr(line, "name"); seen[cur].emplace_back(); }
		else if (line.find("</module>") != std::string::npos) cur.clear();
		else if (VF_CHECK(line.find("<stat ") != std::string::npos && !cur.empty(), "stats.xml-form", line)) VF_CHECK(seen[cur].back().emplace(attr(line, "name"), attr(line, "value")).second, "stats.xml-once", line);
	}
	VF_CHECK(heads == 1 && tails == 1, "stats.xml-frame", heads << " " << tails);
	for (std::size_t i = 0; i < n; ++i) {
		std::string nm = names[i];
		std::replace(nm.begin(), nm.end(), '<', '(');
		std::replace(nm.begin(), nm.end(), '>', ')');
		std::size_t cnt = seen.count(nm) ? seen[nm].size() : 0;
		if (VF_CHECK(cnt == (st[i]->want.empty() ? 0u : 1u), "stats.xml-module", nm << " printed " << cnt << " times") && cnt)
			VF_CHECK(seen[nm][0] == st[i]->want, "stats.xml-values", nm);
		for (auto& kv : st[i]->want) log += kv.first + "=" + kv.second + " ";
	}
	vf::observe(log);
}

} // namespace

int main(int argc, char** argv) {
	vf::add_group("quantity", 30000, 600000, g_quantity);
	vf::add_group("parser", 3000, 30000, g_parser);
	vf::add_group("badvalue", 6000, 60000, g_badvalue);
	vf::add_group("path", 400, 3000, g_path);
	vf::add_group("stats", 400, 1500, g_stats);
	vf::grows();
	return vf::run(argc, argv);
}
