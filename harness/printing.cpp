// Printed numbers, durations, times and bytes.
#include <Balau/Util/PrettyPrint.hpp>
#include <Balau/Util/DateTime.hpp>
#include "seq.hpp"

using namespace seq;
using Balau::Util::PrettyPrint;
using Balau::Util::DateTime;
using namespace std::chrono;

static std::string bytes(std::string_view s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char) s[i]);
	return r + "]";
}
static std::string digits(unsigned __int128 n) { std::string r; do { r.insert(r.begin(), char('0' + int(n % 10))); n /= 10; } while (n); return r; }
static long double real(const Op & op, size_t at) { return (op[at] == "1" ? -1 : 1) * strtold((op[at + 1] + "e" + op[at + 2]).c_str(), nullptr); }
template <typename F> static void with(const std::string & t, const Op & op, F f) {
	if (t == "float") f((float) real(op, 2));
	else if (t == "double") f((double) real(op, 2));
	else if (t == "longdouble") f(real(op, 2));
	else if (t == "int") f((int) real(op, 2));
	else if (t == "long") f((long) ((op[2] == "1" ? -1 : 1) * std::stol(op[3])));
	else if (t == "ulong") f((unsigned long) std::stoul(op[3]));
}
static std::string value(bool neg, const std::string & n, const std::string & e) { return std::string("{\"neg\":") + (neg ? "true" : "false") + ",\"n\":" + bytes(n) + ",\"e\":" + e + "}"; }
template <typename D> static void lasting(const std::string & unit, D d, __int128 ns, size_t dp) {
	unsigned __int128 u = ns < 0 ? -ns : ns;
	std::string out;
	std::string is = outcome([&] { out = PrettyPrint::duration(d, dp); });
	Ev("duration").s("unit", unit).n("dp", dp).s("is", is).j("out", bytes(out))
		.j("v", std::string("{\"neg\":") + (ns < 0 ? "true" : "false") + ",\"digits\":" + bytes(digits(u)) + ",\"s\":" + digits(u / 1000000000) + ",\"ns\":" + digits(u % 1000000000) + "}").done();
}
static void run(const Op & op) {
	const std::string & o = op[0];
	if (o == "fixed" || o == "sci" || o == "metric" || o == "binary") {
		size_t dp = std::stoul(op[5]);
		std::string out, is;
		with(op[1], op, [&] (auto v) {
			is = outcome([&] { out = o == "fixed" ? PrettyPrint::fixed(v, dp) : o == "sci" ? PrettyPrint::scientific(v, dp) : o == "metric" ? PrettyPrint::metricPrefix(v, dp) : PrettyPrint::binaryPrefix(v, dp); });
		});
		Ev(o.c_str()).s("kind", op[1]).n("dp", dp).j("v", value(op[2] == "1", op[3], op[4])).s("is", is).j("out", bytes(out)).done();
	} else if (o == "bytes") {
		size_t n = std::stoul(op[1]), dp = std::stoul(op[2]);
		std::string out;
		std::string is = outcome([&] { out = dp == 0 && n % 2 ? PrettyPrint::byteValue(n) : PrettyPrint::byteValue(n, dp); });
		Ev("bytes").n("dp", dp).j("v", value(false, op[1], "0")).s("is", is).j("out", bytes(out)).done();
	} else if (o == "duration") {
		long n = std::stol(op[2]);
		size_t dp = std::stoul(op[3]);
		const std::string & u = op[1];
		using I = __int128;
		if (u == "ns") lasting(u, nanoseconds(n), n, dp);
		else if (u == "us") lasting(u, microseconds(n), I(n) * 1000, dp);
		else if (u == "ms") lasting(u, milliseconds(n), I(n) * 1000000, dp);
		else if (u == "s") lasting(u, seconds(n), I(n) * 1000000000, dp);
		else if (u == "sixteenths") lasting(u, duration<double, std::ratio<1>>(n / 16.0), I(n) * 62500000, dp);
	} else if (o == "hex") {
		std::string b;
		if (op[1] != "-") for (auto & c : split(op[1], '.')) b += char(std::stoul(c));
		size_t line = std::stoul(op[2]), group = std::stoul(op[3]);
		std::unique_ptr<char[]> p(new char[b.size() + 1]);
		memcpy(p.get(), b.data(), b.size());
		std::string out;
		std::string is = outcome([&] { out = PrettyPrint::printHexBytes((const char *) p.get(), b.size(), line, group); });
		Ev("hex").j("s", bytes(b)).n("line", line).n("group", group).s("is", is).j("out", bytes(out)).done();
	} else if (o == "hexvalue") {
		unsigned long n = std::stoul(op[1]);
		struct S { unsigned char c[3]; };
		unsigned v = (unsigned) n; unsigned short h = (unsigned short) n; signed char c = (signed char) n;
		auto one = [&] (auto & x) { std::string b((const char *) &x, sizeof x); Ev("hex").j("s", bytes(b)).n("line", 0).n("group", 0).s("is", "ok").j("out", bytes(PrettyPrint::printHexBytes(x))).done(); };
		one(n); one(v); one(h); one(c);
	} else if (o == "date") {
		long days = std::stol(op[1]), secs = std::stol(op[2]);
		time_point<system_clock, seconds> t(seconds(days * 86400 + secs));
		std::ostringstream s;
		std::string out = "[" + bytes(DateTime::toString("%Y-%m-%d %H:%M:%S", t)) + "," + bytes(DateTime::toString("%F %T", t));
		DateTime::toString(s, "%Y-%m-%d %H:%M:%S", t);
		out += "," + bytes(s.str()) + "," + bytes(::toString(t)) + "]";
		time_point<system_clock, milliseconds> m(milliseconds((days * 86400 + secs) * 1000 + 7));
		Ev("date").n("days", days).n("secs", secs).j("out", out).j("milli", bytes(DateTime::toString("%F %T", m))).done();
	} else if (o == "clock") {
		long n = std::stol(op[1]);
		std::ostringstream s;
		DateTime::toString(s, "%T", seconds(n));
		std::string a = DateTime::toString("%H:%M:%S", seconds(n));
		Ev("clock").n("secs", n).j("out", "[" + bytes(a) + "," + bytes(s.str()) + "]").n("back", DateTime::toDuration<seconds::rep, seconds::period>("%H:%M:%S", a).count())
			.n("milliback", DateTime::toDuration<milliseconds::rep, milliseconds::period>("%T", a).count() - n * 1000).j("shown", bytes(::toString(seconds(n)))).done();
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, [] (const Script & s) { for (auto & op : s.ops) run(op); }); }
