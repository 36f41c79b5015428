// Random numbers as distances from their lower bounds, and UUIDs.
#include <Balau/Type/Character.hpp>
#include <Balau/Util/Random.hpp>
#include <Balau/Type/UUID.hpp>
#include <thread>
#include "seq.hpp"

using namespace seq;
using namespace Balau::Util;
using Balau::UUID;

// The numbers of a type, in order: the steps between neighbours.
template <typename T> static T up(T v, unsigned n) { if constexpr (std::is_floating_point_v<T>) { while (n--) v = std::nextafter(v, std::numeric_limits<T>::infinity()); return v; } else return T(v + T(n)); }
template <typename T> static T down(T v, unsigned n) { if constexpr (std::is_floating_point_v<T>) { while (n--) v = std::nextafter(v, -std::numeric_limits<T>::infinity()); return v; } else return T(v - T(n)); }
template <typename T> static int distance(T from, T v, int limit) {
	int n = 0;
	if (v < from) return -1;
	while (from < v && n <= limit) { from = up(from, 1); ++n; }
	return from == v ? n : -2;
}
template <typename G, typename T> static std::vector<int> draws(G & g, T lower, int width, int n) {
	std::vector<int> r;
	for (int i = 0; i < n; ++i) r.push_back(distance(lower, T(g()), width + 20));
	return r;
}
template <typename G, typename T> static void range(const std::string & type, const std::string & lower, unsigned width, const std::string & seed) {
	using L = std::numeric_limits<T>;
	T a = lower == "zero" ? T(0) : lower == "one" ? T(1) : lower == "minusone" ? T(-1) : lower == "minuswidth" ? down(T(0), width) : lower == "least" ? L::lowest()
		: lower == "greatest" ? down(L::max(), width) : lower == "large" ? (std::is_floating_point_v<T> ? T(1e16) : T(L::max() / 2)) : (std::is_floating_point_v<T> ? T(-1e16) : T(L::lowest() / 2));
	T b = up(a, width);
	std::vector<int> ds;
	int n = width <= 3 ? 400 : 4000;
	if (seed == "own") { G g(a, b); ds = draws(g, a, int(width), n); }
	else { G g(a, b, (unsigned int) std::hash<std::string>()(type + lower + seed + std::to_string(width))); ds = draws(g, a, int(width), n); }
	Ev("range").s("type", type).s("lower", lower).n("width", width).j("draws", nums(ds)).done();
}
template <typename G, typename T> static void wide(const std::string & type, T a, T b, unsigned seed, bool own) {
	bool inside = true;
	std::vector<int> parts;
	auto take = [&] (auto & g) {
		for (int i = 0; i < 600; ++i) {
			T v = g();
			inside = inside && a <= v && v <= b;
			// Sixteen parts, in a type without overflow.
			long double x = ((long double) v - (long double) a) / ((long double) b - (long double) a) * 16;
			parts.push_back(std::max(-1, std::min(x > 16 ? 16 : 15, int(x < 0 ? -1 : x))));
		}
	};
	if (own) { G g(a, b); take(g); } else { G g(a, b, seed); take(g); }
	Ev("wide").s("type", type).b("inside", inside).j("parts", nums(parts)).done();
}
template <typename G, typename T> static void seeded(const std::string & type, T a, T b, const std::string & seed) {
	std::vector<std::string> v;
	auto take = [&] (auto & g) { for (int i = 0; i < 6; ++i) { std::ostringstream o; o.precision(25); o << g(); v.push_back(o.str()); } };
	if (seed == "own") { G g(a, b); take(g); } else { G g(a, b, (unsigned) std::stoul(seed)); take(g); }
	std::ostringstream bounds;
	bounds.precision(25);
	bounds << a << ".." << b;
	Ev("seeded").s("type", type).s("bounds", bounds.str()).s("seed", seed).l("numbers", v).done();
}
template <typename G, typename T> static void number(const std::string & type, const Op & op) {
	using L = std::numeric_limits<T>;
	if (op[0] == "range") return range<G, T>(type, op[2], unsigned(std::stoul(op[3])), op[4]);
	// The largest range a distribution of real numbers takes is that of its largest number.
	T a = std::is_floating_point_v<T> ? T(L::lowest() / 4) : L::lowest(), b = std::is_floating_point_v<T> ? T(L::max() / 4) : L::max();
	if (op[2] == "tens") { a = T(0); b = T(10000); }
	if (op[2] == "below") { a = std::is_unsigned_v<T> ? T(5) : T(-2000); b = std::is_unsigned_v<T> ? T(100000) : T(-3); }
	if (op[0] == "wide") wide<G, T>(type, a, b, unsigned(std::stoul(op[3])), op[4] == "own");
	else seeded<G, T>(type, a, b, op[3]);
}
static std::string bytes(const UUID & u) { const unsigned char * b = u.asBytes(); return nums(std::vector<int>(b, b + 16)); }
static std::string list(const std::vector<std::string> & v) { std::string r = "["; for (auto & x : v) r += (r.size() > 1 ? "," : "") + x; return r + "]"; }
static void order(const UUID & a, const UUID & b) {
	auto f = [] (bool x) { return std::string(x ? "true" : "false"); };
	Ev("order").j("a", bytes(a)).j("b", bytes(b)).j("is", "{\"lt\":" + f(a < b) + ",\"gt\":" + f(a > b) + ",\"eq\":" + f(a == b) + ",\"ne\":" + f(a != b) + ",\"le\":" + f(a <= b) + ",\"ge\":" + f(a >= b) + "}").done();
}
static void run(const Script & script) {
	for (auto & op : script.ops) {
		if (op[0] == "range" || op[0] == "wide" || op[0] == "seeded") {
			auto & t = op[1];
			if (t == "int32") number<UniformInt32, int>(t, op);
			else if (t == "int64") number<UniformInt64, long>(t, op);
			else if (t == "uint32") number<UniformUInt32, unsigned int>(t, op);
			else if (t == "uint64") number<UniformUInt64, unsigned long long>(t, op);
			else if (t == "double") number<UniformDouble, double>(t, op);
			else if (t == "float") number<UniformFloat, float>(t, op);
			else if (t == "short") number<UniformInt<short>, short>(t, op);
			else number<UniformReal<long double>, long double>(t, op);
		} else if (op[0] == "ids") {
			size_t n = std::stoul(op[1]), threads = std::stoul(op[2]);
			std::vector<std::vector<std::string>> each(threads);
			std::vector<std::thread> ts;
			auto make = [&] (size_t t) { for (size_t i = 0; i < n; ++i) { UUID u; each[t].push_back(bytes(u)); } };
			if (threads == 1) make(0);
			else { for (size_t t = 0; t < threads; ++t) ts.emplace_back(make, t); for (auto & t : ts) t.join(); }
			std::vector<std::string> ids;
			for (auto & e : each) ids.insert(ids.end(), e.begin(), e.end());
			Ev("ids").j("ids", list(ids)).done();
		} else if (op[0] == "forms") {
			UUID u, c(u);
			auto a = u.asArray();
			auto raw = u.asUUID();
			std::ostringstream o;
			o << u.asUUID();
			Ev("forms").j("bytes", list({ bytes(u), bytes(c), nums(std::vector<int>(a.begin(), a.end())), nums(std::vector<int>(raw.begin(), raw.end())), bytes(u) }))
				.j("text", list({ codes(u.asString()), codes(c.asString()), codes(Balau::toString(u)), codes(o.str()), codes(u.asString<std::allocator<char>>()) })).done();
		} else if (op[0] == "order") {
			UUID a, b, c(a);
			order(a, b); order(b, a); order(a, c); order(a, a);
		}
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
