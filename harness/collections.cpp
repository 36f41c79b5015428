// Containers, entries, pointers and streams of the utilities.
#include <Balau/Type/Character.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Util/Containers.hpp>
#include <Balau/Util/Memory.hpp>
#include <Balau/Util/Streams.hpp>
#include <deque>
#include <list>
#include <set>
#include "seq.hpp"

using namespace seq;
using Balau::Util::Vectors;
using Balau::Util::Containers;
using Balau::Util::Memory;
using Balau::Util::Streams;

using V = std::vector<int>;
using L = std::list<int>;
using D = std::deque<int>;
static V values(const std::string & w) { V r; if (w != "-") for (auto & x : split(w, '.')) r.push_back(std::stoi(x)); return r; }
static std::string textOf(const std::string & w) { std::string r; for (int x : values(w)) r += char(x); return r; }
template <typename C> static C as(const V & v) { return C(v.begin(), v.end()); }
template <typename ... C> static std::string all(const C & ... c) { std::string r; ((r += (r.empty() ? "[" : ",") + nums(c)), ...); return r + "]"; }
static std::string list(const std::vector<std::string> & v) { std::string r = "["; for (auto & x : v) r += (r.size() > 1 ? "," : "") + x; return r + "]"; }
static std::string flags(std::initializer_list<bool> v) { std::string r = "["; for (bool x : v) r += (r.size() > 1 ? std::string(",") : "") + (x ? "true" : "false"); return r + "]"; }

struct KV { int k, v; bool operator == (const KV & o) const { return k == o.k && v == o.v; } };
static std::string entries(const std::vector<KV> & e) { std::vector<std::string> r; for (auto & x : e) r.push_back("[" + std::to_string(x.k) + "," + std::to_string(x.v) + "]"); return list(r); }

// Text forms of numbers, back to numbers.
static std::string back(const std::vector<std::string> & v) { V r; for (auto & s : v) r.push_back(std::stoi(s)); return nums(r); }
static std::string back(const std::vector<std::u32string> & v) { V r; for (auto & s : v) r.push_back(std::stoi(std::string(s.begin(), s.end()))); return nums(r); }

template <typename P> static V pointed(const std::vector<P> & v) { V r; for (auto & p : v) r.push_back(p ? *p : -1); return r; }
template <typename P> static bool distinct(const std::vector<P> & v) { std::set<const int *> s; for (auto & p : v) s.insert(p.get()); return s.size() == v.size(); }
struct Made { std::vector<std::string> one, many, asked; bool alone = true; };
template <typename ... A> static Made made(A ... a) {
	Made m;
	V asked;
	auto keep = [&] (auto v, std::vector<std::string> & to) { to.push_back(nums(pointed(v))); m.alone = m.alone && distinct(v); m.asked.push_back(nums(asked)); asked.clear(); };
	keep(Memory::makeUnique<int, int>([&] (int x) { asked.push_back(x); return std::make_unique<int>(2 * x + 1); }, a ...), m.one);
	keep(Memory::makeShared<int, int>([&] (int x) { asked.push_back(x); return std::make_shared<int>(2 * x + 1); }, a ...), m.one);
	keep(Memory::makeUniqueV<int, int>([&] (int x) { asked.push_back(x); std::vector<std::unique_ptr<int>> r; for (int k = 1; k <= x; ++k) r.push_back(std::make_unique<int>(10 * x + k)); return r; }, a ...), m.many);
	keep(Memory::makeSharedV<int, int>([&] (int x) { asked.push_back(x); std::vector<std::shared_ptr<int>> r; for (int k = 1; k <= x; ++k) r.push_back(std::make_shared<int>(10 * x + k)); return r; }, a ...), m.many);
	return m;
}

static void run(const Script & script) {
	V v; L l; D d;
	std::vector<KV> kv;
	auto contents = [&] { return all(v, l, d); };
	for (auto & op : script.ops) {
		auto at = [&] (size_t i) { return i < op.size() ? op[i] : std::string("-"); };
		auto & n = op[0];
		V xs = values(n == "put" || n == "entry" ? "-" : at(1));
		if (n == "init") {
			v = xs; l = as<L>(xs); d = as<D>(xs);
			Ev("init").j("xs", nums(xs)).j("out", contents()).done();
		} else if (n == "append") {
			const V sv = xs; const L sl = as<L>(xs); const D sd = as<D>(xs);
			static size_t turn = 0;
			if (++turn % 3 == 0) Vectors::append(v, sv); else if (turn % 3 == 1) Vectors::move(v, sv); else Containers::append(v, sl);
			if (turn % 2) Containers::append(l, sd); else Containers::append(l, std::set<int>());
			if (turn % 2 == 0) Containers::append(l, sl);
			Containers::append(d, sv);
			Ev("append").j("xs", nums(xs)).j("source", all(sv, sl, sd)).j("out", contents()).done();
		} else if (n == "more") {
			V ys = values(at(2)), zs = values(at(3));
			Containers::append(v, as<L>(xs), as<D>(ys), zs);
			Containers::append(l, as<D>(xs), ys, as<L>(zs));
			Containers::append(d, xs, as<L>(ys));
			Containers::append(d, as<D>(zs));
			Ev("more").j("xss", all(xs, ys, zs)).j("out", contents()).done();
		} else if (n == "concat") {
			V ys = values(at(2)), zs = values(at(3));
			const V a = xs; const L b = as<L>(ys); const D c = as<D>(zs);
			Ev("concat").j("xss", all(xs, ys, zs)).j("out", all(Containers::concatenate(a, b, c), Containers::concatenate(as<L>(xs), ys, zs), Containers::concatenate(as<D>(xs), as<D>(ys), as<L>(zs)))).done();
		} else if (n == "push") {
			V made;
			switch (xs.size()) {
				case 0: made = Vectors::pushBack<int>(); Vectors::pushBack(v); break;
				case 1: made = Vectors::pushBack(int(xs[0])); Vectors::pushBack(v, int(xs[0])); break;
				case 2: made = Vectors::pushBack(int(xs[0]), int(xs[1])); Vectors::pushBack(v, int(xs[0]), int(xs[1])); break;
				case 3: made = Vectors::pushBack(int(xs[0]), int(xs[1]), int(xs[2])); Vectors::pushBack(v, int(xs[0]), int(xs[1]), int(xs[2])); break;
				default: xs.resize(4); made = Vectors::pushBack(int(xs[0]), int(xs[1]), int(xs[2]), int(xs[3])); Vectors::pushBack(v, int(xs[0]), int(xs[1]), int(xs[2]), int(xs[3])); break;
			}
			// The others get what was made.
			Containers::append(l, made); Containers::append(d, made);
			Ev("push").j("xs", nums(xs)).j("out", contents()).done();
		} else if (n == "map") {
			std::function<long (const int &)> f = [] (const int & x) { return 2l * x + 1; };
			const V a = xs; const L b = as<L>(xs); const D c = as<D>(xs);
			const V doubled = Vectors::map<int, int>(a, [] (const int & x) { return 2 * x + 1; });
			Ev("map").j("xs", nums(xs)).j("out", list({ nums(Vectors::map<long, int>(a, f)), nums(Containers::map<long>(a, f)), nums(Containers::map<long>(b, f)), nums(Containers::map<long>(c, f)),
				back(Vectors::toStringVector(doubled)), back(Vectors::toString32Vector(doubled)) })).done();
		} else if (n == "contains") {
			V ys = values(at(2));
			const V a = xs; const L b = as<L>(xs); const D c = as<D>(xs); const auto s = std::set<int>(xs.begin(), xs.end()); const auto ms = std::multiset<int>(xs.begin(), xs.end());
			const L yl = as<L>(ys); const auto yset = std::set<int>(ys.begin(), ys.end());
			std::vector<std::string> each;
			for (int y : ys) each.push_back(flags({ Containers::contains(a, y), Containers::contains(b, y), Containers::contains(c, y), Containers::contains(s, y), Containers::contains(ms, y) }));
			Ev("contains").j("xs", nums(xs)).j("ys", nums(ys)).j("each", list(each))
				.j("any", flags({ Containers::contains(a, ys), Containers::contains(a, yl), Containers::contains(b, ys), Containers::contains(c, yset), Containers::contains(s, yl), Containers::contains(ms, ys) })).done();
		} else if (n == "pointers") {
			Made m;
			switch (xs.size()) {
				case 0: m = made(); break;
				case 1: m = made(xs[0]); break;
				case 2: m = made(xs[0], xs[1]); break;
				case 3: m = made(xs[0], xs[1], xs[2]); break;
				default: xs.resize(4); m = made(xs[0], xs[1], xs[2], xs[3]); break;
			}
			Ev("pointers").j("xs", nums(xs)).j("one", list(m.one)).j("many", list(m.many)).j("asked", list(m.asked)).b("alone", m.alone).done();
		} else if (n == "lines") {
			std::string s = textOf(at(1));
			std::u32string s32;
			for (unsigned char c : s) s32 += char32_t(c);
			std::istringstream a(s), b(s), c(s);
			std::basic_istringstream<char32_t> e(s32);
			std::vector<std::string> ls;
			for (auto & x : Streams::readLinesToVector(a)) ls.push_back(codes(x));
			std::ostringstream o;
			Streams::consume(o, c);
			Ev("lines").j("s", codes(s)).j("lines", list(ls)).j("text", list({ codes(::toString(b)), codes(::toString32(e)), codes(o.str()) })).done();
			auto cs = Vectors::toCharVector(s); auto cs32 = Vectors::toCharVector(s32);
			std::vector<char16_t> cs16(s32.begin(), s32.end());
			auto s16 = Vectors::charsToString(cs16);
			Ev("chars").j("s", codes(s)).j("out", list({ codes(std::string(cs.begin(), cs.end())), codes(Vectors::charsToString(cs)), codes(Vectors::charsToString(cs32)), codes(std::u32string(cs32.begin(), cs32.end())), codes(std::u32string(s16.begin(), s16.end())) })).done();
		} else if (n == "consume") {
			std::ostringstream o;
			std::vector<std::string> ss;
			for (size_t i = 1; i < op.size(); ++i) { std::string s = textOf(op[i]); ss.push_back(codes(s)); std::istringstream in(s); Streams::consume(o, in); }
			Ev("consume").j("ss", list(ss)).j("out", codes(o.str())).b("good", o.good()).done();
		} else if (n == "clear") { kv.clear(); Ev("clear").done(); }
		else if (n == "entry") { kv.push_back({ std::stoi(op[1]), std::stoi(op[2]) }); Ev("entry").n("k", kv.back().k).n("v", kv.back().v).done(); }
		else if (n == "put") {
			KV e { std::stoi(op[1]), std::stoi(op[2]) };
			auto key = [] (const KV & a, const KV & b) { return a.k == b.k; };
			auto add = [] (KV & a, const KV & b) { a.v += b.v; };
			auto other = kv;
			KV copy = e;
			if (op[3] == "whole" && op[4] == "replace") { Vectors::pushBackOrReplace(kv, KV(e)); Vectors::pushBackOrReplace(other, copy); }
			else if (op[4] == "replace") { Vectors::pushBackOrReplace(kv, KV(e), key); Vectors::pushBackOrReplace(other, copy, key); }
			else if (op[3] == "key") { Vectors::pushBackOrReplace(kv, KV(e), key, add); Vectors::pushBackOrReplace(other, copy, key, add); }
			else { Vectors::pushBackOrReplace(kv, KV(e), std::equal_to<KV>(), add); Vectors::pushBackOrReplace(other, copy, std::equal_to<KV>(), add); }
			Ev("put").n("k", e.k).n("v", e.v).s("mode", op[3]).s("how", op[4]).j("out", list({ entries(kv), entries(other) })).done();
		}
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
