// Conversions between values and strings.  Strings are given and reported as code points, one result per kind of string and way of asking.
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/FromString.hpp>
#include <cstring>
#include "seq.hpp"

using namespace seq;
using S8 = std::string;
using S16 = std::u16string;
using S32 = std::u32string;
using V8 = std::string_view;
using V16 = std::u16string_view;
using V32 = std::u32string_view;
template <typename C> using A = std::allocator<C>;

static S32 text(const std::string & w) {
	S32 r;
	if (w == "-") return r;
	for (auto & c : split(w, '.')) r += char32_t(std::stoul(c));
	return r;
}
static S8 utf8(const S32 & s) {
	S8 r;
	for (char32_t c : s) {
		if (c < 0x80) r += char(c);
		else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
		else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	}
	return r;
}
static S16 utf16(const S32 & s) {
	S16 r;
	for (char32_t c : s) {
		if (c < 0x10000) r += char16_t(c);
		else { r += char16_t(0xD800 + ((c - 0x10000) >> 10)); r += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF)); }
	}
	return r;
}
static std::string rep(const S32 & s) { return codes(s); }
static std::string rep(const S16 & s) {
	S32 r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] >= 0xD800 && s[i] < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { r += char32_t(0x10000 + ((s[i] - 0xD800) << 10) + (s[i + 1] - 0xDC00)); ++i; }
		else if (s[i] >= 0xD800 && s[i] < 0xE000) r += char32_t(0x110000 + s[i]);
		else r += s[i];
	}
	return codes(r);
}
static std::string rep(const S8 & s) {
	S32 r;
	for (size_t i = 0; i < s.size();) {
		unsigned char b = s[i];
		int n = b < 0x80 ? 0 : b >= 0xF0 && b < 0xF8 ? 3 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xC2 && b < 0xE0 ? 1 : -1;
		char32_t c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
		bool good = n >= 0 && i + n < s.size();
		for (int k = 1; good && k <= n; ++k) { unsigned char d = s[i + k]; good = (d & 0xC0) == 0x80; c = c << 6 | (d & 63); }
		if (!good) { r += char32_t(0x110000 + b); ++i; }
		else { r += c; i += n + 1; }
	}
	return codes(r);
}
static std::string all(std::initializer_list<std::string> l) { std::string r = "["; for (auto i = l.begin(); i != l.end(); ++i) r += (i == l.begin() ? "" : ",") + *i; return r + "]"; }
static std::string all(const std::vector<std::string> & l) { std::string r = "["; for (auto i = l.begin(); i != l.end(); ++i) r += (i == l.begin() ? "" : ",") + *i; return r + "]"; }

// What converting the text to a T gives, with each of the functions: the value as told by show, or the exception.
template <typename T, typename Show> std::string parse(const S32 & s, Show show) {
	S8 s8 = utf8(s); S16 s16 = utf16(s);
	auto one = [&] (auto f) {
		T t{};
		auto o = outcome([&] { f(t); });
		return o == "ok" ? std::string("{\"is\":\"ok\",\"v\":") + show(t) + "}" : "{\"is\":" + js(o) + ",\"v\":[]}";
	};
	return all({
		  one([&] (T & t) { fromString(t, V8(s8)); })
		, one([&] (T & t) { fromString16(t, V16(s16)); })
		, one([&] (T & t) { fromString32(t, V32(s)); })
		, one([&] (T & t) { FromString<char>()(t, V8(s8)); })
		, one([&] (T & t) { FromString<char16_t>()(t, V16(s16)); })
		, one([&] (T & t) { FromString<char32_t>()(t, V32(s)); })
		// A view of a part of a longer text.
		, one([&] (T & t) { S8 l = s8 + "7"; fromString(t, V8(l).substr(0, s8.size())); })
		, one([&] (T & t) { S16 l = s16 + u"7"; fromString16(t, V16(l).substr(0, s16.size())); })
		, one([&] (T & t) { S32 l = s + U"7"; fromString32(t, V32(l).substr(0, s.size())); })
	});
}
// The text of the value, with each of the functions.
template <typename T> std::string shown(const T & v) {
	return all({
		  rep(toString(v)), rep(toString16(v)), rep(toString32(v))
		, rep(ToString<char>()(v)), rep(ToString<char16_t>()(v)), rep(ToString<char32_t>()(v))
		, rep(toString<A<char>>(v))
	});
}
static std::string decimal(__int128 n, int base = 10) {
	bool neg = n < 0;
	unsigned __int128 u = neg ? -(unsigned __int128) n : (unsigned __int128) n;
	S32 r;
	do { int d = int(u % unsigned(base)); r.insert(r.begin(), char32_t(d < 10 ? 48 + d : 87 + d)); u /= unsigned(base); } while (u);
	if (neg) r.insert(r.begin(), U'-');
	return codes(r);
}
static __int128 wide(const S32 & s) {
	bool neg = !s.empty() && s[0] == '-';
	__int128 n = 0;
	for (char32_t c : s) if (c >= '0' && c <= '9') n = n * 10 + int(c - '0');
	return neg ? -n : n;
}
template <typename T> void integer(const std::string & kind, const std::string & what, const S32 & s, int base) {
	if (what == "parse") Ev("parse").s("kind", kind).j("s", codes(s)).j("out", parse<T>(s, [] (T t) { return decimal(t); })).done();
	else if (what == "base") {
		T t{};
		S8 s8 = utf8(s);
		auto o = outcome([&] { fromString(t, V8(s8), base); });
		Ev("base").s("kind", kind).n("base", base).j("s", codes(s)).s("is", o).j("v", o == "ok" ? decimal(t, base) : "[]").done();
	} else {
		T t = T(wide(s));
		Ev("show").s("kind", kind).j("s", codes(s)).j("out", shown(t)).j("back", parse<T>(text([&] { std::string r; for (char c : toString(t)) r += (r.empty() ? "" : ".") + std::to_string(int((unsigned char) c)); return r; }()), [] (T u) { return decimal(u); })).done();
	}
}
template <typename T> std::string bits(T v) {
	unsigned char b[sizeof(T)];
	memset(b, 0, sizeof b);
	memcpy(b, &v, sizeof(T) == 16 ? 10 : sizeof(T));
	std::vector<int> n(b, b + (sizeof(T) == 16 ? 10 : sizeof(T)));
	return nums(n);
}
template <typename T> void real(const std::string & kind, const std::string & what, const std::string & w) {
	if (what == "parse") {
		S32 s = text(w);
		Ev("real").s("kind", kind).j("s", codes(s)).j("out", parse<T>(s, [] (T t) { long double m = (long double) t * 1000; return std::isfinite(m) && std::fabs(m) < 2e9 ? std::to_string(std::lround(m)) : "2000000001"; })).done();
	} else {
		// The bytes of a finite value.
		T v = 0;
		auto l = split(w, '.');
		unsigned char b[16] = {};
		for (size_t i = 0; i < l.size() && i < 16; ++i) b[i] = (unsigned char) std::stoul(l[i]);
		memcpy(&v, b, sizeof(T) == 16 ? 10 : sizeof(T));
		S8 t8 = toString(v); S16 t16 = toString16(v); S32 t32 = toString32(v);
		T r8 = 0, r16 = 0, r32 = 0;
		auto o = outcome([&] { fromString(r8, V8(t8)); fromString16(r16, V16(t16)); fromString32(r32, V32(t32)); });
		T w2 = v / 2;
		std::complex<T> c(v, w2);
		Ev("bits").s("kind", kind).j("v", bits(v)).s("is", o).j("back", all({ bits(r8), bits(r16), bits(r32) })).j("out", shown(v)).j("half", rep(toString(w2)))
			.j("complex", all({ rep(toString(c)), rep(toString16(c)), rep(toString32(c)) })).done();
	}
}
static void strings(const S32 & s) {
	S8 s8 = utf8(s); S16 s16 = utf16(s);
	V8 v8 = s8; V16 v16 = s16; V32 v32 = s;
	boost::string_view b8(s8.data(), s8.size());
	S8 t8; S16 t16; S32 t32;
	Ev e("text");
	e.j("s", codes(s));
	std::vector<std::string> r {
		  rep(toString(s8)), rep(toString(v8)), rep(toString(b8)), rep(toString(s16)), rep(toString(v16)), rep(toString(s)), rep(toString(v32))
		, rep(toString16(s8)), rep(toString16(v8)), rep(toString16(b8)), rep(toString16(s16)), rep(toString16(v16)), rep(toString16(s))
		, rep(toString32(s8)), rep(toString32(v8)), rep(toString32(b8)), rep(toString32(s16)), rep(toString32(s)), rep(toString32(v32))
		, rep(toString<A<char>>(s8)), rep(toString<A<char>>(v8))
		, rep(ToString<char>()(s16)), rep(ToString<char16_t>()(s)), rep(ToString<char32_t>()(s8))
		, rep(toString(std::function<S8 ()>([&] { return s8; }))), rep(toString16(std::function<S16 ()>([&] { return s16; }))), rep(toString32(std::function<S32 ()>([&] { return s; })))
	};
	if (s.find(U'\0') == S32::npos) {
		const char * c8 = s8.c_str(); const char16_t * c16 = s16.c_str(); const char32_t * c32 = s.c_str();
		for (auto & x : { rep(toString(c8)), rep(toString(c16)), rep(toString(c32)), rep(toString16(c8)), rep(toString16(c16)), rep(toString16(c32)), rep(toString32(c8)), rep(toString32(c16)), rep(toString32(c32)) }) r.push_back(x);
	}
	fromString(t8, v8); r.push_back(rep(t8)); fromString(t16, v8); r.push_back(rep(t16)); fromString(t32, v8); r.push_back(rep(t32));
	fromString16(t8, v16); r.push_back(rep(t8)); fromString16(t16, v16); r.push_back(rep(t16)); fromString16(t32, v16); r.push_back(rep(t32));
	fromString32(t8, v32); r.push_back(rep(t8)); fromString32(t16, v32); r.push_back(rep(t16)); fromString32(t32, v32); r.push_back(rep(t32));
	// A view of a part of a longer text.
	S8 l8 = s8 + "x"; S16 l16 = s16 + u"x"; S32 l32 = s + U"x";
	v8 = V8(l8).substr(0, s8.size()); v16 = V16(l16).substr(0, s16.size()); v32 = V32(l32).substr(0, s.size());
	for (auto & x : { rep(toString(v8)), rep(toString(v16)), rep(toString(v32)), rep(toString16(v8)), rep(toString16(v16)), rep(toString32(v8)), rep(toString32(v32)) }) r.push_back(x);
	fromString(t16, v8); r.push_back(rep(t16)); fromString16(t8, v16); r.push_back(rep(t8)); fromString32(t8, v32); r.push_back(rep(t8));
	e.j("out", all(r)).done();
}
static void character(char32_t c) {
	std::vector<std::string> r { rep(toString(c)), rep(ToString<char>()(c)), rep(toString("", c)), rep(toString16(c)), rep(toString32(c)), rep(ToString<char32_t>()(c)), rep(ToString<char16_t>()(c)), rep(toString32(U"", c)), rep(toString16(u"", c)) };
	const char32_t k = c;
	for (auto & x : { rep(toString16(k)), rep(toString32(k)), rep(toString16(char32_t(c))), rep(toString32(char32_t(c))) }) r.push_back(x);
	if (c < 0x10000) {
		char16_t d = char16_t(c); const char16_t e = d;
		for (auto & x : { rep(toString(d)), rep(toString(e)), rep(toString16(d)), rep(toString16(e)), rep(toString32(d)), rep(toString32(e)), rep(toString16(char16_t(d))), rep(toString16(u"", d)), rep(toString32(U"", d)), rep(toString("", d)) }) r.push_back(x);
	}
	if (c < 0x80) {
		char d = char(c); const char e = d;
		for (auto & x : { rep(toString(d)), rep(toString(e)), rep(toString16(d)), rep(toString16(e)), rep(toString32(d)), rep(toString32(e)), rep(toString16(u"", d)), rep(toString32(U"", d)), rep(toString("", d)) }) r.push_back(x);
	}
	Ev("char").n("c", long(c)).j("out", all(r)).done();
}
template <typename C> std::string three(const C & c) { return all({ rep(toString(c)), rep(toString16(c)), rep(toString32(c)), rep(ToString<char>()(c)), rep(ToString<char16_t>()(c)), rep(ToString<char32_t>()(c)) }); }
template <typename C> std::string order(const C & c) { std::string r = "["; bool first = true; for (const auto & e : c) { r += (first ? "" : ",") + decimal(e); first = false; } return r + "]"; }
template <typename C> std::string pairs(const C & c) { std::string r = "["; bool first = true; for (const auto & e : c) { r += (first ? "[" : ",[") + decimal(e.first) + "," + rep(e.second) + "]"; first = false; } return r + "]"; }
template <typename C> void row(const char * what, const C & c) { Ev("row").s("what", what).j("l", order(c)).j("out", three(c)).done(); }
template <typename C> void table(const char * what, const C & c) { Ev("table").s("what", what).j("l", pairs(c)).j("out", three(c)).done(); }
static void containers(const Op & op) {
	std::vector<int> v;
	for (size_t i = 1; i < op.size(); ++i) v.push_back(int(std::stol(op[i])));
	row("vector", v);
	row("list", std::list<int>(v.begin(), v.end())); row("deque", std::deque<int>(v.begin(), v.end())); row("forward_list", std::forward_list<int>(v.begin(), v.end()));
	row("set", std::set<int>(v.begin(), v.end())); row("multiset", std::multiset<int>(v.begin(), v.end()));
	row("unordered_set", std::unordered_set<int>(v.begin(), v.end())); row("unordered_multiset", std::unordered_multiset<int>(v.begin(), v.end()));
	row("vector of long", std::vector<long>(v.begin(), v.end()));
	std::map<int, S8> m; std::multimap<int, S8> mm; std::unordered_map<int, S8> u; std::unordered_multimap<int, S8> um; std::vector<std::pair<int, S8>> vp;
	std::vector<S8> names; std::vector<char32_t> points; std::list<bool> odd; std::vector<S16> wide;
	std::string nj = "[", cj = "[", oj = "[";
	for (size_t i = 0; i < v.size(); ++i) {
		char32_t c = char32_t(0x3b1 + (unsigned(v[i]) % 40u) * (i % 2 ? 3000u : 1u));
		S32 w(i % 4, c); S8 n = utf8(w);
		m[v[i]] = n; mm.emplace(v[i], n); u[v[i]] = n; um.emplace(v[i], n); vp.emplace_back(v[i], n);
		names.push_back(n); wide.push_back(utf16(w)); points.push_back(c); odd.push_back(v[i] % 2 != 0);
		nj += (i ? "," : "") + codes(w); cj += (i ? "," : "") + codes(S32(1, c)); oj += (i ? "," : "") + codes(S32(v[i] % 2 != 0 ? U"true" : U"false"));
	}
	table("map", m); table("multimap", mm); table("unordered_map", u); table("unordered_multimap", um); table("vector of pairs", vp);
	Ev("row").s("what", "strings").j("l", nj + "]").j("out", three(names)).done();
	Ev("row").s("what", "strings of 16 bits").j("l", nj + "]").j("out", three(wide)).done();
	Ev("row").s("what", "characters").j("l", cj + "]").j("out", three(points)).done();
	Ev("row").s("what", "booleans").j("l", oj + "]").j("out", three(odd)).done();
	for (auto & p : vp) Ev("pair").j("a", decimal(p.first)).j("b", rep(p.second)).j("out", three(p)).done();
}
// Two or more values.
static void pack(long n, const S32 & s, char32_t c, bool b) {
	S8 s8 = utf8(s); S16 s16 = utf16(s);
	std::pair<long, S8> p(n, s8);
	auto two = [&] (auto f) { return f(n, s8); };
	(void) two;
	Ev("pack").j("n", decimal(n)).j("s", codes(s)).j("c", codes(S32(1, c))).j("b", codes(S32(b ? U"true" : U"false")))
		.j("two", all({ rep(toString(n, s8)), rep(toString16(n, s16)), rep(toString32(n, s)), rep(toString(n, s)), rep(toString16(n, s8)), rep(toString32(n, s16)) }))
		.j("three", all({ rep(toString(s16, b, n)), rep(toString16(s8, b, n)), rep(toString32(s8, b, n)) }))
		.j("five", all({ rep(toString(b, c, s, n, s8)), rep(toString16(b, c, s, n, s16)), rep(toString32(b, c, s, n, s)) }))
		.j("seven", all({ rep(toString("<", n, ">", p, s8, b, '!')), rep(toString16("<", n, u">", p, s8, b, '!')), rep(toString32("<", n, U">", p, s8, b, '!')) }))
		.done();
}
static void run(const Script & sc) {
	for (auto & op : sc.ops) {
		const std::string & o = op[0];
		if (o == "parse" || o == "base" || o == "show") {
			S32 s = text(op[2]); int base = op.size() > 3 ? std::stoi(op[3]) : 10;
			const std::string & k = op[1];
			if (k == "byte") integer<signed char>(k, o, s, base);
			else if (k == "ubyte") integer<unsigned char>(k, o, s, base);
			else if (k == "short") integer<short>(k, o, s, base);
			else if (k == "ushort") integer<unsigned short>(k, o, s, base);
			else if (k == "int") integer<int>(k, o, s, base);
			else if (k == "uint") integer<unsigned>(k, o, s, base);
			else if (k == "long") integer<long>(k, o, s, base);
			else if (k == "ulong") integer<unsigned long>(k, o, s, base);
			else if (k == "longlong") integer<long long>("long", o, s, base);
			else if (k == "ulonglong") integer<unsigned long long>("ulong", o, s, base);
		} else if (o == "real" || o == "bits") {
			const std::string p = o == "real" ? "parse" : "bits";
			if (op[1] == "float") real<float>(op[1], p, op[2]);
			else if (op[1] == "double") real<double>(op[1], p, op[2]);
			else real<long double>(op[1], p, op[2]);
		} else if (o == "bool") {
			S32 s = text(op[1]);
			Ev("bool").j("s", codes(s)).j("out", parse<bool>(s, [] (bool b) { return std::string(b ? "[1]" : "[0]"); })).j("shown", all({ shown(true), shown(false) })).done();
		} else if (o == "first") {
			S32 s = text(op[1]);
			Ev("first").j("s", codes(s)).j("wide", parse<char32_t>(s, [] (char32_t c) { return codes(S32(1, c)); })).j("narrow", parse<char>(s, [] (char c) { return codes(S32(1, char32_t((unsigned char) c))); })).done();
		} else if (o == "text") strings(text(op[1]));
		else if (o == "char") { for (char32_t c : text(op[1])) character(c); }
		else if (o == "rows") containers(op);
		else if (o == "pack") pack(std::stol(op[1]), text(op[2]), text(op[3])[0], op[4] == "1");
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
