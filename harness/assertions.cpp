// Assertions and matchers: each assertion is made in every way of asking, and what it says is recorded as code points.
#include <cstring>
#include <list>
#include <set>
#include <Balau/Type/ToString.hpp>
#include <Balau/Type/SourceCodeLocation.hpp>
#include <Balau/Exception/BalauException.hpp>

// Exceptions and classes to be tested.
struct Err : std::exception {
	std::string name; int code; std::string text;
	explicit Err(int c, const char * n = "Err") : name(n), code(c), text(n + std::to_string(c)) {}
	const char * what() const noexcept override { return text.c_str(); }
};
struct Sub : Err { explicit Sub(int c) : Err(c, "Sub") {} };
struct Other : std::exception { std::string text; explicit Other(int c) : text("Other" + std::to_string(c)) {} const char * what() const noexcept override { return text.c_str(); } };
inline bool operator == (const Err & a, const Err & b) { return a.code == b.code; }
inline std::string toString(const Err & e) { return e.text; }
struct ClassA { virtual ~ClassA() = default; };
struct ClassB : ClassA {};
struct ClassC : ClassB {};
struct ClassD : ClassC {};
struct ClassX { virtual ~ClassX() = default; };
struct ClassM : ClassC, ClassX {};

#include <Balau/Testing/Assertions.hpp>
#include "seq.hpp"

using namespace seq;
using namespace Balau;
using namespace Balau::Testing;

static std::u32string text(const std::string & w) {
	std::u32string r;
	if (w == "-") return r;
	for (auto & c : split(w, '.')) r += char32_t(std::stoul(c));
	return r;
}
static std::string utf8(const std::u32string & s) {
	std::string r;
	for (char32_t c : s) {
		if (c < 0x80) r += char(c);
		else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	}
	return r;
}
static std::string rep(const std::string & s) {
	std::u32string r;
	for (size_t i = 0; i < s.size();) {
		unsigned char b = s[i];
		size_t n = b < 0xC0 ? 0 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : 3;
		char32_t c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
		for (size_t k = 1; k <= n && i + k < s.size(); ++k) c = c << 6 | (s[i + k] & 63);
		r += c; i += n + 1;
	}
	return codes(r);
}

// What happened, once for each different thing that did.
static std::set<std::string> results;
static int calls;
static const std::string message = "m: \xC3\xA9";
static const char * const place = "s/w.cpp:42";
// One way of asking.
template <typename F> void ask(bool np, const std::string & loc, const std::string & msg, F f) {
	std::string is = "ok", said, what;
	calls = 0;
	try { f(); }
	catch (const Balau::Exception::BalauException & e) { is = exceptionName(); said = e.message; what = e.what(); }
	catch (...) { is = exceptionName(); }
	results.insert(std::string("{\"np\":") + (np ? "true" : "false") + ",\"loc\":" + rep(loc) + ",\"msg\":" + rep(msg) + ",\"is\":" + js(is)
		+ ",\"said\":" + rep(said) + ",\"what\":" + (what.find(said) != std::string::npos ? "true" : "false") + ",\"calls\":" + std::to_string(calls) + "}");
}
static std::string taken() {
	std::string r;
	for (auto & x : results) r += (r.empty() ? "[" : ",") + x;
	results.clear();
	return r + "]";
}

#line 1 "h.cpp"
#define HERE(loc) const std::string loc = BalauSourceCodeLocation(__FILE__, __LINE__).location
#define ASK(A, M) \
	ask(false, "", "", [&] { assertThat(A, M); }); \
	ask(false, "", message, [&] { assertThat(message, A, M); }); \
	ask(false, place, "", [&] { assertThat(SourceCodeLocation(place), A, M); }); \
	ask(false, place, message, [&] { assertThat(SourceCodeLocation(place), message, A, M); }); \
	{ HERE(h); ask(false, h, "", [&] { AssertThat(A, M); }); ask(false, h, message, [&] { AssertThat(message, A, M); }); }
#define ASKNP(A, M) \
	ask(true, "", "", [&] { assertThatNP(A, M); }); \
	ask(true, "", message, [&] { assertThatNP(message, A, M); }); \
	ask(true, place, "", [&] { assertThatNP(SourceCodeLocation(place), A, M); }); \
	ask(true, place, message, [&] { assertThatNP(SourceCodeLocation(place), message, A, M); }); \
	{ HERE(h); ask(true, h, "", [&] { AssertThatNP(A, M); }); ask(true, h, message, [&] { AssertThatNP(message, A, M); }); }
#define BOTH(A, M) ASK(A, M) ASKNP(A, M)
// Some of the ways only, all of which lead to different functions.
#define SOME(A, M) \
	ask(false, "", "", [&] { assertThat(A, M); }); \
	{ HERE(h); ask(false, h, message, [&] { AssertThat(message, A, M); }); ask(true, h, "", [&] { AssertThatNP(A, M); }); } \
	ask(true, "", message, [&] { assertThatNP(message, A, M); });
#define EITHER(A, M) if constexpr (full) { BOTH(A, M) } else { SOME(A, M) }

template <bool full, typename A, typename E> void compared(const std::string & m, const A & a, const E & e) {
	if (m == "is") { EITHER(a, is(e)) }
	else if (m == "isNot") { EITHER(a, isNot(e)) }
	else if (m == "isGreaterThan") { EITHER(a, isGreaterThan(e)) }
	else if (m == "isGreaterThanOrEqualTo") { EITHER(a, isGreaterThanOrEqualTo(e)) }
	else if (m == "isLessThan") { EITHER(a, isLessThan(e)) }
	else if (m == "isLessThanOrEqualTo") { EITHER(a, isLessThanOrEqualTo(e)) }
}
template <bool full, typename A, typename E> void parts(const std::string & m, const A & a, const E & e) {
	if (m == "startsWith") { EITHER(a, startsWith(e)) }
	else if (m == "endsWith") { EITHER(a, endsWith(e)) }
}
template <bool full, typename S> void strings(const std::string & m, const S & a, const S & e) {
	compared<full>(m, a, e); parts<full>(m, a, e);
	if (m == "contains") { EITHER(a, contains(e)) }
	else if (m == "doesNotContain") { EITHER(a, doesNotContain(e)) }
}
template <bool full, typename T> void rows(const std::string & m, const std::vector<T> & a, const std::vector<T> & e) {
	compared<full>(m, a, e);
	if (m == "startsWith") { EITHER(a, startsWith(e)) }
	compared<false>(m, std::list<T>(a.begin(), a.end()), std::list<T>(e.begin(), e.end()));
	auto sorted = [] (auto & v) { return std::is_sorted(v.begin(), v.end()) && std::adjacent_find(v.begin(), v.end()) == v.end(); };
	if (sorted(a) && sorted(e)) compared<false>(m, std::set<T>(a.begin(), a.end()), std::set<T>(e.begin(), e.end()));
}
template <typename T, bool full = false> void nearby(int a, int e, int d, double unit) {
	const T x = T(a * unit), y = T(e * unit), z = T(d * unit);
	EITHER(x, isAlmostEqual(y, z))
}
template <typename T> void isAs(const ClassA & a) { constexpr bool full = std::is_same_v<T, ClassC>; EITHER(a, isA<T>()) }
template <typename T> const T & object() { static const T t; return t; }
static const ClassA & classOf(char c) { return c == 'A' ? object<ClassA>() : c == 'B' ? object<ClassB>() : c == 'C' ? object<ClassC>() : c == 'D' ? object<ClassD>() : static_cast<const ClassA &>(object<ClassM>()); }
template <typename E> void throwing(const std::string & how, const std::string & thrown, int code, int e) {
	auto f = [&] {
		++calls;
		if (thrown == "Sub") throw Sub(code);
		if (thrown == "Err") throw Err(code);
		if (thrown == "Other") throw Other(code);
		if (thrown == "int") throw code;
	};
	const E expected(e);
	if (how == "type") { ASK(f, throws<E>()) }
	else if (how == "inst") { ASK(f, throws(expected)) }
	else if (how == "cmp") { auto same = [] (const E & x, const E & y) { return x.code == y.code; }; ASK(f, throws(expected, same)) }
	else { auto p = [e] (const E & x) { return x.code == e; }; ASK(f, throws<E>(p)) }
}
static void run(const Script & s) {
	for (auto & op : s.ops) {
		const std::string & o = op[0];
		if (o == "cmp") {
			const std::string & kind = op[1], & m = op[2];
			if (kind == "int") {
				int a = std::stoi(op[3]), e = std::stoi(op[4]);
				compared<true>(m, a, e); compared<false>(m, (long long) a, (long long) e); compared<false>(m, (short) a, (long) e);
				if (a >= 0 && e >= 0) compared<false>(m, (unsigned long) a, (unsigned) e);
				Ev("cmp").s("kind", kind).s("m", m).n("a", a).n("e", e).j("out", taken()).done();
			} else if (kind == "text") {
				auto a = text(op[3]), e = text(op[4]);
				std::u16string a16(a.begin(), a.end()), e16(e.begin(), e.end());
				std::string a8 = utf8(a), e8 = utf8(e);
				strings<true>(m, a8, e8); strings<false>(m, a, e); strings<false>(m, a16, e16);
				compared<false>(m, a8, std::string_view(e8)); parts<false>(m, a8, std::string_view(e8)); parts<false>(m, std::string_view(a8), std::string_view(e8)); parts<false>(m, std::string_view(a8), e8);
				Ev("cmp").s("kind", kind).s("m", m).j("a", codes(a)).j("e", codes(e)).j("out", taken()).done();
			} else if (kind == "row") {
				std::vector<int> a, e;
				for (auto c : text(op[3])) a.push_back(int(c));
				for (auto c : text(op[4])) e.push_back(int(c));
				rows<true>(m, a, e);
				rows<false>(m, std::vector<long>(a.begin(), a.end()), std::vector<long>(e.begin(), e.end()));
				Ev("cmp").s("kind", kind).s("m", m).j("a", nums(a)).j("e", nums(e)).j("out", taken()).done();
			} else {
				std::vector<std::string> a, e; std::string ja, je;
				if (op[3] != "=") for (auto & x : split(op[3], '/')) { a.push_back(utf8(text(x))); ja += (ja.empty() ? "" : ",") + codes(text(x)); }
				if (op[4] != "=") for (auto & x : split(op[4], '/')) { e.push_back(utf8(text(x))); je += (je.empty() ? "" : ",") + codes(text(x)); }
				rows<true>(m, a, e);
				Ev("cmp").s("kind", kind).s("m", m).j("a", "[" + ja + "]").j("e", "[" + je + "]").j("out", taken()).done();
			}
		} else if (o == "near") {
			int a = std::stoi(op[1]), e = std::stoi(op[2]), d = std::stoi(op[3]);
			nearby<int, true>(a, e, d, 1); nearby<long long>(a, e, d, 3); nearby<double>(a, e, d, 1); nearby<double>(a, e, d, 0.125); nearby<float>(a, e, d, 0.25); nearby<double>(a, e, d, 1e300 / 1e10 / 1e280);
			Ev("near").n("a", a).n("e", e).n("d", d).j("out", taken()).done();
		} else if (o == "null") {
			bool there = op[1] == "1";
			static int n; static ClassA c; static void * v = &n;
			void * pv = there ? v : nullptr; int * pi = there ? &n : nullptr; const ClassA * pc = there ? &c : nullptr;
			BOTH(pv, isNotNull()) ASKNP(pi, isNotNull()) ASKNP(pc, isNotNull())
			Ev("null").b("there", there).j("out", taken()).done();
		} else if (o == "isa") {
			const ClassA & a = classOf(op[1][0]);
			char t = op[2][0];
			if (t == 'A') isAs<ClassA>(a); else if (t == 'B') isAs<ClassB>(a); else if (t == 'C') isAs<ClassC>(a); else if (t == 'D') isAs<ClassD>(a); else if (t == 'M') isAs<ClassM>(a); else isAs<ClassX>(a);
			Ev("isa").s("d", op[1]).s("t", op[2]).j("names", "[" + rep("Class" + op[1]) + "," + rep("Class" + op[2]) + "]").j("out", taken()).done();
		} else if (o == "throws") {
			const std::string & how = op[1], & thrown = op[2], & type = op[4];
			int code = std::stoi(op[3]), e = std::stoi(op[5]);
			if (type == "Sub") throwing<Sub>(how, thrown, code, e); else throwing<Err>(how, thrown, code, e);
			Ev("throws").s("how", how).s("thrown", thrown).n("code", code).s("type", type).n("e", e).j("out", taken()).done();
		} else if (o == "fail") {
			const std::string t = utf8(text(op[1]));
			ask(true, "", "", [&] { assertFail(); });
			ask(true, "", t, [&] { assertFail(t); });
			ask(true, place, t, [&] { assertFail(SourceCodeLocation(place), t); });
			HERE(h); ask(true, h, t, [&] { AssertFail(t); });
			Ev("fail").j("out", taken()).done();
		}
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
