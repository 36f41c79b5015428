// Functions on UTF-8 and UTF-32 strings.  Strings are given as code points and results are reported as code points, one per kind of argument.
#include <Balau/Util/Strings.hpp>
#include <list>
#include <deque>
#include "seq.hpp"

using namespace seq;
using Balau::Character;
using Balau::Util::Strings;
using S8 = std::string;
using S32 = std::u32string;
using V8 = std::string_view;
using V32 = std::u32string_view;

static S32 text(const std::string & w) {
	S32 r;
	if (w == "-") return r;
	for (auto & c : split(w, '.')) r += char32_t(std::stoul(c));
	return r;
}
static S8 utf8(const S32 & s) {
	S8 r;
	for (char32_t c : s) {
		if (c < 0x80) r += char(c);
		else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
		else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
	}
	return r;
}
static S32 points(V8 s) {
	S32 r;
	for (size_t i = 0; i < s.size();) {
		unsigned char b = s[i];
		int n = b < 0x80 ? 0 : b >= 0xF0 && b < 0xF8 ? 3 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xC2 && b < 0xE0 ? 1 : -1;
		char32_t c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
		bool good = n >= 0 && i + n < s.size();
		for (int k = 1; good && k <= n; ++k) { unsigned char d = s[i + k]; good = (d & 0xC0) == 0x80; c = c << 6 | (d & 63); }
		if (!good) { r += char32_t(0x110000 + b); ++i; }
		else { r += c; i += n + 1; }
	}
	return r;
}
static std::string rep(bool b) { return b ? "true" : "false"; }
static std::string rep(size_t n) { return n == std::string::npos ? "-1" : std::to_string(n); }
static std::string rep(const S32 & s) { return codes(s); }
static std::string rep(const V32 & s) { return codes(S32(s)); }
static std::string rep(const S8 & s) { return codes(points(s)); }
static std::string rep(const V8 & s) { return codes(points(s)); }
template <typename T> std::string rep(const std::vector<T> & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + rep(v[i]); return r + "]"; }
static std::string all(std::initializer_list<std::string> l) { std::string r = "["; for (auto i = l.begin(); i != l.end(); ++i) r += (i == l.begin() ? "" : ",") + *i; return r + "]"; }
template <typename T> std::vector<T> list(const Op & op, size_t from, std::function<T(const S32 &)> f) { std::vector<T> r; for (size_t i = from; i < op.size(); ++i) r.push_back(f(text(op[i]))); return r; }

static void find(const S32 & s, const S32 & p) {
	S8 s8 = utf8(s), p8 = utf8(p);
	const char * sc = s8.c_str(), * pc = p8.c_str();
	const char32_t * sd = s.c_str(), * pd = p.c_str();
	V8 sv = s8, pv = p8; V32 sw = s, pw = p;
	Ev e("find");
	e.j("s", codes(s)).j("p", codes(p));
	e.j("starts", all({ rep(Strings::startsWith(s8, p8)), rep(Strings::startsWith(s8, pc)), rep(Strings::startsWith(sc, p8)), rep(Strings::startsWith(sc, pc)), rep(Strings::startsWith(sv, pv)), rep(Strings::startsWith(sc, pv)), rep(Strings::startsWith(s8, pv)),
	                    rep(Strings::startsWith(s, p)), rep(Strings::startsWith(s, pd)), rep(Strings::startsWith(sd, p)), rep(Strings::startsWith(sd, pd)), rep(Strings::startsWith(sw, pw)) }));
	e.j("ends", all({ rep(Strings::endsWith(s8, p8)), rep(Strings::endsWith(s8, pc)), rep(Strings::endsWith(sc, p8)), rep(Strings::endsWith(sc, pc)), rep(Strings::endsWith(sv, pv)), rep(Strings::endsWith(sc, pv)),
	                  rep(Strings::endsWith(s, p)), rep(Strings::endsWith(s, pd)), rep(Strings::endsWith(sd, p)), rep(Strings::endsWith(sd, pd)), rep(Strings::endsWith(sw, pw)) }));
	e.j("contains", all({ rep(Strings::contains(s8, p8)), rep(Strings::contains(s8, pc)), rep(Strings::contains(sc, p8)), rep(Strings::contains(sc, pc)), rep(Strings::contains(sv, pv)),
	                      rep(Strings::contains(s, p)), rep(Strings::contains(s, pd)), rep(Strings::contains(sd, p)), rep(Strings::contains(sd, pd)), rep(Strings::contains(sw, pw)) }));
	e.j("count", all({ rep(Strings::occurrences(s8, p8)), rep(Strings::occurrences(sc, pc)), rep(Strings::occurrences(sc, p8)), rep(Strings::occurrences(sv, pv)), rep(Strings::occurrences(s8, pc)),
	                   rep(Strings::occurrences(s, p)), rep(Strings::occurrences(sd, pd)), rep(Strings::occurrences(sw, pw)) }));
	e.j("last8", all({ rep(Strings::lastIndexOf(s8, p8)), rep(Strings::lastIndexOf(sc, pc)), rep(Strings::lastIndexOf(s8, pc)), rep(Strings::lastIndexOf(sv, pv)) }));
	e.j("last32", all({ rep(Strings::lastIndexOf(s, p)), rep(Strings::lastIndexOf(sd, pd)), rep(Strings::lastIndexOf(sw, pd)) }));
	if (p.size() == 1) {
		char32_t d = p[0];
		e.j("cstarts32", all({ rep(Strings::startsWith(s, d)), rep(Strings::startsWith(sd, d)), rep(Strings::startsWith(sw, d)) }));
		e.j("cends32", all({ rep(Strings::endsWith(sd, d)), rep(Strings::endsWith(sw, d)) }));
		e.j("ccontains32", all({ rep(Strings::contains(s, d)), rep(Strings::contains(sd, d)), rep(Strings::contains(sw, d)) }));
		if (d < 128) {
			char c = char(d);
			e.j("cstarts8", all({ rep(Strings::startsWith(s8, c)), rep(Strings::startsWith(sc, c)), rep(Strings::startsWith(sv, c)) }));
			e.j("cends8", all({ rep(Strings::endsWith(sc, c)), rep(Strings::endsWith(sv, c)) }));
			e.j("ccontains8", all({ rep(Strings::contains(s8, c)), rep(Strings::contains(sc, c)), rep(Strings::contains(sv, c)) }));
		}
	}
	e.done();
}

static void cases(const S32 & s, const S32 & t) {
	S8 s8 = utf8(s), t8 = utf8(t);
	Ev e("case");
	e.j("s", codes(s)).j("t", codes(t));
	e.j("upper", all({ rep(Strings::toUpper(V8(s8))), rep(Strings::toUpper(V32(s))) }));
	e.j("lower", all({ rep(Strings::toLower(V8(s8))), rep(Strings::toLower(V32(s))) }));
	e.j("eq", all({ rep(Strings::equalsIgnoreCase(s8, t8)), rep(Strings::equalsIgnoreCase(s8.c_str(), t8)), rep(Strings::equalsIgnoreCase(s8.c_str(), t8.c_str())), rep(Strings::equalsIgnoreCase(V8(s8), V8(t8))),
	                rep(Strings::equalsIgnoreCase(s, t)), rep(Strings::equalsIgnoreCase(s.c_str(), t)), rep(Strings::equalsIgnoreCase(V32(s), V32(t))) }));
	e.done();
}

static void pad(const S32 & s, unsigned n, char32_t c) {
	S8 s8 = utf8(s);
	Ev e("pad");
	e.j("s", codes(s)).n("n", n).n("c", long(c));
	S8 a = s8; Strings::append(a, c, n);
	S32 b = s; Strings::append(b, c, n);
	S8 a2, a3 = s8;
	std::vector<std::string> app { rep(a), rep(b), rep(Strings::append(std::as_const(s8), c, n)), rep(Strings::append(std::as_const(s), c, n)) };
	std::vector<std::string> left { rep(Strings::padLeft(V8(s8), n, c)), rep(Strings::padLeft(V32(s), n, c)) };
	std::vector<std::string> right { rep(Strings::padRight(V8(s8), n, c)), rep(Strings::padRight(V32(s), n, c)) };
	if (c < 128) {
		Strings::append(a3, char(c), n);
		app.push_back(rep(a3));
		app.push_back(rep(Strings::append(V8(s8), char(c), n)));
		left.push_back(rep(Strings::padLeft(V8(s8), n, char(c))));
		right.push_back(rep(Strings::padRight(V8(s8), n, char(c))));
	}
	if (c == 32) {
		left.push_back(rep(Strings::padLeft(V8(s8), n))); left.push_back(rep(Strings::padLeft(V32(s), n)));
		right.push_back(rep(Strings::padRight(V8(s8), n))); right.push_back(rep(Strings::padRight(V32(s), n)));
	}
	auto j = [] (const std::vector<std::string> & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; };
	e.j("append", j(app)).j("left", j(left)).j("right", j(right)).done();
}

static void trim(const S32 & s) {
	S8 s8 = utf8(s);
	Ev e("trim");
	e.j("s", codes(s));
	e.j("both", all({ rep(Strings::trim(V8(s8))), rep(Strings::trim(V32(s))) }));
	e.j("left", all({ rep(Strings::trimLeft(V8(s8))), rep(Strings::trimLeft(V32(s))) }));
	e.j("right", all({ rep(Strings::trimRight(V8(s8))), rep(Strings::trimRight(V32(s))) }));
	e.done();
}

static void simplify(const S32 & s) {
	Ev("simplify").j("s", codes(s)).j("out", rep(Strings::simplify(V8(utf8(s))))).done();
}

static void replace(const S32 & s, const S32 & m, const S32 & r) {
	S8 s8 = utf8(s), m8 = utf8(m), r8 = utf8(r);
	size_t c8 = 77, c32 = 77;
	Ev e("replace");
	e.j("s", codes(s)).j("m", codes(m)).j("r", codes(r));
	e.j("out", all({ rep(Strings::replaceAll(V8(s8), V8(m8), V8(r8), &c8)), rep(Strings::replaceAll(V32(s), V32(m), V32(r), &c32)), rep(Strings::replaceAll(V8(s8), V8(m8), V8(r8))),
	                 rep(Strings::replaceAll(s8.c_str(), m8.c_str(), r8.c_str())), rep(Strings::replaceAll(s.c_str(), m.c_str(), r.c_str())), rep(Strings::replaceAll(s8, m8, r8)) }));
	e.j("count", all({ rep(c8), rep(c32) }));
	e.done();
}

static std::regex regexOf(const S32 & chars, bool plus) { return std::regex("[" + utf8(chars) + "]" + (plus ? "+" : "")); }

// Regular expressions: one of the given ASCII characters, or a run of them.
static void regex(const S32 & s, const S32 & chars, bool plus, const S32 & r) {
	S8 s8 = utf8(s), r8 = utf8(r);
	std::regex re = regexOf(chars, plus);
	Ev e("regex");
	e.j("s", codes(s)).j("cs", codes(chars)).b("plus", plus).j("r", codes(r));
	e.j("starts", rep(Strings::startsWithRegex(s8, re))).j("matches", rep(Strings::matches(s8, re)));
	e.j("count", all({ rep(Strings::occurrences(s8, re)), rep(Strings::occurrences(s8.c_str(), re)), rep(Strings::occurrences(V8(s8), re)) }));
	e.j("replace", all({ rep(Strings::replaceAll(s8.c_str(), re, r8)), rep(Strings::replaceAll(s8, re, r8.c_str())), rep(Strings::replaceAll(V8(s8), re, r8)) }));
	e.done();
}

static void rsplit(const S32 & s, const S32 & chars, bool plus, bool delims, bool compress) {
	S8 s8 = utf8(s);
	std::regex re = regexOf(chars, plus);
	Ev e("rsplit");
	e.j("s", codes(s)).j("cs", codes(chars)).b("plus", plus).b("delims", delims).b("compress", compress);
	auto v = Strings::split(s8, re, delims, compress);
	e.j("out", rep(v)).j("copies", rep(Strings::toStringContainer(v))).j("trimmed", rep(Strings::splitAndTrim(s8, re, delims, compress)));
	bool within = true;
	for (auto & x : v) within = within && x.data() >= s8.data() && x.data() + x.size() <= s8.data() + s8.size();
	e.b("within", within).done();
}

static void splits(const S32 & s, const S32 & d, bool compress) {
	S8 s8 = utf8(s), d8 = utf8(d);
	Ev e("split");
	e.j("s", codes(s)).j("d", codes(d)).b("compress", compress);
	auto v = Strings::split(s8, d8, compress);
	auto w = Strings::split(V32(s), V32(d), compress);
	e.j("out", all({ rep(v), rep(w) })).j("trimmed", all({ rep(Strings::splitAndTrim(s8, d8, compress)), rep(Strings::splitAndTrim(V32(s), V32(d), compress)) }));
	bool within = true;
	for (auto & x : v) within = within && x.data() >= s8.data() && x.data() + x.size() <= s8.data() + s8.size();
	for (auto & x : w) within = within && x.data() >= s.data() && x.data() + x.size() <= s.data() + s.size();
	e.b("within", within).done();
}

static void join(const Op & op) {
	S32 d = text(op[1]), p = text(op[2]);
	S8 d8 = utf8(d), p8 = utf8(p);
	auto l = list<S32>(op, 3, [] (const S32 & s) { return s; });
	auto l8 = list<S8>(op, 3, utf8);
	std::vector<std::string> out { rep(Strings::joinContainer(d8, l8)), rep(Strings::joinContainer(d8.c_str(), l8)), rep(Strings::joinContainer(V8(d8), std::list<S8>(l8.begin(), l8.end()))),
	                               rep(Strings::joinContainer(d8.c_str(), std::deque<S8>(l8.begin(), l8.end()))),
	                               rep(Strings::joinContainer(d, l)), rep(Strings::joinContainer(d.c_str(), l)), rep(Strings::joinContainer(V32(d), l)) };
	if (l.size() == 1) { out.push_back(rep(Strings::join(d8, l8[0]))); out.push_back(rep(Strings::join(d.c_str(), l[0]))); }
	if (l.size() == 2) { out.push_back(rep(Strings::join(d8.c_str(), l8[0], l8[1]))); out.push_back(rep(Strings::join(d, l[0], l[1]))); out.push_back(rep(Strings::join(d8, l8[0], V8(l8[1])))); }
	if (l.size() == 3) { out.push_back(rep(Strings::join(d8, l8[0], l8[1], l8[2]))); out.push_back(rep(Strings::join(d.c_str(), l[0], l[1], l[2]))); out.push_back(rep(Strings::join(d8.c_str(), l8[0].c_str(), l8[1].c_str(), l8[2].c_str()))); }
	std::string o = "[";
	for (size_t i = 0; i < out.size(); ++i) o += (i ? "," : "") + out[i];
	Ev e("join");
	e.j("d", codes(d)).j("p", codes(p)).j("l", rep(l)).j("out", o + "]");
	e.j("around", all({ rep(Strings::prefixSuffixJoin(l8, p8, d8)), rep(Strings::prefixSuffixJoin(l8, p8.c_str(), d8.c_str())), rep(Strings::prefixSuffixJoin(l, p.c_str(), d.c_str())) }));
	e.done();
}

static void lines(const S32 & s) {
	S8 s8 = utf8(s);
	Ev e("lines");
	e.j("s", codes(s));
	e.j("extra", all({ nums(Strings::lineLengths(s8)), nums(Strings::lineLengths(s8.c_str())), nums(Strings::lineLengths(V8(s8), true)), nums(Strings::lineLengths(s8, std::regex("\n\r|\r\n|\n|\r"))) }));
	e.j("whole", all({ nums(Strings::lineLengths(s8, false)), nums(Strings::lineLengths(s8.c_str(), false)), nums(Strings::lineLengths(V8(s8), std::regex("\n\r|\r\n|\n|\r"), false)) }));
	e.done();
}

static void walk(const S32 & s) {
	S8 s8 = utf8(s);
	Ev e("walk");
	e.j("s", codes(s)).j("count", all({ rep(Strings::codePointCount(V8(s8))), rep(Strings::codePointCount(V32(s))) }));
	S32 a, b, c, d;
	std::vector<int> oa, ob, oc, od, oe, of, og, oh;
	int n = int(s8.size());
	size_t most = s8.size();
	for (int o = 0; o < n && a.size() <= most;) { a += Character::getNextUtf8(s8, o); oa.push_back(o); }
	for (int o = 0; o < n && b.size() <= most;) { b += Character::getNextUtf8Safe(s8, o); ob.push_back(o); }
	for (int o = n; o > 0 && c.size() <= most;) { c += Character::getPreviousUtf8(s8, o); oc.push_back(o); }
	for (int o = n; o > 0 && d.size() <= most;) { d += Character::getPreviousUtf8Safe(s8, o); od.push_back(o); }
	for (int o = 0; o < n && oe.size() <= most;) { Character::advanceUtf8(s8, o); oe.push_back(o); }
	for (int o = 0; o < n && of.size() <= most;) { Character::advanceUtf8Safe(s8, o); of.push_back(o); }
	for (int o = n; o > 0 && og.size() <= most;) { Character::retreatUtf8(s8, o); og.push_back(o); }
	for (int o = n; o > 0 && oh.size() <= most;) { Character::retreatUtf8Safe(s8, o); oh.push_back(o); }
	e.j("next", all({ rep(a), rep(b) })).j("previous", all({ rep(c), rep(d) }));
	e.j("ahead", all({ nums(oa), nums(ob), nums(oe), nums(of) })).j("back", all({ nums(oc), nums(od), nums(og), nums(oh) }));
	S8 out(s8.size() + 4, '~');
	int o = 0;
	std::vector<int> ow;
	for (char32_t x : s) { if (o < 0 || o > n) break; Character::setUtf8AndAdvanceOffset(out, o, x); ow.push_back(o); }
	e.j("written", rep(out)).j("offsets", nums(ow)).done();
}

static void chars(const S32 & s) {
	for (char32_t c : s) {
		Ev e("char");
		e.n("c", long(c));
		e.n("bytes", long(Character::utf8ByteCount(c))).b("valid", Character::isValid(c)).n("up", long(Character::toUpper(c))).n("low", long(Character::toLower(c)));
		std::vector<std::string> is;
		auto add = [&] (const char * n, bool b) { if (b) is.push_back(n); };
		add("lower", Character::isLower(c)); add("upper", Character::isUpper(c)); add("digit", Character::isDigit(c)); add("hex", Character::isHexDigit(c)); add("octal", Character::isOctalDigit(c));
		add("binary", Character::isBinaryDigit(c)); add("alpha", Character::isAlpha(c)); add("alnum", Character::isAlphaOrDecimal(c)); add("control", Character::isControlCharacter(c));
		add("space", Character::isSpace(c)); add("whitespace", Character::isWhitespace(c)); add("blank", Character::isBlank(c)); add("print", Character::isPrintable(c)); add("punct", Character::isPunctuation(c));
		add("idstart", Character::isIdStart(c)); add("idpart", Character::isIdPart(c)); add("break", Character::isBreakableCharacter(c)); add("incbreak", Character::isInclusiveBreakableCharacter(c));
		e.l("is", is).done();
	}
}

static void run(const Script & sc) {
	for (auto & op : sc.ops) {
		auto & o = op[0];
		auto t = [&] (size_t i) { return text(op.at(i)); };
		auto b = [&] (size_t i) { return op.at(i) == "1"; };
		if (o == "find") find(t(1), t(2));
		else if (o == "case") cases(t(1), t(2));
		else if (o == "pad") pad(t(1), unsigned(std::stoul(op.at(2))), char32_t(std::stoul(op.at(3))));
		else if (o == "trim") trim(t(1));
		else if (o == "simplify") simplify(t(1));
		else if (o == "replace") replace(t(1), t(2), t(3));
		else if (o == "regex") regex(t(1), t(2), b(3), t(4));
		else if (o == "rsplit") rsplit(t(1), t(2), b(3), b(4), b(5));
		else if (o == "split") splits(t(1), t(2), b(3));
		else if (o == "join") join(op);
		else if (o == "lines") lines(t(1));
		else if (o == "walk") walk(t(1));
		else if (o == "char") chars(t(1));
	}
}

int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
