// URL encoded data and media types.  Texts are given as bytes and reported as bytes.
#include <Balau/Type/Character.hpp>
#include <Balau/Type/FromString.hpp>
#include <Balau/Network/Utilities/UrlDecode.hpp>
#include <Balau/Network/Utilities/MimeTypes.hpp>
#include "seq.hpp"

using namespace seq;
using Balau::Network::UrlDecode;
using Balau::Network::MimeTypes;

static std::string text(const std::string & w) {
	std::string r;
	if (w == "-") return r;
	for (auto & c : split(w, '.')) r += char(std::stoul(c));
	return r;
}
static std::string bytes(std::string_view s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char) s[i]);
	return r + "]";
}
// The text at the very end of a page, with a page behind it that holds what follows.
struct Placed {
	char * page;
	std::string_view at;
	Placed(const std::string & s, const std::string & after) {
		page = new char[s.size() + after.size() + 1];
		memcpy(page, s.data(), s.size());
		memcpy(page + s.size(), after.data(), after.size());
		at = std::string_view(page, s.size());
	}
	~Placed() { delete[] page; }
};
template <typename F> static std::string result(F f) {
	std::string v = "[]";
	std::string is = outcome([&] { v = bytes(f()); });
	return "{\"is\":" + js(is) + ",\"v\":" + v + "}";
}
template <typename F> static std::string mapped(F f) {
	std::string m = "[";
	std::string is = outcome([&] { auto r = f(); bool first = true; for (auto & e : r) { m += std::string(first ? "" : ",") + "[" + bytes(e.first) + "," + bytes(e.second) + "]"; first = false; } });
	if (is != "ok") m = "[";
	return "{\"is\":" + js(is) + ",\"m\":" + m + "]}";
}
static void run(const Op & op) {
	if (op[0] == "decode" || op[0] == "split") {
		std::string s = text(op[1]);
		bool check = op[2] == "1", throws = op[3] == "1";
		// What follows the text in memory is no part of it.
		if (op[0] == "decode") {
			std::string out = "[";
			for (const char * after : { "", "%41%42", "41", "1", "\x80", "%" }) {
				Placed p(s, after);
				out += (out.size() > 1 ? "," : "") + result([&] { return UrlDecode::decode(p.at, check, throws); });
			}
			if (check && !throws) out += "," + result([&] { return UrlDecode::decode(s); });
			if (!throws) out += "," + result([&] { return UrlDecode::decode(s, check); });
			Ev("decode").j("s", bytes(s)).b("check", check).b("throws", throws).j("out", out + "]").done();
		} else {
			Placed p(s, "=x&y=z");
			Ev("split").j("s", bytes(s)).b("check", check).b("throws", throws).j("views", mapped([&] { return UrlDecode::split(p.at); })).j("out", mapped([&] { return UrlDecode::splitAndDecode(p.at, check, throws); })).done();
		}
	} else if (op[0] == "media") {
		std::string p = text(op[2]);
		std::unordered_map<std::string, std::string> t;
		std::string table = "[", out;
		if (op[1] == "-") t = MimeTypes::defaultMimeTypes->getData();
		else for (auto & e : split(op[1], ',')) { auto kv = split(e, ':'); t[text(kv[0])] = text(kv[1]); }
		for (auto & x : t) table += (table.size() > 1 ? "," : "") + std::string("[") + bytes(x.first) + "," + bytes(x.second) + "]";
		if (op[1] == "-") out = bytes(MimeTypes::defaultMimeTypes->lookup(p));
		else { MimeTypes m(std::move(t)); out = bytes(m.lookup(p)); }
		Ev e("media");
		e.j("t", table + "]").j("p", bytes(p)).j("out", out);
		// The extension and the type as words, for the default table.
		std::string lower;
		if (op[1] == "-") for (char c : p.substr(p.rfind('.') + 1)) lower += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
		e.s("name", op[1] == "-" && p.find('.') != std::string::npos ? lower : "").s("type", op[1] == "-" ? std::string(MimeTypes::defaultMimeTypes->lookup(p)) : "").done();
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, [](const Script & s) { for (auto & op : s.ops) run(op); }); }
