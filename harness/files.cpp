// Files, the resources of files and of string URIs, and the file utilities.
#include <Balau/Application/Injector.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Util/Files.hpp>
#include <filesystem>
#include <fstream>
#include <list>
#include <unistd.h>
#include "seq.hpp"

using namespace seq;
using namespace Balau;
using namespace Balau::Resource;
namespace fs = std::filesystem;

static void utf8(std::string & s, char32_t c) {
	if (c < 0x80) s += char(c);
	else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
	else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
	else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}

struct Content { std::string bytes; std::u32string text; };

// x97,233 (code points), p300.7 (a pattern of 300 code points), b300.7 (300 bytes, no text).
static Content content(const std::string & w) {
	Content c;
	if (w[0] == 'x') {
		for (auto & n : split(w.substr(1), ',')) if (!n.empty()) c.text += char32_t(atoi(n.c_str()));
	} else {
		unsigned n = atoi(w.c_str() + 1), s = atoi(w.c_str() + w.find('.') + 1), x = s * 7919 + 12345;
		for (unsigned i = 0; i < n; ++i) {
			x = x * 1103515245 + 12345;
			unsigned k = x >> 16;
			if (w[0] == 'b') { c.bytes += char(k); continue; }
			static const char32_t starts[] = { 0x20, 0xa1, 0x4e00, 0x1f600, 0x61, 0xe000, 0x7f, 0x7ff };
			c.text += s == 0 ? U'a' + i % 26 : starts[k % 8] + (k >> 3) % 0x50 % (k % 8 == 6 ? 2 : k % 8 == 7 ? 2 : 0x50);
		}
	}
	for (char32_t t : c.text) utf8(c.bytes, t);
	return c;
}

// Short contents in full, the length and a hash of longer ones.
template <typename C> static std::string sum(const C & s) {
	if (s.size() <= 100) return codes(s);
	unsigned long long h = 1469598103934665603ull;
	for (auto c : s) { h ^= (unsigned long long) (typename std::make_unsigned<decltype(+c)>::type) c; h *= 1099511628211ull; }
	return "[-1," + std::to_string(s.size()) + "," + std::to_string(h >> 40 & 0xffffff) + "," + std::to_string(h >> 8 & 0xffffff) + "]";
}

static std::string comps(const std::string & raw) {
	std::vector<std::string> v;
	for (auto & p : split(raw, '/')) if (!p.empty()) v.push_back(p);
	return js(v);
}

template <typename S, typename T> static void writeIn(S & stream, const T & t, size_t chunk) {
	for (size_t i = 0; i < t.size(); i += chunk) {
		size_t n = std::min(chunk, t.size() - i);
		if (n == 1) stream.put(t[i]); else stream.write(t.data() + i, n);
		if (chunk % 3 == 2) stream.flush();
	}
}

template <typename T, typename S> static T readAll(S & stream, size_t chunk) {
	T t;
	if (chunk == 1) { for (;;) { auto c = stream.get(); if (stream.eof() || stream.fail()) break; t += typename T::value_type(c); } return t; }
	std::vector<typename T::value_type> b(chunk);
	for (;;) { stream.read(b.data(), chunk); t.append(b.data(), stream.gcount()); if (!stream) break; }
	return t;
}

// Writes with a resource in one of several ways.
template <typename R, typename T> static void useWriter(R && w, const T & t, size_t chunk, const std::string & how, std::string & uri) {
	if (how == "moved") {
		R x(std::move(w));
		uri = x.uri().toRawString();
		writeIn(x.writeStream(), t, chunk);
		return;
	}
	uri = w.uri().toRawString();
	writeIn(w.writeStream(), t, chunk);
	if (how == "close" || how == "twice") w.close();
	if (how == "twice") w.close();
}
template <typename P, typename T> static void usePointer(P && w, const T & t, size_t chunk, const std::string & how, std::string & uri) {
	P x(std::move(w));
	uri = x->uri().toRawString();
	writeIn(x->writeStream(), t, chunk);
	if (how == "close" || how == "twice") x->close();
	if (how == "twice") x->close();
}
template <typename T, typename R> static T useReader(R && r, size_t chunk, const std::string & how, std::string & uri) {
	if (how == "moved") { R x(std::move(r)); uri = x.uri().toRawString(); T t = readAll<T>(x.readStream(), chunk); return t; }
	T t = readAll<T>(r.readStream(), chunk);
	uri = r.uri().toRawString();
	if (how == "close" || how == "twice") r.close();
	if (how == "twice") r.close();
	return t;
}
template <typename T, typename P> static T useReaderPointer(P && r, size_t chunk, const std::string & how, std::string & uri) {
	P x(std::move(r));
	uri = x->uri().toRawString();
	T t = readAll<T>(x->readStream(), chunk);
	if (how == "close" || how == "twice") x->close();
	return t;
}

static std::string childrenOf(std::vector<std::pair<std::string, std::string>> v) {
	std::sort(v.begin(), v.end());
	std::string j = "[";
	for (auto & p : v) j += (j.size() > 1 ? "," : "") + ("{\"p\":" + comps(p.first)) + ",\"k\":" + js(p.second) + "}";
	return j + "]";
}

static std::string kindOf(const Uri & u) { return u.isRegularDirectory() ? "dir" : u.isRegularFile() ? "file" : "other"; }

static void run(const Script & sc) {
	char tmp[] = "filesXXXXXX";
	if (!mkdtemp(tmp)) exit(9);
	std::string back = fs::current_path();
	fs::current_path(tmp);
	std::map<std::string, File> files;
	std::map<std::string, StringUri> strings;
	for (auto & o : sc.ops) {
		auto & op = o[0];
		auto at = [&] (size_t i) -> std::string { return i < o.size() ? o[i] : ""; };
		if (op == "file") {
			// file slot how base name
			std::string how = at(2), base = at(3), name = at(4), full = base.empty() ? name : name.empty() ? base : base + "/" + name;
			if (how == "string") files[at(1)] = File(full);
			else if (how == "chars") files[at(1)] = File(full.c_str());
			else if (how == "view") files[at(1)] = File(std::string_view(full));
			else if (how == "path") files[at(1)] = File(boost::filesystem::path(full));
			else if (how == "entry") files[at(1)] = File(boost::filesystem::directory_entry(full));
			else if (how == "pair") files[at(1)] = File(base, name);
			else if (how == "filepair") files[at(1)] = File(File(base), name);
			else if (how == "div") files[at(1)] = File(base) / name;
			else if (how == "divc") files[at(1)] = File(base) / name.c_str();
			else if (how == "divv") files[at(1)] = File(base) / std::string_view(name);
			else if (how == "divlist") files[at(1)] = File(base) / split(name, '/');
			else if (how == "diveq") { File f(base); f /= name; files[at(1)] = f; }
			else if (how == "diveqc") { File f(base); f /= name.c_str(); files[at(1)] = f; }
			else if (how == "diveqv") { File f(base); File & g = f /= std::string_view(name); files[at(1)] = g; }
			else if (how == "append") files[at(1)] = dynamic_cast<const File &>(*File(base).append(name));
			else if (how == "sub") files[at(1)] = File(base).getSubDirectory(name);
			else if (how == "child") files[at(1)] = File(base).getChildEntry(name);
			else if (how == "plus") files[at(1)] = File(base) + ((base.empty() ? "" : "/") + name);
			else if (how == "from") { File f("else"); fromString(f, full); files[at(1)] = f; }
			else if (how == "copy") { File f(full); files[at(1)] = File(f); }
			else if (how == "move") { File f(full); files[at(1)] = File(std::move(f)); }
			else if (how == "massign") { File f(full); files[at(1)] = std::move(f); }
			else if (how == "pathassign") files[at(1)] = boost::filesystem::path(full);
			else if (how == "entryassign") files[at(1)] = boost::filesystem::directory_entry(full);
			else if (how == "clone") files[at(1)] = dynamic_cast<const File &>(*File(full).clone());
			else if (how == "get") files[at(1)] = File(File(full).getEntry());
			else continue;
			auto & f = files[at(1)];
			std::unique_ptr<Uri> u;
			fromString(u, f.toUriString());
			Ev("file").s("s", at(1)).j("p", comps(full)).j("raw", comps(f.toRawString())).b("text", f.toRawString() == full && f.toRawString<std::allocator<char>>() == full.c_str() && f.toUriString() == "file://" + full && *u == f && *f.clone() == f).done();
		} else if (op == "parent") {
			files[at(2)] = files[at(1)].getParentDirectory();
			Ev("parent").s("s", at(1)).s("t", at(2)).j("raw", comps(files[at(2)].toRawString())).done();
		} else if (op == "abs") {
			File a = files[at(1)].toAbsolutePath();
			std::string r = a.toRawString(), c = fs::current_path().string() + "/";
			bool in = r.compare(0, c.size(), c) == 0;
			Ev("abs").s("s", at(1)).b("in", in).j("raw", comps(in ? r.substr(c.size()) : r)).done();
		} else if (op == "rel") {
			std::string r, st = outcome([&] { r = files[at(1)].relative(files[at(2)]).toRawString(); });
			Ev("rel").s("s", at(1)).s("t", at(2)).s("res", st).j("raw", comps(r)).done();
		} else if (op == "cmp") {
			auto & a = files[at(1)]; auto & b = files[at(2)];
			const Uri & ua = a; const Uri & ub = b;
			Ev("cmp").s("s", at(1)).s("t", at(2)).b("eq", a == b).b("ueq", ua == ub).b("lt", a < b).b("gt", b < a).b("hash", a.hashcode() == b.hashcode() && std::hash<File>()(a) == std::hash<File>()(b)).b("toeq", std::equal_to<File>()(a, b))
				.b("string", ua == StringUri(a.toRawString())).done();
		} else if (op == "mk" || op == "rm") {
			bool r = false;
			std::string st = outcome([&] { r = op == "mk" ? files[at(1)].createDirectories() : files[at(1)].removeFile(); });
			Ev(op.c_str()).s("s", at(1)).s("res", st).b("r", r).done();
		} else if (op == "stat") {
			auto & f = files[at(1)];
			const Uri & u = f;
			long size = -2;
			std::string st = outcome([&] { size = long(f.size()); }), ts = "none";
			std::string t = outcome([&] { auto d = std::chrono::system_clock::now() - f.getModifiedTimestamp(); ts = d > std::chrono::seconds(-5) && d < std::chrono::seconds(3000) ? "now" : "other"; });
			Ev("stat").s("s", at(1)).b("exists", f.exists()).s("kind", kindOf(f)).b("it", u.isIterable()).b("rit", u.isRecursivelyIterable()).b("can", u.canReadFrom() && u.canWriteTo()).s("res", st).n("size", size).s("mt", t == "ok" ? ts : t).done();
		} else if (op == "iter") {
			std::vector<std::pair<std::string, std::string>> v;
			auto & f = files[at(1)];
			std::string how = at(2), st = outcome([&] {
				if (how == "flat") { auto i = f.fileIterator(); while (i.hasNext()) { File c = i.next(); v.emplace_back(c.toRawString(), kindOf(c)); } }
				else if (how == "deep") { auto i = f.recursiveFileIterator(); while (i.hasNext()) { File c = i.next(); v.emplace_back(c.toRawString(), kindOf(c)); } }
				else if (how == "uflat") { auto i = static_cast<const Uri &>(f).iterator(); while (i->hasNext()) { auto c = i->next(); v.emplace_back(c->toRawString(), kindOf(*c)); } }
				else { auto i = static_cast<const Uri &>(f).recursiveIterator(); while (i->hasNext()) { auto c = i->next(); v.emplace_back(c->toRawString(), kindOf(*c)); } }
			});
			Ev("iter").s("s", at(1)).s("how", how).s("res", st).j("l", childrenOf(v)).n("n", long(v.size())).done();
		} else if (op == "write" || op == "swrite") {
			// write slot kind content chunk how
			Content c = content(at(3));
			size_t chunk = std::max(1, atoi(at(4).c_str()));
			std::string kind = at(2), how = at(5), uri;
			std::string st = outcome([&] {
				if (op == "write") {
					File & f = files[at(1)];
					if (kind == "bytes") useWriter(f.getByteWriteResource(), c.bytes, chunk, how, uri);
					else if (kind == "text") useWriter(f.getUtf32To8WriteResource(), c.text, chunk, how, uri);
					else if (kind == "ubytes") usePointer(static_cast<Uri &>(f).byteWriteResource(), c.bytes, chunk, how, uri);
					else usePointer(static_cast<Uri &>(f).utf32To8WriteResource(), c.text, chunk, how, uri);
				} else {
					StringUri & f = strings[at(1)];
					if (kind == "bytes") useWriter(StringUriByteWriteResource(f), c.bytes, chunk, how, uri);
					else if (kind == "text") useWriter(StringUriUtf32To8WriteResource(f), c.text, chunk, how, uri);
					else if (kind == "ubytes") usePointer(static_cast<Uri &>(f).byteWriteResource(), c.bytes, chunk, how, uri);
					else usePointer(static_cast<Uri &>(f).utf32To8WriteResource(), c.text, chunk, how, uri);
				}
			});
			Ev e(op.c_str());
			e.s("s", at(1)).s("res", st).j("b", op == "write" ? sum(c.bytes) : codes(c.bytes)).j("x", op == "write" ? sum(c.text) : codes(c.text)).b("istext", at(3)[0] != 'b').n("n", long(c.bytes.size()));
			if (op == "write" && st == "ok") e.j("uri", comps(uri));
			e.done();
		} else if (op == "read" || op == "sread") {
			std::string kind = at(2), how = at(4), uri, b;
			std::u32string t;
			size_t chunk = std::max(1, atoi(at(3).c_str()));
			bool text = kind == "text" || kind == "utext";
			std::string st = outcome([&] {
				if (op == "read") {
					const File & f = files[at(1)];
					if (kind == "bytes") b = useReader<std::string>(f.getByteReadResource(), chunk, how, uri);
					else if (kind == "text") t = useReader<std::u32string>(f.getUtf8To32ReadResource(), chunk, how, uri);
					else if (kind == "ubytes") b = useReaderPointer<std::string>(static_cast<const Uri &>(f).byteReadResource(), chunk, how, uri);
					else if (kind == "utext") t = useReaderPointer<std::u32string>(static_cast<const Uri &>(f).utf8To32ReadResource(), chunk, how, uri);
					else if (kind == "string") { b = Util::Files::readToString(f); uri = f.toRawString(); }
					else if (kind == "vector") { auto v = Util::Files::readToVector(f); b = std::string(v.begin(), v.end()); uri = f.toRawString(); }
				} else {
					const StringUri & f = strings[at(1)];
					if (kind == "bytes") b = useReader<std::string>(f.getByteReadResource(), chunk, how, uri);
					else if (kind == "text") t = useReader<std::u32string>(f.getUtf8To32ReadResource(), chunk, how, uri);
					else if (kind == "ubytes") b = useReaderPointer<std::string>(static_cast<const Uri &>(f).byteReadResource(), chunk, how, uri);
					else if (kind == "utext") t = useReaderPointer<std::u32string>(static_cast<const Uri &>(f).utf8To32ReadResource(), chunk, how, uri);
					else if (kind == "get") { b = f.getString(); uri = f.toRawString(); }
				}
			});
			Ev e(op.c_str());
			e.s("s", at(1)).s("res", st).b("util", kind == "string" || kind == "vector").b("text", text).j("out", op == "read" ? text ? sum(t) : sum(b) : text ? codes(t) : codes(b));
			if (op == "read") e.j("uri", st == "ok" ? comps(uri) : "[]"); else e.b("uri", uri == strings[at(1)].getString());
			e.done();
		} else if (op == "lines") {
			std::vector<std::string> v;
			std::string st = outcome([&] { v = Util::Files::toLines(files[at(1)]); });
			std::string j = "[";
			for (auto & s : v) j += (j.size() > 1 ? "," : "") + codes(s);
			Ev("lines").s("s", at(1)).s("res", st).j("l", j + "]").done();
		} else if (op == "cp") {
			std::string st = outcome([&] { Util::Files::copy(files[at(1)], files[at(2)]); });
			Ev("cp").s("s", at(1)).s("t", at(2)).s("res", st).done();
		} else if (op == "snew") {
			Content c = content(at(2));
			std::string how = at(3);
			if (how == "copy") { StringUri u(c.bytes); StringUri v(u); strings.erase(at(1)); strings.emplace(at(1), v); }
			else if (how == "move") { StringUri u(c.bytes); strings.erase(at(1)); strings.emplace(at(1), std::move(u)); }
			else if (how == "clone") { StringUri u(c.bytes); strings.erase(at(1)); strings.emplace(at(1), dynamic_cast<StringUri &>(*u.clone())); }
			else { strings.erase(at(1)); strings.emplace(at(1), StringUri(c.bytes)); }
			Ev("snew").s("s", at(1)).j("b", codes(c.bytes)).j("x", codes(c.text)).b("istext", at(2)[0] != 'b').done();
		} else if (op == "sapp") {
			Content c = content(at(2));
			std::string how = at(3);
			StringUri & u = strings[at(1)];
			if (how == "char") for (char b : c.bytes) u.append(b);
			else if (how == "code" && at(2)[0] != 'b') for (char32_t t : c.text) u.append(t);
			else u.append(std::string_view(c.bytes));
			Ev("sapp").s("s", at(1)).j("b", codes(c.bytes)).j("x", codes(c.text)).b("istext", at(2)[0] != 'b').done();
		} else if (op == "scmp") {
			auto & a = strings[at(1)]; auto & b = strings[at(2)];
			const Uri & ub = b;
			Ev("scmp").s("s", at(1)).s("t", at(2)).b("eq", a == ub).b("hash", a.hashcode() == b.hashcode()).b("kinds", !a.isRegularFile() && !a.isRegularDirectory() && !a.isIterable() && !a.isRecursivelyIterable() && a.canReadFrom()).done();
		}
	}
	fs::current_path(back);
	fs::remove_all(fs::absolute(tmp));
}

int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
