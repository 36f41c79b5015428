// Zip archives: transactions of a zipper, reads of an unzipper and of zip file
// URIs.  What is on disk is read and made with libzip itself.
#include <Balau/Application/Injector.hpp>
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Util/Zip.hpp>
#include <Balau/Util/Compression.hpp>
#include <zlib.h>
#include "seq.hpp"
using namespace seq;
using namespace Balau;
static std::string dir;
static std::map<std::string, std::string> words; // content -> word

// The content a word stands for: kind, length, optional variant.
static const std::string & content(const std::string & w) {
	static std::map<std::string, std::string> made;
	auto i = made.find(w);
	if (i != made.end()) { words.emplace(i->second, w); return i->second; }
	auto p = split(w.substr(1), '.');
	size_t n = std::stoul(p[0]);
	unsigned x = 12345u + unsigned(n) * 77u + (p.size() > 1 ? unsigned(std::stoul(p[1])) * 7919u : 0u);
	std::string s;
	while (s.size() < n) {
		x = x * 1103515245u + 12345u;
		unsigned v = (x >> 16) & 0x7fff;
		if (w[0] == 'b') s += char(v);
		else if (w[0] == 'z') s += char('a' + (v & 1023 ? 0 : 1));
		else if (v % 9 == 0 && s.size() + 2 <= n) s += "\xc3\xa9";
		else if (v % 9 == 1 && s.size() + 3 <= n) s += "\xe2\x82\xac";
		else if (v % 9 == 2 && s.size() + 4 <= n) s += "\xf0\x9f\x98\x80";
		else if (v % 31 == 3) s += '\n';
		else s += char('a' + v % 26);
	}
	words.emplace(s, w);
	return made[w] = s;
}
static std::string word(const std::string & s) {
	auto i = words.find(s);
	if (i != words.end()) return i->second;
	size_t k = 0;
	for (auto & w : words) { auto m = std::mismatch(s.begin(), s.begin() + long(std::min(s.size(), w.first.size())), w.first.begin()).first - s.begin(); k = std::max(k, size_t(m)); }
	return "?" + std::to_string(s.size()) + "/" + std::to_string(k);
}
static std::string path(const std::string & f) { return dir + "/" + f; }
static void spill(const std::string & f, const std::string & s) { std::ofstream o(path(f), std::ios::binary); o << s; }
static std::string slurp(const std::string & f) { std::ifstream i(path(f), std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }

// An archive made with libzip: NAME:WORD:COMMENT:METHOD...
static void fixture(const Op & o) {
	unlink(path(o[1]).c_str());
	int e = 0;
	auto z = zip_open(path(o[1]).c_str(), ZIP_CREATE | ZIP_TRUNCATE, &e);
	if (!z) { Ev("broken").s("what", "fixture").done(); return; }
	if (!o[2].empty()) zip_set_archive_comment(z, o[2].c_str(), zip_uint16_t(o[2].size()));
	std::string j = "[";
	for (size_t i = 4; i < o.size(); ++i) {
		auto p = split(o[i], ':');
		zip_int64_t n;
		if (p[0].back() == '/') n = zip_dir_add(z, p[0].c_str(), ZIP_FL_ENC_UTF_8);
		else {
			auto & c = content(p[1]);
			n = zip_file_add(z, p[0].c_str(), zip_source_buffer(z, c.data(), c.size(), 0), ZIP_FL_ENC_UTF_8);
			if (p[3] == "store") zip_set_file_compression(z, zip_uint64_t(n), ZIP_CM_STORE, 0);
			if (!o[3].empty()) zip_file_set_encryption(z, zip_uint64_t(n), ZIP_EM_AES_256, o[3].c_str());
		}
		if (n < 0) { Ev("broken").s("what", "entry").done(); return; }
		if (!p[2].empty()) zip_file_set_comment(z, zip_uint64_t(n), p[2].c_str(), zip_uint16_t(p[2].size()), ZIP_FL_ENC_UTF_8);
		j += (i > 4 ? "," : "") + std::string("{\"n\":") + codes(p[0]) + ",\"d\":" + js(p[0].back() == '/' ? "t0" : word(content(p[1]))) + ",\"s\":" + std::to_string(p[0].back() == '/' ? 0 : content(p[1]).size()) + ",\"c\":" + codes(p[2]) + "}";
	}
	if (zip_close(z) != 0) { Ev("broken").s("what", "close").done(); return; }
	Ev("fixture").s("f", o[1]).j("comment", codes(o[2])).j("pw", codes(o[3])).j("entries", j + "]").done();
}

// What is in the archive file, from libzip.
static void disk(const std::string & f, const std::string & pw) {
	std::string j = "[", comment;
	std::string st = "zip";
	if (access(path(f).c_str(), F_OK) != 0) st = "none";
	else {
		int e = 0;
		auto z = zip_open(path(f).c_str(), ZIP_RDONLY | ZIP_CHECKCONS, &e);
		if (!z) st = "junk";
		else {
			if (!pw.empty()) zip_set_default_password(z, pw.c_str());
			auto c = zip_get_archive_comment(z, nullptr, 0);
			if (c) comment = c;
			for (zip_int64_t i = 0, n = zip_get_num_entries(z, 0); i < n; ++i) {
				struct zip_stat sb;
				zip_stat_init(&sb);
				zip_stat_index(z, zip_uint64_t(i), 0, &sb);
				std::string s(sb.size, 0);
				auto zf = zip_fopen_index(z, zip_uint64_t(i), 0);
				zip_int64_t r = zf ? zip_fread(zf, s.data(), s.size()) : -1;
				char more;
				if (zf && zip_fread(zf, &more, 1) < 0) r = -1;
				if (zf) zip_fclose(zf);
				auto ec = zip_file_get_comment(z, zip_uint64_t(i), nullptr, 0);
				j += (i ? "," : "") + std::string("{\"n\":") + codes(std::string(sb.name)) + ",\"d\":" + js(r == zip_int64_t(s.size()) ? word(s) : "unreadable") + ",\"c\":" + codes(std::string(ec ? ec : "")) + "}";
			}
			zip_discard(z);
		}
	}
	Ev("disk").s("f", f).j("pw", codes(pw)).s("st", st).j("comment", codes(comment)).j("entries", j + "]").done();
}

static std::string text(std::istream & i) { return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::string utf8(std::u32istream & in) {
	std::string s;
	char32_t c;
	while (in.get(c)) {
		if (c < 0x80) s += char(c);
		else if (c < 0x800) { s += char(0xc0 | (c >> 6)); s += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
		else { s += char(0xf0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
	}
	return s;
}

static std::string entry(const Resource::ZipEntry & e, const std::string & f) {
	std::string n, d1, d2, d3, d4, c;
	bool isDir = false, same = true;
	long size = -1;
	auto r = outcome([&] {
		n = e.name();
		isDir = e.isEntryDirectory();
		size = long(e.size());
		c = e.readEntryComment();
		auto u = e.clone();
		same = e.isEntryFile() == !isDir && e.toUriString() == Resource::File(path(f)).toUriString() + "#" + n && e.toRawString() == e.toUriString() && *u == e && e == e && u->hashcode() == e.hashcode()
			&& e.canReadFrom() && !e.canWriteTo() && !e.isIterable() && !e.isRecursivelyIterable();
	});
	auto rd = outcome([&] {
		auto v = e.readEntryAsBytes();
		d1 = word(std::string(v.begin(), v.end()));
		d2 = word(e.readEntryAsString());
		if (!isDir) {
			d3 = word(text(e.byteReadResource()->readStream()));
			auto br = e.getByteReadResource();
			same = same && word(text(br.readStream())) == d3;
			// What cannot be decoded is not text.
			if (d1[0] == 'b') d4 = d1; else { auto ur = e.utf8To32ReadResource(); d4 = word(utf8(ur->readStream())); same = same && ur->uri() == e; }
			same = same && br.uri() == e;
			// The resources are still those of the entry when the URI is gone.
			auto u = e.clone();
			auto r1 = u->byteReadResource();
			auto r2 = d1[0] == 'b' ? nullptr : u->utf8To32ReadResource();
			u.reset();
			same = same && r1->uri() == e && (!r2 || r2->uri() == e) && word(text(r1->readStream())) == d1;
		} else d3 = d4 = d1;
	});
	return "{\"res\":" + js(r) + ",\"n\":" + codes(n) + ",\"dir\":" + (isDir ? "true" : "false") + ",\"same\":" + (same ? "true" : "false") + ",\"size\":" + std::to_string(size)
		+ ",\"c\":" + codes(c) + ",\"read\":" + js(rd) + ",\"d\":" + js(std::vector<std::string> { d1, d2, d3, d4 }) + "}";
}

static void run(const Script & s) {
	char t[] = "zipXXXXXX";
	dir = std::string(get_current_dir_name()) + "/" + mkdtemp(t);
	words.clear();
	words[""] = "t0";
	for (auto & o : s.ops) for (auto & w : o) if (w.find(':') != std::string::npos) { auto p = split(w, ':'); if (p.size() == 4 && !p[1].empty()) content(p[1]); }
	{
		std::unique_ptr<Util::Unzipper> u;
		std::unique_ptr<Util::Zipper> z;
		// The memory of the objects has been used before.
		auto fresh = [&] {
			z.reset();
			u.reset();
			void * ju = ::operator new(sizeof(Util::Unzipper));
			void * jz = ::operator new(sizeof(Util::Zipper));
			memset(ju, 0x5a, sizeof(Util::Unzipper));
			memset(jz, 0x5a, sizeof(Util::Zipper));
			u.reset(new (ju) Util::Unzipper);
			z.reset(new (jz) Util::Zipper);
		};
		fresh();
		for (auto & o : s.ops) {
			auto & n = o[0];
			auto at = [&] (size_t i) { return i < o.size() ? o[i] : std::string(); };
			auto h = [&] (size_t i) -> Util::Unzipper & { return at(i) == "u" ? *u : (Util::Unzipper &) *z; };
			if (n == "fresh") { fresh(); Ev("fresh").done(); }
			else if (n == "fixture") fixture(o);
			else if (n == "junk") {
				std::string r = at(2) == "text" ? "this is no archive" : at(2) == "empty" ? "" : "";
				if (at(2) == "dir") mkdir(path(at(1)).c_str(), 0755);
				else if (at(2) == "cut") { auto b = slurp(at(1)); spill(at(1), b.substr(0, b.size() > 30 ? b.size() - 23 : 0)); }
				else spill(at(1), r);
				Ev("junk").s("f", at(1)).s("how", at(2)).done();
			} else if (n == "damage") {
				// One byte of the data of the entry is not what it was.
				auto b = slurp(at(1));
				std::string name = at(2);
				bool did = false;
				for (size_t i = 0; i + 30 < b.size(); ++i) {
					if (b.compare(i, 4, "PK\3\4") != 0) continue;
					size_t nl = (unsigned char) b[i + 26] + 256u * (unsigned char) b[i + 27], xl = (unsigned char) b[i + 28] + 256u * (unsigned char) b[i + 29];
					if (b.compare(i + 30, nl, name) != 0 || nl != name.size()) continue;
					size_t p = i + 30 + nl + xl + std::stoul(at(3));
					if (p < b.size()) { b[p] = char(b[p] ^ 0x55); did = true; }
					break;
				}
				spill(at(1), b);
				Ev("damage").s("f", at(1)).j("n", codes(name)).b("did", did).done();
			} else if (n == "disk") disk(at(1), at(2));
			else if (n == "open") {
				std::string r;
				if (o.size() > 4) r = outcome([&] { h(1).open(Resource::File(path(at(2))), at(3) == "verify", at(4)); });
				else r = outcome([&] { h(1).open(Resource::File(path(at(2))), at(3) == "verify"); });
				Ev("open").s("w", at(1)).s("f", at(2)).j("pw", codes(at(4))).s("res", r).b("open", h(1).isOpen()).done();
			} else if (n == "close") {
				auto r = outcome([&] { h(1).close(); });
				Ev("close").s("w", at(1)).s("res", r).b("open", h(1).isOpen()).done();
			} else if (n == "commit") {
				auto r = outcome([&] { z->commit(); });
				Ev("commit").s("res", r).b("open", z->isOpen()).done();
			} else if (n == "put") {
				std::string r;
				if (at(1) == "string") {
					auto c = std::make_unique<std::string>(content(at(3)));
					r = outcome([&] { z->putEntry(at(2), *c); });
					std::fill(c->begin(), c->end(), '!');
				} else if (at(1) == "bytes") {
					auto & w = content(at(3));
					auto c = std::make_unique<std::vector<char>>(w.begin(), w.end());
					r = outcome([&] { z->putEntry(at(2), *c); });
					std::fill(c->begin(), c->end(), '!');
				} else {
					static int k = 0;
					std::string f = at(1) == "later" ? "later" : "src" + std::to_string(k++);
					if (at(1) == "later") { unlink(path(f).c_str()); }
					else spill(f, content(at(3)));
					auto c = std::make_unique<Resource::File>(path(f));
					r = outcome([&] { z->putEntry(at(2), *c); });
				}
				Ev("put").s("how", at(1)).j("n", codes(at(2))).s("d", word(content(at(3)))).n("s", long(content(at(3)).size())).s("res", r).done();
			} else if (n == "provide") { spill("later", content(at(1))); Ev("provide").s("d", word(content(at(1)))).done(); }
			else if (n == "putdir") { auto r = outcome([&] { z->putDirectory(at(1)); }); Ev("putdir").j("n", codes(at(1))).s("res", r).done(); }
			else if (n == "rename") { auto r = outcome([&] { z->renameEntry(at(1), at(2)); }); Ev("rename").j("n", codes(at(1))).j("to", codes(at(2))).s("res", r).done(); }
			else if (n == "delete") { auto r = outcome([&] { z->deleteEntry(at(1)); }); Ev("delete").j("n", codes(at(1))).s("res", r).done(); }
			else if (n == "comment") { auto r = outcome([&] { z->putArchiveComment(at(1)); }); Ev("comment").j("s", codes(at(1))).s("res", r).done(); }
			else if (n == "nocomment") { auto r = outcome([&] { z->deleteComment(); }); Ev("comment").j("s", "[]").s("res", r).done(); }
			else if (n == "has") {
				bool v = false;
				long long i = -2;
				auto r = outcome([&] { v = h(1).hasEntry(at(2)); i = h(1).getEntryIndex(at(2)); });
				Ev("has").s("w", at(1)).j("n", codes(at(2))).s("res", r).b("v", v).n("i", long(i)).done();
			} else if (n == "state") {
				std::string c, p;
				long long k = -1;
				std::vector<std::string> names;
				auto rp = outcome([&] { p = h(1).getPath().toRawString(); });
				auto r1 = outcome([&] { c = h(1).readArchiveComment(); });
				auto r2 = outcome([&] { k = h(1).entryCount(); });
				auto r3 = outcome([&] { names = h(1).entryNames(); });
				std::string j = "[";
				for (auto & x : names) j += (j.size() > 1 ? "," : "") + codes(x);
				if (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0) p = p.substr(dir.size() + 1);
				Ev("state").s("w", at(1)).b("open", h(1).isOpen()).s("path", p).l("res", { r1, r2, r3 }).j("comment", codes(c)).n("count", long(k)).j("names", j + "]").done();
			} else if (n == "read") {
				Util::ZipEntryInfo info {};
				std::string d1, d2, c;
				auto r1 = outcome([&] { auto v = h(1).readEntryAsBytes(at(2)); d1 = word(std::string(v.begin(), v.end())); });
				auto r2 = outcome([&] { d2 = word(h(1).readEntryAsString(at(2))); });
				auto r3 = outcome([&] { h(1).getEntryInfo(at(2), info); });
				auto r4 = outcome([&] { c = h(1).readEntryComment(at(2)); });
				Ev("read").s("w", at(1)).j("n", codes(at(2))).l("res", { r1, r2, r3, r4 }).s("d1", d1).s("d2", d2).j("name", codes(info.name)).n("size", long(info.uncompressedSize)).n("i", long(info.index)).j("c", codes(c)).done();
			} else if (n == "readi") {
				Util::ZipEntryInfo info {};
				long long i = std::stoll(at(2));
				std::string d1, d2, c, nm;
				auto r1 = outcome([&] { auto v = h(1).readEntryAsBytes(i); d1 = word(std::string(v.begin(), v.end())); });
				auto r2 = outcome([&] { d2 = word(h(1).readEntryAsString(i)); });
				auto r3 = outcome([&] { h(1).getEntryInfo(i, info); });
				auto r4 = outcome([&] { c = h(1).readEntryComment(i); });
				auto r5 = outcome([&] { nm = h(1).getEntryName(i); });
				Ev("readi").s("w", at(1)).n("at", long(i)).l("res", { r1, r2, r3, r4, r5 }).s("d1", d1).s("d2", d2).j("name", codes(info.name)).j("name2", codes(nm)).n("size", long(info.uncompressedSize)).n("i", long(info.index)).j("c", codes(c)).done();
			} else if (n == "iter") {
				// The entries of a zip file URI, in the ways to iterate it.
				Resource::File file(path(at(2)));
				std::vector<std::string> es;
				auto r = outcome([&] {
					Resource::ZipFile zf(file, at(3));
					if (at(1) == "direct") {
						auto it = zf.recursiveZipFileIterator(false, at(3));
						while (it.hasNext()) es.push_back(entry(it.next(), at(2)));
					} else {
						std::unique_ptr<Resource::Uri> c;
						if (at(1) == "uri") c = zf.clone();
						else if (at(1) == "moved") c = std::make_unique<Resource::ZipFile>(std::move(zf));
						else { auto x = std::make_unique<Resource::ZipFile>(Resource::File("nothing")); *x = zf; c = std::move(x); }
						auto it = c->recursiveIterator();
						while (it->hasNext()) { auto e = it->next(); es.push_back(entry(dynamic_cast<Resource::ZipEntry &>(*e), at(2))); }
					}
				});
				std::string j = "[";
				for (auto & e : es) j += (j.size() > 1 ? "," : "") + e;
				Ev("iter").s("how", at(1)).s("f", at(2)).j("pw", codes(at(3))).s("res", r).j("entries", j + "]").done();
			} else if (n == "gzip") {
				auto & c = content(at(2));
				std::string r1, r2, d;
				spill("in", c);
				Resource::File in(path("in")), gz(path("gz")), out(path("out"));
				unlink(path("out").c_str());
				r1 = outcome([&] {
					if (at(1) == "file") Util::GZip::gzip(in, gz);
					else if (at(1) == "string") Util::GZip::gzip(c, gz);
					else { std::istringstream is(c); Util::GZip::gzip(is, gz); }
				});
				if (at(4) == "cut") { auto b = slurp("gz"); spill("gz", b.substr(0, b.size() - 1 - b.size() / 3)); }
				if (at(4) == "flip") { auto b = slurp("gz"); b[b.size() / 2] = char(b[b.size() / 2] ^ 0x10); spill("gz", b); }
				if (at(4) == "text") spill("gz", "no gzip");
				bool bad = false;
				r2 = outcome([&] {
					if (at(3) == "file") { Util::GZip::gunzip(gz, out); d = slurp("out"); }
					else if (at(3) == "string") Util::GZip::gunzip(gz, d);
					else { std::unique_ptr<std::istream> is; Util::GZip::gunzip(gz, is); std::string x(100000, 0); std::fill(x.begin(), x.end(), 'q'); d = text(*is); bad = is->bad(); }
				});
				// Whether the file is a gzip stream of the content, from zlib.
				std::string plain;
				bool ok = false;
				{
					auto b = slurp("gz");
					if (b.size() > 18) {
						auto g = gzopen(path("gz").c_str(), "rb");
						std::vector<char> buf(c.size() + 1);
						int k = gzread(g, buf.data(), unsigned(buf.size()));
						ok = k == int(c.size()) && std::string(buf.data(), c.size()) == c && (unsigned char) b[0] == 0x1f;
						gzclose(g);
					}
				}
				Ev("gzip").s("from", at(1)).s("to", at(3)).s("d", word(content(at(2)))).s("damage", at(4)).s("res1", r1).s("res2", r2).b("stream", ok).b("bad", bad).s("out", word(d)).done();
			}
		}
	}
	boost::filesystem::remove_all(dir);
}

int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
