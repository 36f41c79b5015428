// URI parsing, path normalisation, appending and resolution.
#include <Balau/Application/Injector.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <Balau/Resource/UriDispatcher.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Util/Zip.hpp>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include "seq.hpp"

using namespace seq;
using namespace Balau;
using namespace Balau::Resource;
namespace fs = std::filesystem;

struct Kind : public UriDispatcher {
	std::string kind = "none";
	void dispatch(const File &) override { kind = "file"; }
	void dispatch(const Http &) override { kind = "http"; }
	void dispatch(const Https &) override { kind = "https"; }
	void dispatch(const StringUri &) override { kind = "string"; }
	void dispatch(const ZipEntry &) override { kind = "entry"; }
};

static std::string kindOf(const Uri & u) { Kind k; u.dispatch(k); return k.kind == "file" && dynamic_cast<const ZipFile *>(&u) ? "zip" : k.kind; }

template <typename F> static void result(Ev & e, const std::string & pre, F && f) {
	std::string kind, raw;
	try {
		std::unique_ptr<Uri> u = f();
		kind = kindOf(*u);
		raw = kind == "entry" ? dynamic_cast<ZipEntry &>(*u).name() : u->toRawString();
	} catch (...) { kind = exceptionName(); }
	e.s((pre + "kind").c_str(), kind).j((pre + "raw").c_str(), codes(raw));
}

static std::unique_ptr<Uri> make(const std::string & kind, const std::string & s) {
	if (kind == "http") return std::unique_ptr<Uri>(new Http(std::string_view(s)));
	if (kind == "https") return std::unique_ptr<Uri>(new Https(std::string_view(s)));
	if (kind == "string") return std::unique_ptr<Uri>(new StringUri(s));
	if (kind == "zip") return std::unique_ptr<Uri>(new ZipFile(File(s)));
	return std::unique_ptr<Uri>(new File(s));
}

static void parse(const std::string & s, const std::string & how) {
	Ev e("parse");
	e.j("u", codes(s));
	std::unique_ptr<UriComponents> c;
	std::string r = outcome([&] {
		std::unique_ptr<UriComponents> a(how == "http" ? new UriComponents(static_cast<const Uri &>(Http(std::string_view(s)))) : new UriComponents(s));
		if (how == "copy") c.reset(new UriComponents(*a));
		else if (how == "move") c.reset(new UriComponents(std::move(*a)));
		else if (how == "assign") { c.reset(new UriComponents(std::string("x-y://someone@a.host:99/p?q#f"))); *c = *a; }
		else if (how == "massign") { c.reset(new UriComponents(std::string("z:"))); *c = std::move(*a); }
		else c = std::move(a);
	});
	e.s("res", r);
	if (r == "ok") {
		// Accessors of an object that is not used for anything else.
		std::string a = outcome([&] {
			e.j("scheme", codes(c->scheme())).j("user", codes(c->userInfo())).j("host", codes(c->host())).n("port", c->port()).j("path", codes(c->path()))
			 .j("query", codes(c->query())).j("fragment", codes(c->fragment())).j("pqf", codes(c->pathQueryFragment())).j("text", codes(c->getUri()))
			 .b("hasAuthority", c->hasAuthority()).b("hasUser", c->hasUserInfo()).b("hasHost", c->hasHost()).b("hasPort", c->hasPort()).b("hasQuery", c->hasQuery()).b("hasFragment", c->hasFragment())
			 .b("same", *c == UriComponents(s) && Resource::toString(*c) == s).b("other", *c == UriComponents(std::string("z:")));
		});
		e.s("acc", a);
	}
	e.done();
}

static std::string g_dir;

static void run(const Script & sc) {
	char tmp[] = "uriXXXXXX";
	if (!mkdtemp(tmp)) exit(9);
	std::string back = fs::current_path();
	fs::current_path(tmp);
	fs::create_directories("d/e");
	fs::create_directories("g.zip");
	std::ofstream("d/f") << "x";
	std::ofstream("d/e/f.x") << "x";
	for (auto & o : sc.ops) {
		auto & op = o[0];
		if (op == "parse") parse(o[1], o.size() > 2 ? o[2] : "");
		else if (op == "long") {
			std::string s = o[1];
			s += std::string(size_t(atoi(o[2].c_str())) - s.size() - o[3].size(), 'a') + o[3];
			std::string path, frag;
			std::string r = outcome([&] { UriComponents c(s); path = std::to_string(c.path().size()); frag = std::string(c.fragment()); });
			Ev("long").n("n", atoi(o[2].c_str())).n("pre", (int) o[1].size()).n("post", (int) o[3].size()).s("res", r).s("path", path).done();
		} else if (op == "norm") {
			std::string s = o.size() > 1 ? o[1] : "", r;
			std::string st = outcome([&] { r = UriComponents::normalizePath(s); });
			Ev("norm").j("p", codes(s)).s("res", st).j("out", codes(r)).done();
		} else if (op == "text") {
			Ev e("text");
			e.j("t", codes(o[1]));
			std::unique_ptr<Uri> u;
			std::shared_ptr<Uri> s; std::shared_ptr<const Uri> sc2;
			result(e, "", [&] { fromString(u, o[1]); return u->clone(); });
			result(e, "s", [&] { fromString(s, o[1]); return s->clone(); });
			result(e, "c", [&] { fromString(sc2, o[1]); return sc2->clone(); });
			// The URI of the text of the URI.
			result(e, "b", [&] { std::unique_ptr<Uri> v; fromString(v, u->toUriString()); return v; });
			e.done();
		} else if (op == "append") {
			Ev e("append");
			e.s("base", o[1]).j("t", codes(o[2])).j("c", codes(o[3]));
			result(e, "", [&] { return make(o[1], o[2])->append(o[3]); });
			e.done();
		} else if (op == "resolve") {
			Ev e("resolve");
			auto b = make(o[1], o[2]);
			std::string ref = o.size() > 3 ? o[3] : "";
			e.s("base", o[1]).j("t", codes(o[2])).j("ref", codes(ref)).b("dir", o[1] == "file" && fs::is_directory(o[2]));
			if (o.size() > 4 && o[4] == "direct") result(e, "", [&] {
				if (o[1] == "http") return UriResolve::resolve(dynamic_cast<Http &>(*b), ref);
				if (o[1] == "https") return UriResolve::resolve(dynamic_cast<Https &>(*b), ref);
				if (o[1] == "string") return UriResolve::resolve(dynamic_cast<StringUri &>(*b), ref);
				if (o[1] == "zip") return UriResolve::resolve(dynamic_cast<ZipFile &>(*b), ref);
				return UriResolve::resolve(dynamic_cast<File &>(*b), ref);
			}); else result(e, "", [&] { return UriResolve::resolve(*b, ref); });
			e.done();
		} else if (op == "entry") {
			// entry ref name...: the first name is the entry that is the base.
			std::string z = "e.zip";
			{
				Util::Zipper zip;
				zip.open(File(z), false);
				for (size_t i = 2; i < o.size(); ++i) if (o[i].back() == '/') zip.putDirectory(o[i]); else zip.putEntry(o[i], std::string("v"));
				zip.commit();
			}
			Ev e("entry");
			std::string names = "[";
			for (size_t i = 2; i < o.size(); ++i) names += (i > 2 ? "," : "") + codes(o[i]);
			e.j("ref", codes(o[1])).j("names", names + "]");
			result(e, "", [&] {
				ZipFile f { File(z) };
				auto it = f.recursiveZipFileIterator();
				std::unique_ptr<Uri> u;
				while (it.hasNext()) {
					ZipEntry n = it.next();
					if (n.name() != o[2]) continue;
					auto v = UriResolve::resolve(n, o[1]);
					// The entry refers to the archive of the iterator.
					if (kindOf(*v) == "entry") u.reset(new StringUri(dynamic_cast<ZipEntry &>(*v).name())); else u = std::move(v);
				}
				return u;
			});
			e.done();
			unlink(z.c_str());
		} else if (op == "eq") {
			auto a = make(o[1], o[2]), b = make(o[3], o[4]);
			Ev("eq").s("ak", o[1]).j("a", codes(o[2])).s("bk", o[3]).j("b", codes(o[4])).b("eq", *a == *b).b("hash", a->hashcode() == b->hashcode())
				.b("clone", *a->clone() == *a && a->clone()->hashcode() == a->hashcode() && *a->cloneToShared() == *b == (*a == *b)).done();
		}
	}
	fs::current_path(back);
	fs::remove_all(fs::absolute(tmp));
}

int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
