// Environment configurations: property and type specification texts in, the
// bindings of the injector out.
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include "seq.hpp"
#include <cmath>
#include <sys/stat.h>
using namespace seq;
using namespace Balau;

struct Word { std::string s; };
inline void fromString(Word & w, std::string_view v) {
	if (!v.empty() && v[0] == '!') ThrowBalauException(Exception::ConversionException, "No word.");
	w.s = std::string(v);
}
struct Shape { virtual ~Shape() = default; virtual std::string name() const = 0; virtual std::unique_ptr<Shape> copy() const = 0; };
struct Round : Shape {
	static int & live() { static int n = 0; return n; }
	std::string s;
	Round(std::string v) : s(std::move(v)) { ++live(); }
	~Round() override { --live(); s = "gone"; }
	std::string name() const override { return s; }
	std::unique_ptr<Shape> copy() const override { return std::unique_ptr<Shape>(new Round(s)); }
};
inline void fromString(std::unique_ptr<Shape> & p, std::string_view v) {
	if (!v.empty() && v[0] == '!') ThrowBalauException(Exception::ConversionException, "No shape.");
	p.reset(new Round(std::string(v)));
}

struct Hard { std::vector<std::string> path; std::string kind, name, type, def; bool has; std::vector<Hard> kids; };
static UniquePropertyCloner<Shape> cloner() { return [] (const std::unique_ptr<const Shape> & p) { return p->copy(); }; }

struct Conf : EnvironmentConfiguration {
	using EnvironmentConfiguration::EnvironmentConfiguration;
	mutable const std::vector<Hard> * hard = nullptr;
	mutable bool own = false;
	using P = Impl::PropertyBindingBuilderFactoryPtr;
	template <typename T> P val(const Hard & h) const {
		if (!h.has) return value<T>(h.name);
		T v;
		fromString(v, h.def);
		return value<T>(h.name, v);
	}
	template <typename T> P uni(const Hard & h) const {
		if (!h.has) return unique<T>(h.name);
		std::unique_ptr<T> v;
		fromString(v, h.def);
		return unique<T>(h.name, std::move(v));
	}
	P make(const Hard & h) const {
		if (h.kind == "block") {
			std::vector<P> k;
			for (auto & c : h.kids) k.push_back(make(c));
			switch (k.size()) {
				case 1: return group(h.name, k[0]);
				case 2: return group(h.name, k[0], k[1]);
				case 3: return group(h.name, k[0], k[1], k[2]);
				default: return group(h.name, k[0], k[1], k[2], k[3]);
			}
		}
		auto & t = h.type;
		if (t == "byte") return val<signed char>(h);
		if (t == "short") return val<short>(h);
		if (t == "int") return val<int>(h);
		if (t == "long") return val<long long>(h);
		if (t == "ubyte") return val<unsigned char>(h);
		if (t == "ushort") return val<unsigned short>(h);
		if (t == "uint") return val<unsigned int>(h);
		if (t == "ulong") return val<unsigned long long>(h);
		if (t == "float") return val<float>(h);
		if (t == "double") return val<double>(h);
		if (t == "string") return val<std::string>(h);
		if (t == "char") return val<char>(h);
		if (t == "boolean") return val<bool>(h);
		if (t == "word") return val<Word>(h);
		if (t == "uri") return uni<Resource::Uri>(h);
		own = !own;
		if (own) return uni<Shape>(h);
		return h.has ? unique<Shape>(h.name, cloner(), std::unique_ptr<Shape>(new Round(h.def))) : unique<Shape>(h.name, cloner());
	}
	void configure() const override { if (hard) for (auto & h : *hard) make(h); }
};

static std::string text(const std::string & s) { return s; }
static std::string text(char c) { return std::string(1, c); }
static std::string text(bool b) { return b ? "1" : "0"; }
static std::string text(const Word & w) { return w.s; }
static std::string text(float) { return ""; }
static std::string text(double) { return ""; }
template <typename T> std::string text(T n) { return std::to_string(n); }
static long thousandths(double d) { return std::fabs(d) < 2000000 ? std::lround(d * 1000) : -2000000000; }
template <typename T> long frac(const T &) { return 0; }
static long frac(const float & d) { return thousandths(d); }
static long frac(const double & d) { return thousandths(d); }

// The injector, as composites are asked.
struct Root {
	const Injector & i;
	template <typename T> bool hasValue(std::string_view n) const { return i.hasBinding<T>(n); }
	template <typename T> bool hasUnique(std::string_view n) const { return i.hasBinding<std::unique_ptr<T>>(n); }
	template <typename T> T getValue(std::string_view n) const { return i.getValue<T>(n); }
	template <typename T> T getValue(std::string_view n, const T & d) const { return i.getValue<T>(n, d); }
	template <typename T> std::unique_ptr<T> getUnique(std::string_view n) const { return i.getUnique<T>(n); }
};

struct Dump {
	std::vector<std::string> out;
	std::vector<std::string> & names;
	std::string wrong;
	std::shared_ptr<EnvironmentProperties> last;
	explicit Dump(std::vector<std::string> & n) : names(n) {}
	void add(const std::vector<std::string> & path, const char * type, const std::string & v, long n) {
		std::string r = "[[";
		for (size_t i = 0; i < path.size(); ++i) r += (i ? "," : "") + codes(path[i]);
		out.push_back(r + "]," + js(type) + "," + codes(v) + "," + std::to_string(n) + "]");
	}
	void expect(bool b, const char * what) { if (!b && wrong.empty()) wrong = what; }
	static bool none(const std::function<void ()> & f) { return outcome(f) == "NoBindingException"; }

	template <typename T, typename O> bool val(const O & o, const std::vector<std::string> & path, const char * type) {
		const std::string & n = path.back();
		if (!o.template hasValue<T>(n)) {
			expect(none([&] { (void) o.template getValue<T>(n); }), "getValue of nothing");
			return false;
		}
		T v = o.template getValue<T>(n);
		T w = o.template getValue<T>(n, T());
		expect(text(v) == text(w) && frac(v) == frac(w), "getValue with a default");
		add(path, type, text(v), frac(v));
		return true;
	}
	static std::string uniq(const Resource::Uri & u) { return u.toRawString(); }
	static std::string uniq(const Shape & s) { return s.name(); }
	static std::unique_ptr<Shape> other(const Shape *) { return std::unique_ptr<Shape>(new Round("other")); }
	static std::unique_ptr<Resource::Uri> other(const Resource::Uri *) { return std::unique_ptr<Resource::Uri>(new Resource::File("other")); }
	template <typename T, typename O> bool uni(const O & o, const std::vector<std::string> & path, const char * type) {
		const std::string & n = path.back();
		if (!o.template hasUnique<T>(n)) {
			expect(none([&] { (void) o.template getUnique<T>(n); }), "getUnique of nothing");
			return false;
		}
		auto v = o.template getUnique<T>(n);
		auto w = o.template getUnique<T>(n);
		expect(v && w && v.get() != w.get() && uniq(*v) == uniq(*w), "two unique values");
		v.reset();
		auto x = o.template getUnique<T>(n);
		expect(x && uniq(*x) == uniq(*w), "a unique value after another");
		add(path, type, uniq(*w), 0);
		return true;
	}
	template <typename O> int all(const O & o, const std::vector<std::string> & p) {
		int k = 0;
		k += val<signed char>(o, p, "byte") + val<short>(o, p, "short") + val<int>(o, p, "int") + val<long long>(o, p, "long");
		k += val<unsigned char>(o, p, "ubyte") + val<unsigned short>(o, p, "ushort") + val<unsigned int>(o, p, "uint") + val<unsigned long long>(o, p, "ulong");
		k += val<float>(o, p, "float") + val<double>(o, p, "double") + val<std::string>(o, p, "string") + val<char>(o, p, "char") + val<bool>(o, p, "boolean");
		k += val<Word>(o, p, "word") + uni<Resource::Uri>(o, p, "uri") + uni<Shape>(o, p, "shape");
		return k;
	}
	void props(const std::shared_ptr<EnvironmentProperties> & e, std::vector<std::string> path) {
		add(path, "group", "", 0);
		int items = 0, seen = 0;
		std::set<std::string> have;
		// An iterator of another group, assigned.
		auto it = (last ? *last : *e).begin();
		it = e->begin();
		last = e;
		for (; it != e->end(); ++it) {
			auto item = *it;
			++items;
			std::string n(item.getName());
			have.insert(n);
			if (item.isComposite()) {
				++seen;
				expect(e->hasComposite(n) && item.getComposite() == e->getComposite(n) && item.getCompositeOrNull() == item.getComposite(), "composite item");
			} else {
				expect(!item.getCompositeOrNull(), "composite of a value item");
				if (item.isValue<int>()) expect(item.getValue<int>() == e->getValue<int>(n) && item.getValue<int>(5) == e->getValue<int>(n), "int item");
				else expect(item.getValue<int>(5) == 5 && none([&] { (void) item.getValue<int>(); }), "item that is no int");
				if (item.isValue<std::string>()) expect(item.getValue<std::string>() == e->getValue<std::string>(n), "string item");
				if (item.isUnique<Shape>()) expect(item.getUnique<Shape>()->name() == e->getUnique<Shape>(n)->name(), "unique item");
				expect(item.isValue<std::string>() == (item.getKey() == Impl::BindingKey::createValueKey<std::string>(n)), "key of an item");
			}
		}
		for (auto & n : names) have.insert(n);
		for (auto & n : have) {
			path.push_back(n);
			seen += all(*e, path);
			if (e->hasComposite(n)) props(e->getComposite(n), path);
			else expect(!e->getCompositeOrNull(n) && none([&] { (void) e->getComposite(n); }), "composite of nothing");
			if (!e->hasValue<int>(n)) expect(e->getValue<int>(n, 77) == 77, "default of a value");
			if (!e->hasUnique<Shape>(n)) expect(e->getUnique<Shape>(n, other((Shape *) nullptr))->name() == "other", "default of a unique value");
			path.pop_back();
		}
		expect(items == seen, "items of a composite");
	}
	void root(const Injector & i) {
		for (auto & n : names) {
			std::vector<std::string> p{n};
			all(Root{i}, p);
			if (i.hasBinding<std::shared_ptr<EnvironmentProperties>>(n)) {
				auto e = i.getShared<EnvironmentProperties>(n);
				expect(e == i.getShared<EnvironmentProperties>(n), "one instance of a composite");
				props(e, p);
			}
		}
	}
	std::string json() {
		std::string r = "[";
		for (size_t i = 0; i < out.size(); ++i) r += (i ? "," : "") + out[i];
		return r + "]";
	}
};

static std::string base, dir;
static void put(const std::string & name, const std::string & data) {
	boost::filesystem::create_directories(boost::filesystem::path(dir + "/" + name).parent_path());
	std::ofstream f(dir + "/" + name, std::ios::binary);
	f << data;
}

static void run(const Script & s) {
	std::vector<std::pair<std::string, std::string>> files;
	std::vector<Hard> hard;
	std::string hardJson;
	std::vector<std::string> names, above;
	dir = base + "/" + std::to_string(getpid());
	mkdir(dir.c_str(), 0700);
	EnvironmentConfiguration::registerUnsignedTypes();
	EnvironmentConfiguration::registerValueType<Word>("word");
	EnvironmentConfiguration::registerUniqueType<Shape>("shape", cloner());
	auto content = [&] (const std::string & n) { for (auto & f : files) if (f.first == n) return f.second; return std::string(); };
	for (auto & o : s.ops) {
		if (o[0] == "file") {
			files.emplace_back(o[1], o.size() > 2 ? o[2] : "");
			put(o[1], files.back().second);
		} else if (o[0] == "hard") {
			// hard depth kind name type [default]
			Hard h;
			size_t d = std::stoul(o[1]);
			h.kind = o[2]; h.name = o[3]; h.type = o[4]; h.has = o.size() > 5; h.def = h.has ? o[5] : "";
			auto * v = &hard;
			above.resize(d);
			for (size_t i = 0; i < d; ++i) v = &v->back().kids;
			v->push_back(h);
			above.push_back(h.name);
			hardJson += std::string(hardJson.empty() ? "" : ",") + "[[";
			for (size_t i = 0; i < above.size(); ++i) hardJson += (i ? "," : "") + codes(above[i]);
			hardJson += "]," + js(h.kind) + "," + js(h.type) + "," + (h.has ? "true" : "false") + "," + codes(h.def) + "]";
		} else if (o[0] == "names") {
			names.assign(o.begin() + 1, o.end());
		} else if (o[0] == "build") {
			// build way inputs specs
			auto ins = split(o[2], ','), sps = split(o[3], ',');
			if (o[2] == "-") ins.clear();
			if (o[3] == "-") sps.clear();
			using namespace Resource;
			auto file = [&] (const std::string & n) { return File(dir + "/" + n); };
			auto ptr = [&] (const std::string & n) { return std::shared_ptr<Uri>(new File(dir + "/" + n)); };
			auto str = [&] (const std::string & n) { return std::shared_ptr<Uri>(new StringUri(content(n))); };
			std::string bound = "[]", bound2 = "[]", wrong, res2 = "ok";
			const int before = Round::live();
			auto & w = o[1];
			std::string res = outcome([&] {
				std::unique_ptr<Conf> c;
				if (w == "files") {
					std::vector<File> a, b;
					for (auto & n : ins) a.push_back(file(n));
					for (auto & n : sps) b.push_back(file(n));
					c.reset(new Conf(a, b));
				} else if (w == "ptrs" || w == "strings") {
					std::vector<std::shared_ptr<Uri>> a, b;
					for (auto & n : ins) a.push_back(w == "ptrs" ? ptr(n) : str(n));
					for (auto & n : sps) b.push_back(w == "ptrs" ? ptr(n) : str(n));
					c.reset(new Conf(a, b));
				} else if (w == "uri") {
					if (sps.empty()) c.reset(new Conf(static_cast<const Uri &>(file(ins[0]))));
					else if (sps.size() == 1) c.reset(new Conf(file(ins[0]), file(sps[0])));
					else if (sps.size() == 2) c.reset(new Conf(file(ins[0]), file(sps[0]), file(sps[1])));
					else c.reset(new Conf(file(ins[0]), file(sps[0]), file(sps[1]), file(sps[2])));
				} else if (w == "ptr") {
					if (sps.empty()) c.reset(new Conf(ptr(ins[0])));
					else if (sps.size() == 1) c.reset(new Conf(ptr(ins[0]), ptr(sps[0])));
					else if (sps.size() == 2) c.reset(new Conf(ptr(ins[0]), ptr(sps[0]), ptr(sps[1])));
					else c.reset(new Conf(ptr(ins[0]), ptr(sps[0]), ptr(sps[1]), ptr(sps[2])));
				} else {
					if (sps.empty()) c.reset(new Conf(content(ins[0])));
					else c.reset(new Conf(content(ins[0]), content(sps[0])));
				}
				c->hard = &hard;
				auto dump = [&] (const EnvironmentConfiguration & conf, std::string & to) {
					auto i = Injector::create(conf);
					Dump d(names);
					d.root(*i);
					if (wrong.empty()) wrong = d.wrong;
					to = d.json();
				};
				dump(*c, bound);
				// The same configuration makes another injector.
				res2 = outcome([&] { dump(*c, bound2); });
			});
			if (res == "ok" && Round::live() != before && wrong.empty()) wrong = "shapes left over";
			std::string fj = "[", ij = "[", sj = "[";
			for (auto & f : files) fj += std::string(fj.size() > 1 ? "," : "") + "[" + codes(f.first) + "," + codes(f.second) + "]";
			for (auto & n : ins) ij += std::string(ij.size() > 1 ? "," : "") + codes(n);
			for (auto & n : sps) sj += std::string(sj.size() > 1 ? "," : "") + codes(n);
			Ev("build").s("way", w).j("files", fj + "]").j("ins", ij + "]").j("sps", sj + "]").j("hard", "[" + hardJson + "]")
				.s("res", res).j("bound", bound).s("res2", res2).j("bound2", bound2).s("wrong", wrong).done();
		}
	}
	boost::filesystem::remove_all(dir);
}
int main(int argc, char ** argv) {
	char t[] = "/tmp/vtenvXXXXXX";
	base = mkdtemp(t);
	int r = seq::main(argc, argv, run);
	boost::filesystem::remove_all(base);
	return r;
}
