// The logging system.  Every script runs in its own process.
#include <Balau/Type/ToString.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentProperties.hpp>
#include <Balau/Application/Impl/PropertyBindingBuilderFactory.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/System/ThreadName.hpp>
#include <ctime>
#include <pwd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <thread>
#include "seq.hpp"
using namespace seq;
using namespace Balau;

static std::vector<std::pair<std::string, std::string>> writes;
static std::vector<std::string> flushes, made;
static std::string dir;            // scratch directory for files, without the first slash
static std::string replace(std::string s, const std::string & a, const std::string & b) {
	for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
	return s;
}
static std::string real(const std::string & s) { return replace(s, "@D", dir); }
static std::string unreal(const std::string & s) { return replace(s, dir, "@D"); }

// A logging stream that records its calls.
struct Rec : LoggingStream {
	std::string uri;
	explicit Rec(std::string_view u) : uri(u) {}
	void write(const LoggingSystem::LoggerString & str) override { writes.emplace_back(uri, std::string(str.data(), str.size())); }
	void flush() override { flushes.push_back(uri); }
};
static LoggingStream * make(std::string_view uri) { made.emplace_back(uri); return new Rec(uri); }

// Stand-ins for the standard streams.
struct Std : std::streambuf {
	std::string name;
	explicit Std(const char * n) : name(n) {}
	void put(const char * s, size_t n) {
		if (!writes.empty() && writes.back().first == name) writes.back().second.append(s, n);
		else writes.emplace_back(name, std::string(s, n));
	}
	int overflow(int c) override { if (c != EOF) { char b = char(c); put(&b, 1); } return 0; }
	std::streamsize xsputn(const char * s, std::streamsize n) override { put(s, size_t(n)); return n; }
	int sync() override { return 0; }
};

static std::string times(time_t a, time_t b) {
	std::string r = "[";
	for (time_t t = a; t <= b && t < a + 30; ++t) {
		struct tm m;
		gmtime_r(&t, &m);
		r += t > a ? ",{" : "{";
		bool first = true;
		for (const char * f : { "%Y", "%y", "%m", "%d", "%H", "%M", "%S" }) {
			char x[16];
			strftime(x, sizeof x, f, &m);
			r += std::string(first ? "" : ",") + "\"" + f + "\":" + codes(std::string(x));
			first = false;
		}
		r += "}";
	}
	return r + "]";
}
// The fractions of seconds become one # each.
static std::string fraction(const std::string & s) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		r += s[i];
		if (s[i] != '.' || i < 2 || !isdigit(s[i - 1]) || !isdigit(s[i - 2])) continue;
		size_t n = i + 1;
		while (n < s.size() && n < i + 10 && isdigit(s[n])) ++n;
		if (n - i - 1 < 6) continue;
		r += '#';
		i = (n - i - 1 < 9 ? i + 6 : n - 1);
	}
	return r;
}
struct Ns { std::vector<std::string> ids; std::vector<std::pair<std::string, std::string>> props; };
static std::string idsOf(const std::string & n) { return n == "." || n.empty() ? "[]" : js(split(n, '.')); }
static std::string idCodes(const std::string & n) {
	std::string r = "[";
	if (n != "." && !n.empty()) for (auto & i : split(n, '.')) r += (r.size() > 1 ? "," : "") + codes(i);
	return r + "]";
}
static Logger * call(Logger * l, LoggingLevel level, const std::string & how, const std::string & msg, const std::vector<std::string> & ps, std::string & loc, int & evals) {
	auto f = [&] { ++evals; return msg; };
	std::function<std::string ()> fn = f;
	const char * c = msg.c_str();
	std::string_view v = msg;
	#define HERE BalauSourceCodeLocation("/a dir/sub/file.cpp", 1234)
	const std::string here = "/a dir/sub/file.cpp:1234";
	bool g = how[0] == 'g';
	std::string h = g ? how.substr(1) : how;
	if (h[0] == 'l') loc = here;
	if (h == "m") loc = "";
	#define ALL(...) do { \
		if (g) l->log(level, __VA_ARGS__); \
		else switch (level) { case LoggingLevel::TRACE: l->trace(__VA_ARGS__); break; case LoggingLevel::DEBUG: l->debug(__VA_ARGS__); break; \
		case LoggingLevel::INFO: l->info(__VA_ARGS__); break; case LoggingLevel::WARN: l->warn(__VA_ARGS__); break; default: l->error(__VA_ARGS__); } } while (0)
	#define P(M) do { switch (ps.size()) { case 0: ALL(M); break; case 1: ALL(M, ps[0]); break; case 2: ALL(M, ps[0], std::string_view(ps[1])); break; default: ALL(M, ps[0], ps[1].c_str(), ps[2]); } } while (0)
	#define L(M) do { switch (ps.size()) { case 0: ALL(HERE, M); break; case 1: ALL(HERE, M, ps[0]); break; case 2: ALL(HERE, M, ps[0], std::string_view(ps[1])); break; default: ALL(HERE, M, ps[0], ps[1].c_str(), ps[2]); } } while (0)
	#define MAC(M) do { const int line = __LINE__; loc = std::string(__FILE__) + ":" + std::to_string(line); switch (level) { case LoggingLevel::TRACE: M(Trace); break; case LoggingLevel::DEBUG: M(Debug); break; case LoggingLevel::INFO: M(Info); break; case LoggingLevel::WARN: M(Warn); break; default: M(Error); } } while (0)
	#define M0(X) BalauLog##X((*l), c)
	#define M1(X) BalauLog##X((*l), c, ps[0])
	#define M2(X) BalauLog##X((*l), c, ps[0], ps[1])
	#define M3(X) BalauLog##X((*l), c, ps[0], ps[1], ps[2])
	if (h == "c") P(c);
	else if (h == "v") P(v);
	else if (h == "f") ALL(fn);
	else if (h == "lc") L(c);
	else if (h == "lv") L(v);
	else if (h == "lf") ALL(HERE, fn);
	else if (h == "m") { if (ps.empty()) MAC(M0); else if (ps.size() == 1) MAC(M1); else if (ps.size() == 2) MAC(M2); else MAC(M3); }
	return l;
}
static LoggingLevel levelOf(const std::string & s) {
	return s == "trace" ? LoggingLevel::TRACE : s == "debug" ? LoggingLevel::DEBUG : s == "info" ? LoggingLevel::INFO : s == "warn" ? LoggingLevel::WARN : s == "error" ? LoggingLevel::ERROR : LoggingLevel::NONE;
}
static std::string lower(std::string s) { for (auto & c : s) c = char(tolower(c)); return s; }
static std::string outs() {
	std::string r = "[";
	for (auto & w : writes) r += (r.size() > 1 ? ",[" : "[") + codes(unreal(w.first)) + "," + codes(fraction(w.second)) + "]";
	return r + "]";
}
static std::string lists(const std::vector<std::string> & v) {
	std::string r = "[";
	for (auto & w : v) r += (r.size() > 1 ? "," : "") + codes(unreal(w));
	return r + "]";
}
static std::unique_ptr<::Balau::Impl::AbstractBinding> compositeOf(const std::string & ns, const Ns & n) {
	auto m = std::make_unique<::Balau::Impl::BindingMap>();
	for (auto & p : n.props) {
		if (p.first == "flush") {
			auto k = ::Balau::Impl::BindingKey::createValueKey<bool>(p.first);
			m->put(k, std::unique_ptr<::Balau::Impl::AbstractBinding>(new ::Balau::Impl::PrototypeBinding<bool>(::Balau::Impl::BindingKey(k), lower(p.second) == "true")));
		} else {
			auto k = ::Balau::Impl::BindingKey::createValueKey<std::string>(p.first);
			m->put(k, std::unique_ptr<::Balau::Impl::AbstractBinding>(new ::Balau::Impl::PrototypeBinding<std::string>(::Balau::Impl::BindingKey(k), p.second)));
		}
	}
	auto key = ::Balau::Impl::BindingKey::createSharedKey<EnvironmentProperties>(ns);
	return std::unique_ptr<::Balau::Impl::AbstractBinding>(new ::Balau::Impl::ProvidedSingletonBinding<EnvironmentProperties>(std::move(key), std::make_shared<EnvironmentProperties>(std::move(m))));
}

static std::map<std::string, std::string> included;
// The text and the meaning of a namespace block, or of @PATH, which includes a file (@~NAME one in the same directory).
static Ns blocks(const std::string & word, const std::string & via, size_t i, std::string & cj, std::string & text, std::string & name) {
	Ns x;
	if (word[0] == '@') {
		bool relative = word[1] == '~';
		text += "\n@" + (relative ? word.substr(2) : "file:///" + real(word.substr(1))) + "\n";
		const std::string e = included.at(relative ? "@D/" + word.substr(2) : word.substr(1));
		if (!e.empty()) cj += (cj.size() > 1 ? "," : "") + e;
		return x;
	}
	auto parts = split(word, ';');
	name = parts[0];
	cj += (cj.size() > 1 ? ",[" : "[") + idsOf(name) + ",[";
	text += "\n" + name + (i % 2 ? " {\n" : "{\n");
	for (size_t k = 1; k < parts.size(); ++k) {
		auto e = parts[k].find('=');
		std::string name = parts[k].substr(0, e), value = parts[k].substr(e + 1);
		if (via == "env" && name == "flush") value = lower(value);
		x.props.emplace_back(name, real(value));
		cj += (k > 1 ? ",[" : "[") + js(name) + "," + codes(value) + "]";
		text += "\t" + name + (via == "colon" ? " : " : k % 2 ? " = " : "=") + real(value) + "\n" + (k % 3 ? "" : "\t# note\n\n");
	}
	text += "}\n";
	cj += "]]";
	return x;
}

static void run(const Script & s) {
	char cwd[4096];
	if (!getcwd(cwd, sizeof cwd)) abort();
	dir = std::string(cwd).substr(1) + "/lg_" + std::to_string(getpid());
	mkdir(("/" + dir).c_str(), 0777);
	static Std out("stdout"), err("stderr");
	std::cout.rdbuf(&out);
	std::cerr.rdbuf(&err);
	System::ThreadName::setName("main");
	Logger::registerLoggingStreamFactory("rec", make);
	std::vector<Logger *> ls;
	std::vector<std::string> names;
	for (auto & o : s.ops) {
		auto & n = o[0];
		auto at = [&] (size_t i) { return i < o.size() ? o[i] : std::string(); };
		writes.clear(); flushes.clear(); made.clear();
		if (n == "conf") {
			// conf VIA PLACEHOLDERS NS;name=value;name=value ...
			const std::string via = at(1);
			std::map<std::string, std::string> ph;
			std::string phj = "[", cj = "[", text = "# comment\n";
			if (!at(2).empty()) for (auto & p : split(at(2), ';')) {
				auto e = p.find('=');
				ph[p.substr(0, e)] = real(p.substr(e + 1));
				phj += (phj.size() > 1 ? ",[" : "[") + codes(p.substr(0, e)) + "," + codes(p.substr(e + 1)) + "]";
			}
			auto map = std::make_unique<::Balau::Impl::BindingMap>();
			for (size_t i = 3; i < o.size(); ++i) {
				std::string name;
				Ns x = blocks(o[i], via, i, cj, text, name);
				if (via == "env") map->put(::Balau::Impl::BindingKey::createSharedKey<EnvironmentProperties>(name), compositeOf(name, x));
			}
			std::string res = outcome([&] {
				if (via == "env") Logger::configure(std::make_shared<EnvironmentProperties>(std::move(map)), ph);
				else if (via == "plain" && ph.empty()) Logger::configure(text);
				else Logger::configure(text, ph);
			});
			const char * home = getpwuid(getuid())->pw_dir;
			char exe[4096];
			ssize_t k = readlink("/proc/self/exe", exe, sizeof exe);
			std::string e(exe, size_t(k));
			Ev("conf").s("via", via).s("res", res).j("conf", cj + "]").j("ph", phj + "]").j("made", lists(made)).j("home", codes(std::string("file://") + home)).j("exe", codes(e.substr(e.rfind('/') + 1))).done();
		} else if (n == "raw") {
			std::string res = outcome([&] { Logger::configure(real(at(1))); });
			Ev("raw").s("res", res).j("made", lists(made)).done();
		} else if (n == "file") {
			// file PATH NS;name=value;...: a configuration file that can be included.
			std::string cj = "[", text, name;
			for (size_t i = 2; i < o.size(); ++i) blocks(o[i], "equals", i, cj, text, name);
			included[at(1)] = cj.substr(1);
			std::ofstream f("/" + real(at(1)));
			f << text;
		} else if (n == "badfile") {
			// A file that cannot be opened, because its directory is a file.
			{ std::ofstream f("/" + dir + "/plain"); }
			std::string res = outcome([&] {
				Logger::configure(". {\nlevel = trace\nstream = file:///" + dir + "/plain/x.log\n}");
				Logger::globalLogger().info("x");
				Logger::flushAll();
			});
			Ev("badfile").s("res", res).done();
		} else if (n == "get") {
			auto & l = Logger::getLogger(at(1));
			size_t same = 0;
			for (size_t i = 0; i < ls.size(); ++i) if (ls[i] == &l) { same = i + 1; break; }
			ls.push_back(&l);
			names.push_back(at(1));
			Ev("get").j("ns", idsOf(at(1))).j("name", idsOf(l.getNamespace())).n("same", (long) same).b("global", &l == &Logger::globalLogger()).j("made", lists(made)).done();
		} else if (n == "st") {
			std::string r = "[";
			for (auto * l : ls) {
				std::string props = "[", name;
				auto lines = split(unreal(l->getConfiguration()), '\n');
				for (size_t i = 1; i < lines.size(); ++i) {
					auto p = lines[i].find(" = ");
					if (p == std::string::npos || lines[i].substr(0, 4) != "    ") continue;
					props += (props.size() > 1 ? ",[" : "[") + js(lines[i].substr(4, p - 4)) + "," + codes(lines[i].substr(p + 3)) + "]";
				}
				r += (r.size() > 1 ? ",{" : "{") + std::string("\"level\":") + js(lower(Balau::toString(l->getLevel()))) + ",\"flushes\":" + (l->flushes() ? "true" : "false") + ",\"enabled\":[";
				bool q[] = { l->errorEnabled(), l->warnEnabled(), l->infoEnabled(), l->debugEnabled(), l->traceEnabled() };
				for (int i = 0; i < 5; ++i) r += std::string(i ? "," : "") + (q[i] == l->enabled(LoggingLevel(i)) ? q[i] ? "\"yes\"" : "\"no\"" : "\"both\"");
				r += "],\"head\":" + codes(lines[0]) + ",\"props\":" + props + "]}";
			}
			Ev("st").j("loggers", r + "]").done();
		} else if (n == "log") {
			// log INDEX LEVEL HOW MESSAGE PARAMETER...
			auto l = ls.at(size_t(std::stoi(at(1)) - 1));
			std::vector<std::string> ps(o.begin() + std::min<size_t>(5, o.size()), o.end());
			std::string loc, pj = "[";
			for (auto & p : ps) pj += (pj.size() > 1 ? "," : "") + codes(p);
			int evals = 0;
			time_t a = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
			std::string res = outcome([&] { call(l, levelOf(at(2)), at(3), at(4), ps, loc, evals); });
			time_t b = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
			std::ostringstream id;
			id << std::this_thread::get_id();
			Ev("log").n("i", std::stoi(at(1))).j("ids", idCodes(names.at(size_t(std::stoi(at(1)) - 1)))).s("level", at(2)).s("how", at(3)).j("msg", codes(at(4))).j("ps", pj + "]").j("loc", codes(loc)).s("res", res).n("evals", evals)
				.j("ts", times(a, b)).j("tid", codes(id.str())).j("out", outs()).j("fl", lists(flushes)).done();
		} else if (n == "lflush") {
			std::string res = outcome([&] { ls.at(size_t(std::stoi(at(1)) - 1))->flush(); });
			Ev("lflush").n("i", std::stoi(at(1))).s("res", res).j("fl", lists(flushes)).done();
		} else if (n == "fall") {
			std::string res = outcome([&] { Logger::flushAll(); });
			Ev("fall").s("res", res).j("fl", lists(flushes)).done();
		} else if (n == "reset") {
			std::string res = outcome([&] { Logger::resetConfiguration(); });
			Ev("reset").s("res", res).j("made", lists(made)).done();
		} else if (n == "lock") {
			Logger::lockConfiguration(at(1) == "1");
			Ev("lock").b("noisy", at(1) == "1").done();
		} else if (n == "thread") {
			System::ThreadName::setName(at(1));
			Ev("thread").j("name", codes(at(1))).done();
		} else if (n == "peek") {
			std::string r = "[";
			for (size_t i = 1; i < o.size(); ++i) {
				std::ifstream f("/" + real(o[i]), std::ios::binary);
				std::ostringstream c;
				if (f) c << f.rdbuf();
				r += (r.size() > 1 ? ",[" : "[") + codes("file:///" + o[i]) + "," + codes(fraction(c.str())) + "]";
			}
			Ev("peek").j("files", r + "]").done();
		}
	}
	auto clean = [] (const std::string & d, auto & self) -> void {
		if (auto * h = opendir(d.c_str())) {
			while (auto * e = readdir(h)) {
				std::string n = e->d_name;
				if (n == "." || n == "..") continue;
				if (unlink((d + "/" + n).c_str()) != 0) self(d + "/" + n, self);
			}
			closedir(h);
		}
		rmdir(d.c_str());
	};
	clean("/" + dir, clean);
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run, true); }
