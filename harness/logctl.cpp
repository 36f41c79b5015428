// Logging from several threads, while loggers are obtained, streams flushed and the system reconfigured.
#include <Balau/Type/ToString.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Logging/Impl/LoggingStreams.hpp>
#include "common_ctl.hpp"
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace Balau;

static std::string dir;
// The writes of file streams are scheduling points.
static bool ours(int fd) { return fd > 2 && ctl::self() >= 0; }
extern "C" __attribute__((visibility("default"))) ssize_t write(int fd, const void * p, size_t n) {
	if (ours(fd)) ctl::yield();
	ssize_t r = syscall(SYS_write, fd, p, n);
	if (ours(fd)) ctl::yield();
	return r;
}
extern "C" __attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec * v, int n) {
	if (ours(fd)) ctl::yield();
	ssize_t r = syscall(SYS_writev, fd, v, n);
	if (ours(fd)) ctl::yield();
	return r;
}
static std::string q(const std::string & s) {
	std::string r = "\"";
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char) c < 32 || (unsigned char) c > 126) r += "?"; else r += c; }
	return r + "\"";
}
static std::string replace(std::string s, const std::string & a, const std::string & b) {
	for (size_t p = 0; !a.empty() && (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
	return s;
}
// Names of loggers that are new in each execution: x becomes x<number of the execution>.
static long execution = 0;
static std::string real(const std::string & n) { return replace(replace(n, "x", "x" + num(execution) + "e"), "y", "y" + num(execution) + "e"); }
static std::string unreal(const std::string & s) { return replace(replace(s, "x" + num(execution) + "e", "x"), "y" + num(execution) + "e", "y"); }

// A stream that records what it gets.
struct Rec : LoggingStream {
	std::string uri;
	explicit Rec(std::string_view u) : uri(u) {}
	void write(const LoggingSystem::LoggerString & str) override {
		if (ctl::self() < 0) return;
		ctl::noPreempt(true);
		event("w", "\"u\":" + q(uri) + ",\"s\":" + q(unreal(std::string(str.data(), str.size()))));
		ctl::noPreempt(false);
		ctl::yield();
	}
	void flush() override { if (ctl::self() >= 0) { event("f", "\"u\":" + q(uri)); ctl::yield(); } }
};
// A standard stream that is not thread safe: what is written arrives in pieces, flushing hands it on and then forgets it.
struct Pieces : std::streambuf {
	std::string text, pending;
	void put(const char * s, size_t n) { while (n) { size_t k = (n + 1) / 2; pending.append(s, k); s += k; n -= k; if (ctl::self() >= 0) ctl::yield(); } }
	int overflow(int c) override { if (c != EOF) { char b = char(c); put(&b, 1); } return 0; }
	std::streamsize xsputn(const char * s, std::streamsize n) override { put(s, size_t(n)); return n; }
	int sync() override { text += pending; if (ctl::self() >= 0) ctl::yield(); pending.clear(); return 0; }
	std::string all() { return text + pending; }
	void clear() { text.clear(); pending.clear(); }
};
static Pieces & pieces() { static auto * p = new Pieces; return *p; }
static LoggingStream * make(std::string_view uri) { return new Rec(uri); }
static LoggingStream * makePieces(std::string_view) { return new LoggingSystem::OStreamLoggingStream(*new std::ostream(&pieces())); }

// A configuration: what holds for each logger.
struct Eff { int level; std::string tag; bool flush; std::vector<std::string> streams; /* one, or error warn info debug trace */ };
using Conf = std::map<std::string, Eff>;
static const char * LEVELS[] = { "error", "warn", "info", "debug", "trace" };
static const char * KEYS[] = { "error-stream", "warn-stream", "info-stream", "debug-stream", "trace-stream" };
static std::string uriOf(const std::string & s) { return s[0] == '/' ? "file://" + dir + s : s; }
static std::vector<std::pair<std::string, std::string>> props(const Eff & e) {
	std::map<std::string, std::string> m;
	m["level"] = e.level < 0 ? "none" : LEVELS[e.level];
	m["format"] = e.tag + " %level %namespace %message";
	m["flush"] = e.flush ? "true" : "false";
	if (e.streams.size() == 1) m["stream"] = uriOf(e.streams[0]);
	else for (int i = 0; i < 5; ++i) m[KEYS[i]] = uriOf(e.streams[size_t(i)]);
	return { m.begin(), m.end() };
}
static std::string textOf(const Conf & c) {
	std::string r;
	for (auto & x : c) { r += x.first + " {\n"; for (auto & p : props(x.second)) r += p.first + " = " + p.second + "\n"; r += "}\n"; }
	return r;
}
static const Eff & effOf(const Conf & c, std::string n) {
	for (;;) {
		auto i = c.find(n);
		if (i != c.end()) return i->second;
		auto d = n.rfind('.');
		n = d == std::string::npos ? "." : n.substr(0, d);
	}
}
static std::string json(const std::vector<Conf> & cs, const std::set<std::string> & names) {
	std::string r = "[";
	for (auto & c : cs) {
		r += r.size() > 1 ? ",{" : "{";
		bool f = true;
		for (auto & n : names) {
			auto & e = effOf(c, n);
			std::string nn = n == "." ? "" : n;
			r += (f ? "" : ",") + q(n) + ":{\"level\":" + num(e.level) + ",\"tag\":" + q(e.tag) + ",\"flush\":" + (e.flush ? "true" : "false") + ",\"streams\":[";
			f = false;
			for (size_t i = 0; i < 5; ++i) r += (i ? "," : "") + q(e.streams[e.streams.size() == 1 ? 0 : i]);
			r += "],\"text\":" + q([&] { std::string t = nn + " {\n"; for (auto & p : props(e)) t += "    " + p.first + " = " + replace(p.second, "file://" + dir, "") + "\n"; return t + "}\n"; }()) + "}";
		}
		r += "}";
	}
	return r + "]";
}
static std::string lines(const std::string & s) {
	std::string r = "[";
	size_t p = 0;
	while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); else ++e; r += (r.size() > 1 ? "," : "") + q(unreal(s.substr(p, e - p))); p = e; }
	return r + "]";
}
static std::string fileText(const std::string & name) {
	std::string r; char b[4096]; ssize_t n;
	int fd = open((dir + name).c_str(), O_RDONLY);
	if (fd < 0) return r;
	while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.append(b, size_t(n));
	close(fd);
	return r;
}

static void scenario(const std::string & id, std::vector<Conf> cs, std::vector<std::string> progs, bool mem, bool focus, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	std::set<std::string> names, files;
	for (auto & p : progs) for (auto & w : words(p)) { auto a = w.find(':'); if (a != std::string::npos && w.substr(0, a) != "conf" && w.substr(0, a) != "qconf" && w.substr(0, a) != "peek") names.insert(w.substr(a + 1, w.find(':', a + 1) - a - 1)); }
	for (auto & c : cs) for (auto & e : c) for (auto & s : e.second.streams) if (s[0] == '/') files.insert(s);
	std::string fj = "[";
	for (auto & f : files) fj += (fj.size() > 1 ? "," : "") + q(f);
	sc.json = "{\"id\":" + q(id) + ",\"n\":" + num(long(progs.size())) + ",\"confs\":" + json(cs, names) + ",\"files\":" + fj + "]}";
	sc.options.memoryPoints = mem;
	sc.options.stepLimit = 4000000;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		++execution;
		// One directory for each process: the scratch directory of the check is the current one.
		static long pid = 0;
		if (pid != getpid()) {
			pid = getpid();
			char cwd[4096];
			if (!getcwd(cwd, sizeof cwd)) _exit(3);
			dir = std::string(cwd) + "/logctl_" + num(pid);
			mkdir(dir.c_str(), 0777);
		}
		Logger::flushAll();
		Logger::configure(textOf(cs[0]));
		std::vector<std::pair<const char *, const char *>> ranges;
		for (auto & n : names) if (n.find_first_of("xy") == std::string::npos) {
			auto * p = (const char *) &Logger::getLogger(n);
			if (focus) ranges.emplace_back(p, p + sizeof(Logger));
		}
		ctl::focus(ranges);
		Logger::flushAll();
		for (auto & f : files) if (truncate((dir + f).c_str(), 0)) {}
		pieces().clear();
		auto ids = std::make_shared<std::vector<Logger *>>();
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				std::map<std::string, Logger *> mine;
				int k = 0;
				for (auto & o : ops) {
					std::vector<std::string> a;
					std::istringstream is(o); std::string w;
					while (std::getline(is, w, ':')) a.push_back(w);
					if (a[0] == "join") { ctl::join(); continue; }
					if (a[0] == "peek") {
						ctl::noPreempt(true);
						std::string u = a[1] == "ost" ? "ost:" : a[1], s = u[0] == '/' ? fileText(u) : pieces().all();
						event("peek", "\"u\":" + q(u) + ",\"l\":" + lines(s));
						ctl::noPreempt(false);
						continue;
					}
					auto lg = [&] () -> Logger & {
						auto & p = mine[a[1]];
						if (p) return *p;
						event("call", "\"op\":\"get\",\"n\":" + q(a[1]));
						std::string n = real(a[1]);
						p = &Logger::getLogger(n);
						ctl::noPreempt(true);
						size_t i = 0;
						while (i < ids->size() && (*ids)[i] != p) ++i;
						if (i == ids->size()) ids->push_back(p);
						event("ret", "\"id\":" + num(long(i)) + ",\"s\":" + q(unreal(p->getNamespace())));
						ctl::noPreempt(false);
						return *p;
					};
					if (a[0] == "conf" || a[0] == "qconf") {
						// qconf: in one go, unless it has to wait.
						event("call", "\"op\":\"conf\",\"c\":" + a[1]);
						if (a[0] == "qconf") ctl::noPreempt(true);
						Logger::configure(textOf(cs[size_t(std::stoi(a[1]))]));
						if (a[0] == "qconf") ctl::noPreempt(false);
						event("ret");
					} else if (a[0] == "get") lg();
					else if (a[0] == "log" || a[0] == "par") {
						auto & l = lg();
						int lv = std::stoi(a[2]);
						std::string m = "m" + num(long(t)) + "_" + num(++k);
						std::string full = a[0] == "par" ? m + "(" + m + ")" : m;
						event("call", "\"op\":\"log\",\"n\":" + q(a[1]) + ",\"lv\":" + num(lv) + ",\"m\":" + q(full));
						if (a[0] == "par") {
							std::string p = m + "({})";
							switch (lv) { case 0: l.error(p.c_str(), m); break; case 1: l.warn(p.c_str(), m); break; case 2: l.info(p.c_str(), m); break; case 3: l.debug(p.c_str(), m); break; default: l.trace(p.c_str(), m); }
						} else switch (lv) { case 0: l.error(m.c_str()); break; case 1: l.warn(m.c_str()); break; case 2: l.info(m.c_str()); break; case 3: l.debug(m.c_str()); break; default: l.trace(m.c_str()); }
						event("ret");
					} else if (a[0] == "lflush") { auto & l = lg(); event("call", "\"op\":\"lflush\",\"n\":" + q(a[1])); l.flush(); event("ret"); }
					else if (a[0] == "fall") { event("call", "\"op\":\"fall\""); Logger::flushAll(); event("ret"); }
					else if (a[0] == "gc") {
						auto & l = lg();
						event("call", "\"op\":\"gc\",\"n\":" + q(a[1]));
						std::string s = l.getConfiguration();
						event("ret", "\"s\":" + q(replace(unreal(s), "file://" + dir, "")));
					}
				}
			});
		}
		return ids;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	Logger::registerLoggingStreamFactory("rec", make);
	Logger::registerLoggingStreamFactory("ost", makePieces);
	bool th = explore::args().thorough;
	long D = th ? 4000 : 250, R = th ? 2000 : 120;
	int B = th ? 3 : 2;
	auto one = [] (std::string s) { return std::vector<std::string> { s }; };
	auto each = [] (std::string s) { return std::vector<std::string> { s + "0", s + "1", s + "2", s + "3", s + "4" }; };
	Conf c0 = { { ".", { 2, "A0", true, one("rec:1") } }, { "a", { 3, "A1", true, one("rec:2") } } };
	Conf c1 = { { ".", { 2, "B0", false, one("rec:3") } }, { "a", { 1, "B1", true, each("rec:b") } }, { "a.b", { 4, "B2", false, one("rec:1") } } };
	Conf c2 = { { ".", { -1, "C0", false, each("rec:") } }, { "a.b", { 2, "C2", true, one("rec:4") } } };
	Conf f0 = { { ".", { 2, "F0", true, one("/one.log") } }, { "a", { 2, "F1", false, one("/one.log") } }, { "b", { 4, "F2", true, one("/two.log") } } };
	Conf f1 = { { ".", { 2, "G0", true, one("/two.log") } }, { "a", { 2, "G1", true, one("/one.log") } }, { "b", { 2, "G2", false, one("/one.log") } } };
	Conf o0 = { { ".", { 2, "O0", true, one("ost:") } }, { "a", { 2, "O1", false, one("ost:") } } };
	Conf o1 = { { ".", { 1, "P0", true, one("ost:") } }, { "a", { 2, "P1", true, one("/one.log") } } };
	scenario("seq", { c0, c1, c2 }, { "log:a:3 log:a:4 log:.:2 gc:a conf:1 log:a:3 log:a:1 log:a.b:4 gc:a.b par:.:2 conf:2 log:.:0 log:a:0 log:a.b:1 gc:a fall conf:0 log:a.b:3 log:a.x:3 gc:a.x lflush:a" }, false, false, 0, 1, 1);
	scenario("seqfile", { f0, f1 }, { "log:.:2 peek:/one.log log:a:2 log:a:1 lflush:a peek:/one.log log:a:2 log:b:4 peek:/two.log fall peek:/one.log conf:1 log:.:2 log:b:2 log:b:0 peek:/two.log log:a:2 peek:/one.log fall peek:/one.log" }, false, false, 0, 1, 1);
	scenario("reconf", { c0, c1 }, { "conf:1", "log:a:1 log:a:2 log:a:1", "log:.:2 log:a.b:3 log:a.b:2" }, false, false, B, D, R);
	scenario("reconf2", { c0, c1, c2 }, { "conf:1 log:a:1", "conf:2 log:a.b:2", "log:.:1 log:a.b:2 par:a:0", "join log:a:0 log:.:1 log:a.b:2" }, false, false, B, D, R);
	// Only the fields of the loggers are scheduling points.
	scenario("fields", { c0, c1 }, { "conf:1", "log:a:1", "join log:a:1" }, false, true, B, D * 6, R);
	scenario("fields2", { c1, c0 }, { "conf:1", "log:a:1 log:.:2", "log:a.b:1", "join log:a:1 log:.:1" }, false, true, B, D * 4, R * 2);
	scenario("fields3", { c1, c0, c2 }, { "conf:1", "conf:2", "log:a:1 log:.:2 log:a.b:0", "join log:a:1 log:.:1 log:a.b:0" }, false, true, B, D * 2, R * 3);
	scenario("fieldsfile", { f0, f1 }, { "conf:1", "log:.:1 log:b:2", "join log:a:2 fall peek:/one.log peek:/two.log" }, false, true, B, D * 4, R * 2);
	scenario("fresh", { c0 }, { "log:a.x:2", "log:a.x:3", "log:a.x.y:2", "join log:a.x:2" }, false, false, B + 1, D, R);
	scenario("freshmem", { c0 }, { "get:a.x", "get:a.x", "join log:a.x:2" }, true, false, 2, D, R);
	scenario("freshconf", { c0, c1 }, { "conf:1 log:a.x:1", "log:a.x:1 log:a.x:0", "log:a.x:0 get:a.x.y gc:a.x.y", "join log:a.x.y:0 gc:a.x" }, false, false, B, D, R);
	scenario("getconf", { c0, c1 }, { "conf:1", "gc:a gc:a", "gc:. gc:a", "join gc:a gc:." }, false, false, 2, D / 2, R);
	scenario("getconfmem", { c1, c0 }, { "get:a gc:a", "qconf:1", "gc:a", "join gc:a gc:." }, true, false, 2, D, R * 2);
	scenario("file", { f0 }, { "log:.:2 log:a:1", "log:.:2 log:a:0", "log:b:2 fall peek:/one.log", "join fall peek:/one.log peek:/two.log" }, false, false, B, D, R);
	scenario("fileconf", { f0, f1 }, { "conf:1 log:a:1", "log:a:2 log:b:2 log:.:2", "log:.:1 log:a:1 lflush:.", "join fall peek:/one.log peek:/two.log" }, false, false, B, D, R);
	scenario("ost", { o0 }, { "log:.:2 log:a:1", "log:.:2 log:a:0", "par:.:0 fall", "join peek:ost:" }, false, false, B, D, R);
	scenario("ostconf", { o0, o1 }, { "log:.:1 log:a:1", "conf:1 log:.:0", "log:a:2 log:.:2 lflush:a", "join fall peek:ost: peek:/one.log" }, false, false, B, D, R);
	explore::Rng rng(explore::args().seed);
	for (int i = 0; i < (th ? 120 : 16); ++i) {
		int kind = int(rng(3));
		std::vector<Conf> cs = kind == 0 ? std::vector<Conf> { c0, c1, c2 } : kind == 1 ? std::vector<Conf> { f0, f1, c1 } : std::vector<Conf> { o0, o1, f0 };
		static const char * ns[] = { ".", "a", "a.b", "b", "a.x", "x.y" };
		std::vector<std::string> progs;
		bool confs = rng(3) > 0;
		for (int t = 0, nt = 2 + int(rng(2)); t < nt; ++t) {
			std::string p;
			for (int k = 1 + int(rng(3)); k > 0; --k) {
				int r = int(rng(10));
				std::string n = ns[rng(6)], lv = num(long(rng(4)));
				p += r < 6 ? (r ? "log:" : "par:") + n + ":" + lv + " " : r == 6 ? "fall " : r == 7 && !confs ? "lflush:" + n + " " : confs ? "conf:" + num(long(rng(3))) + " " : "get:" + n + " ";
			}
			progs.push_back(p);
		}
		progs.push_back("join log:a:0 log:.:1 fall" + std::string(kind == 1 ? " peek:/one.log peek:/two.log" : kind == 2 ? " peek:ost: peek:/one.log" : ""));
		scenario("r" + std::to_string(i), cs, progs, false, false, 2, D / 4, R);
	}
	return explore::finish();
}
