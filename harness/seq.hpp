// Runs scripts of operations against a sequential component and records what
// it did.  A script is one line: id TAB json TAB op TAB op ..., where an op is
// space separated words, percent-encoded.  Scripts run in child processes, so
// that a crash or an endless loop is recorded as the end of that trace only.
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <dlfcn.h>

// The exceptions of the library carry a stack trace; resolving its symbols takes most of the time of a run.
extern "C" __attribute__((weak)) int dladdr(const void *, Dl_info *) noexcept { return 0; }

namespace seq {

using Op = std::vector<std::string>;
struct Script { std::string id, sc; std::vector<Op> ops; };

inline std::string js(std::string_view s) {
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
inline std::string js(const std::vector<std::string> & v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js(v[i]);
	return r + "]";
}
template <typename C> std::string codes(const C & s) {
	std::string r = "[";
	bool first = true;
	for (auto c : s) { if (!first) r += ","; first = false; r += std::to_string((unsigned long) (typename std::make_unsigned<std::decay_t<decltype(c)>>::type) c); }
	return r + "]";
}
inline std::string codes(const std::u32string & s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned long) s[i]);
	return r + "]";
}
template <typename C> std::string nums(const C & s) {
	std::string r = "[";
	bool first = true;
	for (const auto & c : s) { if (!first) r += ","; first = false; r += std::to_string(c); }
	return r + "]";
}

// Buffer shared with the parent: the events of the script being run.
struct Shared { volatile long index; volatile size_t len; char text[(1 << 22) - 64]; };
inline Shared *& shared() { static Shared * s = nullptr; return s; }

inline void emit(const std::string & e) {
	auto s = shared();
	if (s->len + e.size() + 2 >= sizeof s->text) return;
	size_t l = s->len;
	if (l) s->text[l++] = ',';
	memcpy(s->text + l, e.data(), e.size());
	s->len = l + e.size();
}

// One event.
class Ev {
	std::string t;
public:
	explicit Ev(const char * op) { t = std::string("{\"op\":\"") + op + "\""; }
	Ev & s(const char * k, std::string_view v) { t += std::string(",\"") + k + "\":" + js(v); return *this; }
	Ev & n(const char * k, long v) { t += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
	Ev & b(const char * k, bool v) { t += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
	Ev & j(const char * k, const std::string & v) { t += std::string(",\"") + k + "\":" + v; return *this; }
	Ev & l(const char * k, const std::vector<std::string> & v) { return j(k, js(v)); }
	void done() { emit(t + "}"); }
};

// Unqualified name of the class of the current exception.
inline std::string exceptionName() {
	auto t = abi::__cxa_current_exception_type();
	if (!t) return "unknown";
	int st;
	char * d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
	std::string n = d ? d : t->name();
	free(d);
	auto a = n.find('<');
	if (a != std::string::npos) n = n.substr(0, a);
	a = n.rfind("::");
	return a == std::string::npos ? n : n.substr(a + 2);
}

// Runs f and returns "ok" or the name of the exception it threw.
template <typename F> std::string outcome(F && f) {
	try { f(); return "ok"; } catch (...) { return exceptionName(); }
}

inline std::string decode(const std::string & s) {
	std::string r;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size()) { r += char(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
		else r += s[i];
	}
	return r;
}

inline std::vector<std::string> split(const std::string & s, char c) {
	std::vector<std::string> v;
	size_t a = 0;
	for (;;) {
		size_t b = s.find(c, a);
		v.push_back(s.substr(a, b == std::string::npos ? b : b - a));
		if (b == std::string::npos) return v;
		a = b + 1;
	}
}

struct Args { std::string in, out; int jobs = 8; int limit = 20; bool isolated = false; };
inline Args & args() { static Args a; return a; }

inline std::string line(const std::string & id, const std::string & body, const char * end, int status) {
	return "{\"id\":" + js(id) + ",\"ev\":[" + body + "],\"end\":\"" + end + "\",\"status\":" + std::to_string(status) + "}\n";
}

inline int main(int argc, char ** argv, std::function<void (const Script &)> run, bool isolated = false) {
	auto & a = args();
	a.isolated = isolated;
	for (int i = 1; i < argc; ++i) {
		std::string s = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (s == "--in") a.in = val();
		else if (s == "--out") a.out = val();
		else if (s == "--jobs") a.jobs = std::stoi(val());
		else if (s == "--limit") a.limit = std::stoi(val());
	}
	std::vector<Script> scripts;
	{
		std::ifstream f(a.in);
		std::string l;
		while (std::getline(f, l)) {
			auto p = split(l, '\t');
			Script s;
			s.id = p[0];
			s.sc = p.size() > 1 ? p[1] : "";
			for (size_t i = 2; i < p.size(); ++i) {
				Op o;
				for (auto & w : split(p[i], ' ')) o.push_back(decode(w));
				s.ops.push_back(o);
			}
			scripts.push_back(std::move(s));
		}
	}
	std::vector<pid_t> workers;
	fflush(nullptr);
	for (int w = 0; w < a.jobs; ++w) {
		pid_t p = fork();
		if (p) { workers.push_back(p); continue; }
		// The worker supervises one child at a time.
		auto sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		shared() = sh;
		std::ofstream out(a.out + "." + std::to_string(w), std::ios::binary);
		long i = w;
		long n = long(scripts.size());
		int bad = 0;
		while (i < n) {
			long last = i;
			sh->index = i;
			sh->len = 0;
			out.flush();
			pid_t c = fork();
			if (c == 0) {
				setpgid(0, 0);
				std::ofstream o(a.out + "." + std::to_string(w), std::ios::binary | std::ios::app);
				for (long k = i; k < n; k += a.jobs) {
					sh->index = k;
					sh->len = 0;
					alarm(unsigned(a.limit));
					run(scripts[size_t(k)]);
					alarm(0);
					o << line(scripts[size_t(k)].id, std::string(sh->text, sh->len), "done", 0);
					o.flush();
					sh->index = k + a.jobs;
					if (a.isolated) break;
				}
				_exit(0);
			}
			setpgid(c, c);
			int st;
			while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
			syscall(SYS_kill, -c, SIGKILL);
			last = sh->index;
			out.seekp(0, std::ios::end);
			if (st != 0 || last == i) {
				if (last < n) {
					bool hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
					out << line(scripts[size_t(last)].id, std::string(sh->text, sh->len), hang ? "hang" : "crash", st);
					if ((bad += hang ? 10 : 1) > (isolated ? 200 : 20)) break;
				}
				last += a.jobs;
			}
			i = last;
		}
		out.close();
		_exit(0);
	}
	for (auto p : workers) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
	std::ofstream all(a.out, std::ios::binary);
	for (int w = 0; w < a.jobs; ++w) {
		std::string f = a.out + "." + std::to_string(w);
		std::ifstream in(f, std::ios::binary);
		if (in.peek() != EOF) all << in.rdbuf();
		in.close();
		::unlink(f.c_str());
	}
	return 0;
}

} // namespace seq
