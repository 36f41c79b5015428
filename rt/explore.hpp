// Exploration of scenarios and output of the distinct traces.
#pragma once
#include "ctl.hpp"
#include <sys/single_threaded.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

namespace explore {

struct Args {
	uint64_t seed = 1; bool thorough = false; std::string out; std::string replay; std::string only;
	double scale = 1.0; int jobs = 8;
};

inline Args & args() { static Args a; return a; }

inline void parse(int argc, char ** argv) {
	auto & a = args();
	for (int i = 1; i < argc; ++i) {
		std::string s = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (s == "--seed") a.seed = std::stoull(val());
		else if (s == "--thorough") a.thorough = true;
		else if (s == "--out") a.out = val();
		else if (s == "--replay") a.replay = val();   // "<scenario id> <choice> <choice> ..."
		else if (s == "--only") a.only = val();
		else if (s == "--jobs") a.jobs = std::stoi(val());
		else if (s == "--scale") a.scale = std::stod(val());
	}
}

struct Scenario {
	std::string id;                 // unique
	std::string json;               // the "sc" object of the trace
	ctl::Options options;
	int bound = 2; long dfsRuns = 2000; long randomRuns = 200;
	// Creates the system under test and the thread bodies.  The returned
	// object is kept alive until the end of the execution, and leaked if the
	// execution ended with blocked threads.
	std::function<std::shared_ptr<void> (std::vector<std::function<void ()>> &)> make;
	std::function<void (std::vector<std::string> & events)> finish; // extra events after the execution
	std::function<void ()> cleanup;
};

inline std::ofstream & outFile() { static std::ofstream f; return f; }
inline long & limitRuns() { static long n = 0; return n; }
inline long & totalRuns() { static long n = 0; return n; }
inline long & totalTraces() { static long n = 0; return n; }
inline long & exhaustedScenarios() { static long n = 0; return n; }
inline long & totalScenarios() { static long n = 0; return n; }
inline std::unordered_set<std::string> & seen() { static std::unordered_set<std::string> s; return s; }

inline std::string traceOf(const Scenario & sc, const ctl::Outcome & o, const std::vector<std::string> & extra) {
	std::string s = "{\"sc\":" + sc.json + ",\"ev\":[";
	bool first = true;
	for (auto & e : o.events) { if (!first) s += ","; first = false; s += e; }
	for (auto & e : extra) { if (!first) s += ","; first = false; s += e; }
	s += "],\"end\":\"";
	s += o.end == ctl::End::Done ? "done" : o.end == ctl::End::Blocked ? "blocked" : "limit";
	s += "\",\"blocked\":[";
	first = true;
	for (int b : o.blocked) { if (!first) s += ","; first = false; s += std::to_string(b); }
	return s + "]";
}

inline std::string once(Scenario & sc, ctl::Strategy & st, ctl::Outcome & o) {
	std::vector<std::function<void ()>> bodies;
	auto keep = sc.make(bodies);
	o = ctl::run(st, sc.options, bodies);
	std::vector<std::string> extra;
	if (o.end == ctl::End::Done && sc.finish) sc.finish(extra);
	std::string t = traceOf(sc, o, extra);
	if (o.end != ctl::End::Done) new std::shared_ptr<void>(keep); // abandoned frames may refer to it
	keep.reset();
	if (sc.cleanup) sc.cleanup();
	return t;
}

inline void emit(const Scenario & sc, const std::string & t, const ctl::Outcome & o, bool mem) {
	++totalRuns();
	if (o.end == ctl::End::Limit) ++limitRuns();
	if (!seen().insert(t).second) return;
	++totalTraces();
	std::string s = t + ",\"rp\":\"" + sc.id + (mem ? " M" : " S");
	size_t n = o.choices.size();
	while (n > 0 && o.choices[n - 1] == 0) --n;
	for (size_t i = 0; i < n; ++i) s += " " + std::to_string(o.choices[i]);
	outFile() << s << "\"}\n";
}

inline void exploreHere(Scenario & sc) {
	auto & a = args();
	++totalScenarios();
	{ ctl::Replay w({}); ctl::Outcome o; once(sc, w, o); } // warm up: one-time initialisations
	long dfs = long(double(sc.dfsRuns) * a.scale), rnd = long(double(sc.randomRuns) * a.scale);
	if (dfs > 0) {
		ctl::Options saved = sc.options;
		sc.options.memoryPoints = false;
		ctl::Dfs d(sc.bound, dfs);
		while (limitRuns() < 10 && d.next()) { ctl::Outcome o; std::string t = once(sc, d, o); emit(sc, t, o, false); }
		if (d.exhausted) ++exhaustedScenarios();
		sc.options = saved;
	}
	if (rnd > 0) {
		ctl::Random r(a.seed * 1000003u + std::hash<std::string>()(sc.id), rnd);
		while (limitRuns() < 10 && r.next()) { ctl::Outcome o; std::string t = once(sc, r, o); emit(sc, t, o, sc.options.memoryPoints); }
	}
}

// Scenarios run in child processes, several at a time; each writes its own file.
struct Child { pid_t pid; std::string file; std::string id, json; int status = 0; bool done = false; };
inline std::vector<Child> & children() { static std::vector<Child> c; return c; }
inline int & running() { static int n = 0; return n; }

inline void reap(int limit) {
	while (running() > limit) {
		int st; pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		for (auto & c : children()) if (c.pid == p && !c.done) { c.done = true; c.status = st; --running(); }
	}
}

inline void explore(Scenario sc) {
	auto & a = args();
	if (!a.only.empty() && sc.id != a.only) return;
	if (!a.replay.empty()) {
		std::istringstream is(a.replay);
		std::string id, mode; is >> id >> mode;
		if (id != sc.id) return;
		std::vector<int> ch; int c; while (is >> c) ch.push_back(c);
		sc.options.memoryPoints = mode == "M";
		{ ctl::Replay w({}); ctl::Outcome o; once(sc, w, o); }
		ctl::Replay r(ch);
		ctl::Outcome o;
		std::string t = once(sc, r, o);
		outFile() << t << ",\"rp\":\"" << a.replay << "\"}\n";
		outFile().flush();
		return;
	}
	reap(a.jobs - 1);
	Child ch;
	ch.file = a.out + "." + std::to_string(children().size());
	ch.id = sc.id; ch.json = sc.json;
	ch.pid = fork();
	if (ch.pid == 0) {
		outFile().close();
		outFile().clear();
		outFile().open(ch.file);
		alarm(unsigned(a.thorough ? 600 : 240));
		exploreHere(sc);
		outFile() << "#" << totalRuns() << " " << totalTraces() << " " << exhaustedScenarios() << "\n";
		outFile().flush();
		_exit(0);
	}
	++running();
	children().push_back(ch);
}

inline void begin(int argc, char ** argv) {
	// Threads are simulated: what the C++ library optimises for one thread must not be.
	__libc_single_threaded = 0;
	parse(argc, argv);
	if (args().out.empty()) args().out = "/dev/stdout";
	if (!args().replay.empty()) outFile().open(args().out);
}

// Collects the children's traces; a scenario whose process died is a trace with end = "crash".
inline int finish() {
	if (!args().replay.empty()) { outFile().flush(); _exit(0); }
	reap(0);
	long runs = 0, traces = 0, exh = 0, crashes = 0;
	std::ofstream out(args().out);
	for (auto & c : children()) {
		std::ifstream in(c.file); std::string line; bool complete = false;
		while (std::getline(in, line)) {
			if (line.empty()) continue;
			if (line[0] == '#') { complete = true; std::istringstream is(line.substr(1)); long r, t, e; is >> r >> t >> e; runs += r; traces += t; exh += e; }
			else if (line.size() > 2 && line.compare(line.size() - 2, 2, "\"}") == 0) out << line << "\n";
		}
		unlink(c.file.c_str());
		if (!complete || !WIFEXITED(c.status) || WEXITSTATUS(c.status) != 0) {
			++crashes;
			out << "{\"sc\":" << c.json << ",\"ev\":[],\"end\":\"crash\",\"blocked\":[],\"status\":" << c.status << ",\"rp\":\"" << c.id << "\"}\n";
		}
	}
	out.flush();
	std::cout << "{\"runs\":" << runs << ",\"distinct\":" << traces << ",\"scenarios\":" << children().size()
		<< ",\"exhausted\":" << exh << ",\"crashes\":" << crashes << "}" << std::endl;
	_exit(0);
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 2654435761u + 12345) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	int operator () (int n) { return int(next() % uint64_t(n)); }
};

} // namespace explore
