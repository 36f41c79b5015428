// The test runner: groups of tests that pass, fail, or end their process.
#include <Balau/Testing/TestRunner.hpp>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <atomic>
#include <sys/resource.h>
#include "seq.hpp"
using namespace seq;
using namespace Balau;
using namespace Balau::Testing;

static const int METHODS = 12;
struct Test { int id = 0, ms = 0; std::string label, group, name, setup, body, teardown; };
static std::vector<Test> & tests() { static std::vector<Test> t; return t; }

// What the tests did, in memory that outlives the processes of the tests.
struct Rec { int pid, tid, test, phase, before; char group[16]; };
struct Log { std::atomic<int> n; Rec r[4000]; };
static Log * steps;
static std::atomic<int> begun { 0 };   // tests this process has begun
static thread_local Rec * setupOf = nullptr;
static thread_local int current = 0;

static Rec * record(const std::string & group, int phase, int before) {
	int k = steps->n++;
	if (k >= 4000) { static Rec none; return &none; }
	auto & r = steps->r[k];
	r.pid = getpid(); r.tid = int(syscall(SYS_gettid)); r.test = current; r.phase = phase; r.before = before;
	snprintf(r.group, sizeof r.group, "%s", group.c_str());
	return &r;
}

struct Odd : std::runtime_error { using std::runtime_error::runtime_error; };
static bool ends(const std::string & what) { return std::string("CAKXY").find(what[0]) != std::string::npos; }

static void act(const std::string & what, const std::string & m) {
	switch (what[0]) {
		case 'F': assertThat(m, 1, is(2)); break;
		case 'B': assertThat(m + std::string(7000, 'b') + m, 1, is(2)); break;
		case 'E': throw Odd(m);
		case 'O': throw 42;
		case 'I': Testing::Impl::TestGroupBase::ignoreCurrent(); break;
		case 'C': raise(SIGSEGV); break;
		case 'A': abort();
		case 'K': syscall(SYS_kill, getpid(), SIGKILL); pause(); break;
		case 'X': _exit(0);
		case 'Y': _exit(3);
		default: break;
	}
}

// Setup and teardown belong to the group: which test they are for shows only when the body runs.
template <typename G> struct Group : public TestGroup<G> {
	std::vector<int> ids;
	std::string label, setupKind = "P", teardownKind = "P";
	Group() = default;
	explicit Group(unsigned int models) : TestGroup<G>(models) {}
	void body(int i) {
		auto & t = tests()[size_t(ids[size_t(i)] - 1)];
		current = t.id;
		setupOf->test = t.id;
		record(label, 1, 0);
		if (t.ms) usleep(useconds_t(t.ms) * 1000);
		act(t.body, "<" + std::to_string(t.id) + ">B");
	}
	template <int I> void method() { body(I); }
	void setup() override { current = 0; setupOf = record(label, 0, begun++); act(setupKind, "<" + label + ">S"); }
	void teardown() override {
		record(label, 2, 0);
		if (!ends(teardownKind)) record(label, 3, 0);
		act(teardownKind, "<" + label + ">T");
	}
	template <int I> void reg(const std::string & name, int i) {
		if constexpr (I < METHODS) { if (i == I) this->registerTestCase(&G::template method<I>, name); else reg<I + 1>(name, i); }
	}
	void add(int id, const std::string & name) { int i = int(ids.size()); ids.push_back(id); reg<0>(name, i); }
};

#define GROUP(N) struct N : public Group<N> { N() = default; explicit N(unsigned int m) : Group<N>(m) {} };
namespace n1 { GROUP(Alpha) GROUP(Alphabet) GROUP(Beta) GROUP(Gamma_2) GROUP(D) }
namespace n2 { GROUP(Alpha) GROUP(D) }

struct Chunks { std::mutex m; std::string text; };
static Chunks & chunks() { static Chunks c; return c; }
struct Keep : public TestWriter {
	void writeString(const std::string & s) override { std::lock_guard<std::mutex> l(chunks().m); chunks().text += s; }
	std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new Keep); }
};

static std::string kindOf(Testing::Impl::TestResult::Result r) {
	switch (r) {
		case Testing::Impl::TestResult::Result::Success: return "pass";
		case Testing::Impl::TestResult::Result::Failure: return "fail";
		case Testing::Impl::TestResult::Result::Error: return "error";
		default: return "ignored";
	}
}
static const Test * byName(const std::string & n) { for (auto & t : tests()) if (t.group + "::" + t.name == n) return &t; return nullptr; }
// Which of the phases' messages the text has.
static std::string has(const Test * t, const std::string & text) {
	auto f = [&] (const char * p, const std::string & kind) {
		std::string m = (*p == 'B' ? "<" + std::to_string(t->id) + ">" : "<" + t->label + ">") + p;
		if (kind == "B") m += std::string(7000, 'b') + m;
		return text.find(m) != std::string::npos;
	};
	return t ? std::string("[") + (f("S", t->setup) ? "true," : "false,") + (f("B", t->body) ? "true," : "false,") + (f("T", t->teardown) ? "true]" : "false]") : "[false,false,false]";
}
struct Report { std::string group, cases; };
static std::vector<Report> & reports() { static std::vector<Report> r; return r; }
struct Own : public Testing::Impl::TestReportGenerator {
	void generate(const Testing::Impl::TestGroupBase & g, const std::chrono::nanoseconds &, const std::vector<const Testing::Impl::TestResult *> & rs) override {
		Report r;
		r.group = g.getGroupName();
		r.cases = "[";
		for (auto x : rs) {
			auto t = byName(x->testName);
			r.cases += std::string(r.cases.size() > 1 ? "," : "") + "{\"t\":" + std::to_string(t ? t->id : 0) + ",\"r\":" + js(kindOf(x->result)) + ",\"m\":" + has(t, x->resultText) + "}";
		}
		r.cases += "]";
		reports().push_back(r);
	}
};

static void run(const Script & s) {
	struct rlimit none { 0, 0 };
	setrlimit(RLIMIT_CORE, &none);
	steps = (Log *) mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::map<std::string, std::function<void (int, const std::string &)>> adders;
	std::map<std::string, std::string> groupName;
	std::map<std::string, std::pair<std::string, std::string>> shape;
	std::map<std::string, long> groupMask;
	for (auto & o : s.ops) {
		auto & n = o[0];
		auto at = [&] (size_t i) { return i < o.size() ? o[i] : std::string(); };
		auto num = [&] (size_t i) { return std::stoi(at(i)); };
		if (n == "group") {
			// group CLASS MODELS SETUP TEARDOWN
			auto make = [&] (auto * g, const char * name) {
				g->label = at(1); g->setupKind = at(3); g->teardownKind = at(4);
				adders[at(1)] = [g] (int id, const std::string & nm) { g->add(id, nm); };
				groupName[at(1)] = name;
				shape[at(1)] = { at(3), at(4) };
				groupMask[at(1)] = num(2);
			};
			unsigned int m = unsigned(num(2));
			if (at(1) == "alpha") make(new n1::Alpha(m), "Alpha");
			else if (at(1) == "alphabet") make(new n1::Alphabet(m), "Alphabet");
			else if (at(1) == "beta") make(new n1::Beta(m), "Beta");
			else if (at(1) == "gamma") make(new n1::Gamma_2(m), "Gamma_2");
			else if (at(1) == "d") make(new n1::D(m), "D");
			else if (at(1) == "alpha2") make(new n2::Alpha(m), "Alpha");
			else if (at(1) == "d2") make(new n2::D(m), "D");
		} else if (n == "test") {
			// test CLASS NAME BODY MS
			if (!adders.count(at(1))) continue;
			Test t;
			t.id = int(tests().size()) + 1;
			t.group = groupName[at(1)]; t.name = at(2); t.label = at(1); t.setup = shape[at(1)].first; t.body = at(3); t.teardown = shape[at(1)].second; t.ms = num(4);
			tests().reserve(200);
			tests().push_back(t);
			adders[at(1)](t.id, t.name);
			std::string mask = "[";
			const char * names[] = { "SingleThreaded", "WorkerThreads", "WorkerProcesses", "ProcessPerTest" };
			for (int b = 0; b < 4; ++b) if (groupMask[at(1)] & (1 << b)) mask += std::string(mask.size() > 1 ? "," : "") + js(names[b]);
			Ev("test").n("t", t.id).s("label", t.label).s("group", t.group).j("name", codes(t.group + "::" + t.name)).s("setup", t.setup).s("body", t.body).s("teardown", t.teardown).j("models", mask + "]").done();
		} else if (n == "run") {
			// run HOW MODEL CONCURRENCY ARG...
			std::string how = at(1), model = at(2), dir = args().out + ".d" + std::to_string(getpid());
			std::vector<std::string> pats(o.begin() + 4, o.end()), words { "app" };
			std::string name = model == "worker-threads" ? "WorkerThreads" : model;
			std::string folder = dir + "/a/b";
			bool files = how == "surefire";
			if (files) { words.push_back(num(3) % 2 ? "-r" : "--report-folder"); words.push_back(folder); }
			if (model != "default") { words.push_back(num(3) % 2 ? "--execution-model" : "-e"); words.push_back(num(3) % 3 == 1 ? Util::Strings::toLower(name) : name); }
			if (num(3)) { words.push_back(num(3) % 2 ? "-c" : "--concurrency"); words.push_back(at(3)); }
			if (how == "help") words.push_back("-h");
			for (auto & p : pats) words.push_back(p);
			std::vector<char *> argv;
			for (auto & w : words) argv.push_back(&w[0]);
			int first = how == "nofirst" ? 1 : 0;
			std::string ps = "[";
			for (auto & p : pats) ps += (ps.size() > 1 ? "," : "") + codes(p);
			bool direct = how == "model" || how == "modelnone";
			Ev("run").s("how", how).s("model", model == "default" ? "SingleThreaded" : name).n("conc", direct || num(3) == 0 ? long(std::thread::hardware_concurrency()) : num(3)).j("args", (direct ? "[" : ps) + "]").done();
			int rc = -1;
			ExecutionModel em = name == "WorkerThreads" ? WorkerThreads : name == "WorkerProcesses" ? WorkerProcesses : name == "ProcessPerTest" ? ProcessPerTest : SingleThreaded;
			fflush(nullptr);
			auto keepOut = dup(1);
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			auto res = outcome([&] {
				auto own = std::shared_ptr<Testing::Impl::TestReportGenerator>(new Own);
				auto sure = std::shared_ptr<Testing::Impl::TestReportGenerator>(new Reporters::SurefireTestReportGenerator);
				if (how == "model") { ::mkdir(dir.c_str(), 0700); rc = TestRunner::run(em, Resource::File(dir), own, Keep()); }
				else if (how == "modelnone") rc = TestRunner::run(em, Resource::File(), own, Keep());
				else if (how == "nogen") rc = TestRunner::run(int(argv.size()), argv.data(), true, std::shared_ptr<Testing::Impl::TestReportGenerator>(), Keep());
				else rc = TestRunner::run(int(argv.size()) - first, argv.data() + first, first == 0, files ? sure : own, Keep());
			});
			fflush(nullptr);
			dup2(keepOut, 1);
			close(nul); close(keepOut);
			std::map<std::pair<int, int>, int> workers;
			const char * phases[] = { "setup", "body", "teardown", "end" };
			int cnt = std::min(steps->n.load(), 4000);
			for (int k = 0; k < cnt; ++k) {
				auto & r = steps->r[k];
				auto key = std::make_pair(r.pid, r.tid);
				if (!workers.count(key)) { int w = int(workers.size()) + 1; workers[key] = w; }
				Ev("step").n("w", workers[key]).b("parent", r.pid == getpid()).b("main", r.tid == getpid()).n("t", r.test).s("label", r.group).s("p", phases[r.phase]).n("before", r.before).done();
			}
			Ev("ran").s("res", res).n("rc", rc).done();
			// The output.
			std::istringstream in(chunks().text);
			std::string l, verdict;
			long passed = -1, ignored = -1, failed = 0, errored = 0;
			bool list = false;
			std::vector<std::string> out;
			std::string listed = "[";
			auto count = [&] (const char * label, long & to) { std::string p = std::string("  tests ") + label + ":"; if (l.compare(0, p.size(), p) == 0) to = std::stol(l.substr(p.size())); };
			while (std::getline(in, l)) {
				static const std::regex start("\\+\\+ Running test group (.*)"), completed("== (.*) group completed\\."),
					result(" -(?: *\\d+ -)? Test (\\S+) +- (passed\\.|ignored\\.|FAILED!).*"), found(" - *\\d+ - Found test:  (\\S+) +- SEGMENTATION FAULT!");
				std::smatch m;
				if (std::regex_match(l, m, start)) Ev("start").s("group", m[1].str()).done();
				else if (std::regex_match(l, m, completed)) Ev("completed").s("group", m[1].str()).done();
				else if (std::regex_match(l, m, result)) { auto t = byName(m[1].str()); Ev("line").n("t", t ? t->id : 0).s("r", m[2] == "passed." ? "pass" : m[2] == "ignored." ? "ignored" : "failed").done(); }
				else if (std::regex_match(l, m, found)) { auto t = byName(m[1].str()); Ev("line").n("t", t ? t->id : 0).s("r", "crashed").done(); }
				else if (l == "ALL TESTS PASSED" || l.find("THERE WERE TEST FAILURES") != std::string::npos) verdict = l == "ALL TESTS PASSED" ? "passed" : "failed";
				else if (l == "Failed/errored tests:") list = true;
				else if (list && l.compare(0, 6, "      ") == 0) { auto t = byName(l.substr(6)); listed += std::string(listed.size() > 1 ? "," : "") + std::to_string(t ? t->id : 0); }
				else { list = false; count("passed", passed); count("ignored", ignored); count("failed", failed); count("errored", errored); }
			}
			if (how != "help") Ev("summary").s("verdict", verdict).n("passed", passed).n("ignored", ignored).n("failed", failed).n("errored", errored).j("list", listed + "]").done();
			for (auto & r : reports()) Ev("report").s("group", r.group).j("cases", r.cases).done();
			if (files) {
				std::vector<std::string> names;
				boost::system::error_code ec;
				for (boost::filesystem::directory_iterator i(folder, ec), e; !ec && i != e; ++i) names.push_back(i->path().string());
				std::sort(names.begin(), names.end());
				for (auto & f : names) {
					boost::property_tree::ptree t;
					auto x = outcome([&] { boost::property_tree::read_xml(f, t); });
					if (x != "ok") { Ev("badxml").s("res", x).done(); continue; }
					auto & suite = t.get_child("testsuite");
					std::string cases = "[";
					long shown = 0;
					for (auto & c : suite) {
						if (c.first != "testcase") continue;
						++shown;
						auto tt = byName(c.second.get<std::string>("<xmlattr>.name", ""));
						std::string r = "pass", text;
						for (auto k : { "failure", "error", "skipped" }) if (auto y = c.second.get_child_optional(k)) { r = std::string(k) == "failure" ? "fail" : std::string(k) == "skipped" ? "ignored" : "error"; text = y->get<std::string>("<xmlattr>.message", ""); }
						cases += std::string(cases.size() > 1 ? "," : "") + "{\"t\":" + std::to_string(tt ? tt->id : 0) + ",\"r\":" + js(r) + ",\"m\":" + has(tt, text) + ",\"class\":" + js(c.second.get<std::string>("<xmlattr>.classname", "")) + "}";
					}
					std::string fn = f.substr(f.rfind('/') + 1);
					Ev("xml").s("file", fn).s("group", suite.get<std::string>("<xmlattr>.name", "")).n("tests", suite.get<long>("<xmlattr>.tests", -1)).n("failures", suite.get<long>("<xmlattr>.failures", -1))
						.n("errors", suite.get<long>("<xmlattr>.errors", -1)).n("skipped", suite.get<long>("<xmlattr>.skipped", -1)).j("cases", cases + "]").done();
				}
			}
			Ev("over").done();
			boost::system::error_code ec;
			boost::filesystem::remove_all(dir, ec);
		}
	}
}

int main(int argc, char ** argv) { return seq::main(argc, argv, run, true); }
