#include "seq.hpp"
#include <ctime>
#include <Balau/Type/ToString.hpp>
#include <Balau/Exception/SystemExceptions.hpp>
#include <Balau/Concurrent/Fork.hpp>
using namespace seq;
using Balau::Concurrent::Fork;
struct P { int pid = 0, cmd = -1, res = -1; bool reaped = false; };
static std::map<int, P> ps;
static int indexOf(int pid) { if (pid == 0) return 0; for (auto & p : ps) if (p.second.pid == pid) return p.first; return -1; }
// Signals only ever reach processes the script forked.
extern "C" int kill(pid_t pid, int sig) noexcept {
	if (pid <= 0 || indexOf(pid) <= 0) { Ev("straykill").n("pid", pid).done(); errno = EPERM; return -1; }
	return int(syscall(SYS_kill, pid, sig));
}
static std::string report(const Fork::TerminationReport & r) {
	std::string c = r.code == CLD_EXITED ? "exited" : r.code == CLD_KILLED ? "killed" : r.code == CLD_DUMPED ? "dumped" : r.code == 0 ? "none" : "other";
	return "{\"p\":" + std::to_string(indexOf(r.pid)) + ",\"code\":\"" + c + "\",\"status\":" + std::to_string(r.exitStatus) + "}";
}
// Waits until the process is a zombie; false when it does not become one.
static bool settle(int pid) {
	for (int i = 0; i < 6000; ++i) {
		siginfo_t s; memset(&s, 0, sizeof s);
		if (waitid(P_PID, pid, &s, WEXITED | WNOHANG | WNOWAIT) == 0 && s.si_pid == pid) return true;
		usleep(i < 1000 ? 200 : 1000);
	}
	return false;
}
static void tell(P & p, int c, int delay) { int m[2] = { c, delay }; if (write(p.cmd, m, sizeof m) != sizeof m) abort(); }
static void run(const Script & s) {
	ps.clear();
	signal(SIGPIPE, SIG_IGN);
	for (auto & o : s.ops) {
		int a = o.size() > 1 ? std::stoi(o[1]) : 0, b = o.size() > 2 ? std::stoi(o[2]) : 0;
		const char * c = o[0].c_str();
		if (o[0] == "fork") {
			int cmd[2], res[2];
			if (pipe(cmd) || pipe(res)) abort();
			int parent = getpid();
			int ran = 0;
			auto f = [&] () -> int {
				++ran;
				int m[2];
				if (getpid() == parent) return 99;
				if (read(cmd[0], m, sizeof m) != sizeof m) _exit(240);
				if (m[1]) usleep(useconds_t(m[1]) * 1000);
				if (write(res[1], &ran, sizeof ran) != sizeof ran) _exit(241);
				return m[0];
			};
			int r = b == 1 ? Fork::performFork(f, true) : b == 2 ? Fork::performFork(f, false) : Fork::performFork(f);
			if (getpid() != parent) { // the child
				if (b == 3) { _exit(r == 0 ? 0 : 251); }
				_exit(b == 2 ? r : 250);
			}
			close(cmd[0]); close(res[1]);
			bool fresh = r > 0 && r != parent && indexOf(r) == -1 && ran == 0;
			ps[a].pid = r; ps[a].cmd = cmd[1]; ps[a].res = res[0];
			Ev("fork").n("p", a).n("mode", b).b("fresh", fresh).done();
			ps[a].reaped = false;
			// In mode 3 the result of the function does not reach the child's exit status.
			if (b == 3) ps[a].cmd = -cmd[1];
		} else if (o[0] == "exits" || o[0] == "waitlater") {
			P & p = ps[a];
			bool later = o[0] == "waitlater";
			bool three = p.cmd < 0;
			int cmdfd = three ? -p.cmd : p.cmd;
			P q = p; q.cmd = cmdfd;
			tell(q, b, later ? 20 : 0);
			std::string r, v;
			if (later) r = outcome([&] { v = report(Fork::waitOnProcess(p.pid)); });
			else if (!settle(p.pid)) abort();
			int ran = 0;
			if (read(p.res, &ran, sizeof ran) != sizeof ran) ran = -1;
			Ev("child").n("p", a).n("ran", ran).done();
			int code = three ? 0 : b;
			if (later) { if (v.empty()) v = "{}"; Ev(c).n("p", a).n("c", code).s("r", r).j("v", v).done(); }
			else Ev(c).n("p", a).n("c", code).done();
		} else if (o[0] == "killed") {
			kill(ps[a].pid, b);
			if (!settle(ps[a].pid)) abort();
			Ev(c).n("p", a).n("c", b).done();
		} else if (o[0] == "check" || o[0] == "wait" || o[0] == "term") {
			siginfo_t si; memset(&si, 0, sizeof si);
			bool running = waitid(P_PID, ps[a].pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == 0;
			std::string v = "{\"p\":0,\"code\":\"none\",\"status\":0}";
			std::string r = outcome([&] { v = report(o[0] == "check" ? Fork::checkForTermination(ps[a].pid) : o[0] == "wait" ? Fork::waitOnProcess(ps[a].pid) : Fork::terminateProcess(ps[a].pid)); });
			bool died = true;
			if (o[0] == "term" && running) { died = settle(ps[a].pid); }
			Ev(c).n("p", a).s("r", r).j("v", v).b("died", died).done();
		} else if (o[0] == "many") {
			std::vector<int> pids, is;
			for (size_t i = 1; i < o.size(); ++i) { is.push_back(std::stoi(o[i])); pids.push_back(ps[is.back()].pid); }
			std::string v = "[";
			std::string r = outcome([&] { for (auto & x : Fork::checkForTermination(pids)) { if (v.size() > 1) v += ","; v += report(x); } });
			Ev(c).j("ps", nums(is)).s("r", r).j("v", v + "]").done();
		} else if (o[0] == "bad") {
			for (int x : { 0, -1, -77 }) for (int k = 0; k < 3; ++k) {
				std::string v;
				size_t n = 0;
				std::string r = outcome([&] { v = report(k == 0 ? Fork::checkForTermination(x) : k == 1 ? Fork::waitOnProcess(x) : Fork::terminateProcess(x)); n = Fork::checkForTermination(std::vector<int> { x }).size(); });
				Ev(c).s("r", r).j("v", v.empty() ? "{}" : v).n("n", long(n)).done();
			}
		}
	}
	for (auto & p : ps) { kill(p.second.pid, SIGKILL); close(std::abs(p.second.cmd)); close(p.second.res); }
	while (waitpid(-1, nullptr, 0) > 0) {}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
