#include <Balau/Concurrent/Semaphore.hpp>
#include "common_ctl.hpp"
using Balau::Concurrent::Semaphore;

static void scenario(const std::string & id, int init, std::vector<std::string> progs, bool spurious, bool hb, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"init\":" + num(init) + ",\"n\":" + num(long(progs.size())) + ",\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.spurious = spurious; sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		auto s = std::make_shared<Semaphore>(unsigned(init));
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([s, ops, hb] {
				for (auto & o : ops) {
					if (o.substr(0, 5) == "sleep") { ctl::sleepMs(std::stoi(o.substr(6))); continue; }
					if (hb && o == "inc") ctl::payloadWrite(1);
					event("call", "\"op\":\"" + o + "\"");
					if (o == "inc") s->increment(); else s->decrement();
					event("ret");
					if (hb && o == "dec") ctl::payloadRead(1);
				}
			});
		}
		return s;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 40000 : 3000, R = th ? 4000 : 300;
	int B = th ? 4 : 3;
	scenario("pingpong", 0, {"inc inc", "dec dec"}, false, false, B, D, R);
	scenario("two_waiters", 0, {"dec", "dec", "inc inc"}, false, false, B, D, R);
	scenario("two_waiters_sp", 0, {"dec", "dec", "inc inc"}, true, false, B, D, R);
	scenario("two_waiters_late", 0, {"dec", "dec", "sleep:1 inc inc"}, true, false, B, D, R);
	scenario("three_waiters_late", 0, {"dec", "dec", "dec", "sleep:1 inc inc inc"}, false, false, B, D, R);
	scenario("three_waiters_burst", 0, {"dec", "dec", "dec", "sleep:1 inc", "sleep:1 inc", "sleep:1 inc"}, false, false, 2, D, R);
	scenario("short", 0, {"dec", "dec", "inc"}, true, false, B, D, R);
	scenario("mutex", 1, {"dec inc dec inc", "dec inc", "dec inc"}, false, false, B, D, R);
	scenario("init2", 2, {"dec", "dec dec", "dec inc inc"}, true, false, B, D, R);
	scenario("steal", 0, {"dec", "sleep:1 inc dec", "sleep:2 inc"}, true, false, B, D, R);
	scenario("steal2", 0, {"dec", "dec", "sleep:1 inc inc dec", "sleep:2 inc"}, true, false, B, D, R);
	scenario("chain", 1, {"dec dec inc", "inc dec inc dec", "inc inc dec"}, false, false, B, D, R);
	scenario("hb", 0, {"inc", "dec"}, false, true, 3, 200, 40);
	explore::Rng rng(explore::args().seed);
	for (int i = 0; i < (th ? 200 : 40); ++i) {
		std::vector<std::string> progs;
		int nt = 2 + rng(4);
		for (int t = 0; t < nt; ++t) {
			std::string p;
			for (int k = 1 + rng(nt > 3 ? 2 : 4); k > 0; --k) p += rng(6) == 0 ? "sleep:" + num(1 + rng(3)) + " " : rng(2) ? "inc " : "dec ";
			progs.push_back(p);
		}
		scenario("rnd" + num(long(explore::args().seed)) + "_" + num(i), rng(3), progs, rng(2), false, 2, D / 4, R);
	}
	return explore::finish();
}
