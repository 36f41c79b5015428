#include <Balau/Concurrent/CyclicBarrier.hpp>
#include "common_ctl.hpp"
using Balau::Concurrent::CyclicBarrier;

// phases: list of (parties, rounds); the barrier is reconfigured between the phases.
static void scenario(const std::string & id, std::vector<std::pair<int, int>> phases, int stragglers, bool spurious, bool hb, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	int n = 0;
	for (auto & p : phases) n = std::max(n, p.first);
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"parties\":" + num(phases[0].first) + ",\"n\":" + num(n) + ",\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.spurious = spurious; sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		auto b = std::make_shared<CyclicBarrier>(unsigned(phases[0].first));
		auto done = std::make_shared<std::vector<int>>(phases.size(), 0);
		auto opened = std::make_shared<int>(0);
		for (int t = 0; t < n; ++t) {
			bodies.push_back([=] {
				for (size_t p = 0; p < phases.size(); ++p) {
					if (p > 0) {
						// Everybody has finished the previous phase: thread 0 reconfigures.
						if (t == 0) {
							ctl::waitUntil([=] { return (*done)[p - 1] == phases[p - 1].first; });
							b->reconfigure(unsigned(phases[p].first));
							event("reconf", "\"v\":" + num(phases[p].first));
							*opened = int(p);
						} else ctl::waitUntil([=] { return *opened >= int(p); });
					}
					if (t >= phases[p].first) continue;
					for (int r = 0; r < phases[p].second; ++r) {
						if (stragglers && t == n - 1 && p + 1 == phases.size() && r + 1 == phases[p].second) return; // never arrives
						if (hb) ctl::payloadWrite(t * 10 + r);
						event("call");
						b->countdown();
						event("ret");
						if (hb) for (int u = 0; u < n; ++u) ctl::payloadRead(u * 10 + r);
					}
					++(*done)[p];
				}
			});
		}
		return b;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 60000 : 4000, R = th ? 6000 : 600;
	int B = th ? 4 : 2;
	scenario("p1", {{1, 3}}, 0, false, false, B, D, R);
	scenario("p2", {{2, 3}}, 0, false, false, B + 1, D, R);
	scenario("p2s", {{2, 3}}, 0, true, false, B, D, R);
	scenario("p3", {{3, 3}}, 0, false, false, B, D, R);
	scenario("p3s", {{3, 2}}, 0, true, false, B, D, R);
	scenario("p4", {{4, 3}}, 0, false, false, B, D, R);
	scenario("p5", {{5, 2}}, 0, false, false, B, D, R);
	scenario("p2straggler", {{2, 3}}, 1, false, false, B, D, R);
	scenario("p3straggler", {{3, 2}}, 1, true, false, B, D, R);
	scenario("p4straggler", {{4, 2}}, 1, false, false, B, D, R);
	scenario("re23", {{2, 2}, {3, 2}}, 0, false, false, B, D, R);
	scenario("re32", {{3, 1}, {2, 2}}, 0, false, false, B, D, R);
	scenario("re412", {{4, 1}, {1, 2}, {2, 1}}, 0, false, false, B, D, R);
	scenario("re13straggler", {{1, 1}, {3, 2}}, 1, false, false, B, D, R);
	scenario("hb2", {{2, 2}}, 0, false, true, 1, 100, 40);
	scenario("hb3", {{3, 1}}, 0, false, true, 1, 100, 40);
	if (th) {
		scenario("p6", {{6, 3}}, 0, false, false, 2, D, R);
		scenario("p3long", {{3, 6}}, 0, false, false, 2, D, R);
		scenario("p4s", {{4, 4}}, 0, true, false, 2, D, R);
	}
	return explore::finish();
}
