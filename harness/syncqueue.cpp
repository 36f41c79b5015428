#include <Balau/Container/SynchronizedQueue.hpp>
#include "common_ctl.hpp"
using Q = Balau::Container::SynchronizedQueue<int>;

static void scenario(const std::string & id, std::vector<std::string> progs, bool hb, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"n\":" + num(long(progs.size())) + ",\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		auto q = std::make_shared<Q>();
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				int k = 0;
				for (auto & o : ops) {
					if (o == "join") { ctl::join(); continue; }
					int v = int(t + 1) * 100 + ++k;
					if (hb && o == "enq") ctl::payloadWrite(v);
					event("call", "\"op\":\"" + o + "\",\"v\":" + num(v));
					if (o == "enq") { q->enqueue(v); event("ret", "\"r\":\"ok\",\"v\":0"); }
					else if (o == "empty") { bool r = q->empty(); event("ret", std::string("\"r\":\"") + (r ? "true" : "false") + "\",\"v\":0"); }
					else {
						try {
							int r = q->dequeue();
							if (hb) ctl::payloadRead(r);
							event("ret", "\"r\":\"ok\",\"v\":" + num(r));
						} catch (const Balau::Exception::EmptyException &) { event("ret", "\"r\":\"empty\",\"v\":0"); }
					}
				}
			});
		}
		return q;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 10000 : 800, R = th ? 4000 : 250;
	int B = th ? 3 : 2;
	scenario("seq", {"empty enq enq enq empty deq enq deq deq empty deq deq empty"}, false, B, D, 1);
	scenario("one_one", {"enq enq enq", "deq deq deq deq"}, false, B, D, R);
	scenario("two_two", {"enq enq", "enq enq", "deq deq", "deq deq", "join deq deq deq deq deq empty"}, false, B, D, R);
	scenario("racelast", {"enq", "deq", "deq", "empty"}, false, B + 1, D, R);
	scenario("racelast2", {"enq deq", "enq deq", "empty deq"}, false, B, D, R);
	scenario("enqenq", {"enq enq", "enq enq", "enq", "join deq deq deq deq deq deq"}, false, B, D, R);
	scenario("hb", {"enq enq", "deq deq"}, true, 2, 200, 40);
	explore::Rng rng(explore::args().seed);
	for (int i = 0; i < (th ? 120 : 20); ++i) {
		std::vector<std::string> progs;
		int nt = 2 + rng(3);
		for (int t = 0; t < nt; ++t) {
			std::string p;
			for (int k = 1 + rng(3); k > 0; --k) { int r = rng(7); p += r < 3 ? "enq " : r < 6 ? "deq " : "empty "; }
			progs.push_back(p);
		}
		progs.push_back("join empty deq deq deq deq deq empty");
		scenario("rnd" + num(long(explore::args().seed)) + "_" + num(i), progs, false, 2, D / 4, R / 2);
	}
	return explore::finish();
}
