#include <Balau/Concurrent/SingleTimeExecutor.hpp>
#include "common_ctl.hpp"
using Balau::Concurrent::SingleTimeExecutor;

struct Boom {};

static void scenario(const std::string & id, std::vector<std::string> progs, int failFirst, bool hasEnd, bool hb, int fill, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"n\":" + num(long(progs.size() + 1)) + ",\"hasEnd\":" + (hasEnd ? "1" : "0") + ",\"hb\":" + (hb ? "1" : "0") + ",\"fill\":" + num(fill) + "}";
	sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		struct Sut { alignas(64) char mem[sizeof(SingleTimeExecutor)]; SingleTimeExecutor * l; int calls = 0; };
		auto s = std::make_shared<Sut>();
		memset(s->mem, fill, sizeof s->mem); // recycled memory
		Sut * raw = s.get();
		std::function<void ()> code = [raw, failFirst, hb] {
			int c = ++raw->calls;
			event("begin");
			ctl::yield();
			if (c <= failFirst) { event("throw"); throw Boom(); }
			if (hb) ctl::payloadWrite(1);
			ctl::yield();
			event("success", "\"v\":1");
		};
		if (hasEnd) s->l = new (s->mem) SingleTimeExecutor(code, [hb] { if (hb) ctl::payloadRead(1); event("endcall", "\"v\":1"); });
		else s->l = new (s->mem) SingleTimeExecutor(code);
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				for (auto & o : ops) {
					if (o == "run") {
						event("call");
						try {
							(*s->l)();
							if (hb) ctl::payloadRead(1);
							event("ret", "\"v\":1,\"a\":1");
						} catch (const Boom &) { event("retexc"); }
					} else if (o == "obs") { bool r = s->l->hasExecuted(); event("obs", std::string("\"r\":") + (r ? "1" : "0")); }
				}
			});
		}
		bodies.push_back([=] {
			ctl::join();
			bool r = s->l->hasExecuted();
			event("obs", std::string("\"r\":") + (r ? "1" : "0"));
			event("destroy");
			s->l->~SingleTimeExecutor();
			event("destroyed");
		});
		return s;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 40000 : 3000, R = th ? 6000 : 500;
	int B = th ? 4 : 3;
	for (int e = 0; e < 2; ++e) for (int f = 0; f < 2; ++f) {
		std::string s = std::string(e ? "e" : "n") + (f ? "1" : "0");
		scenario("none" + s, {"obs", "obs"}, 0, e, false, f, B, D, R);
		scenario("one" + s, {"obs run obs run obs"}, 0, e, false, f, B, D, 1);
		scenario("two" + s, {"run run", "run run"}, 0, e, false, f, B, D, R);
		scenario("three" + s, {"run", "run", "run"}, 0, e, false, f, B, D, R);
		scenario("four" + s, {"run", "run", "run run", "run run"}, 0, e, false, f, 2, D, R);
		scenario("fail1" + s, {"run", "run", "run"}, 1, e, false, f, B, D, R);
		scenario("fail2" + s, {"run run", "run run"}, 2, e, false, f, B, D, R);
		scenario("failall" + s, {"run obs run obs", "run"}, 9, e, false, f, B, D, R);
		scenario("hb2" + s, {"run", "run"}, 0, e, true, f, 3, 400, 100);
		scenario("hb3" + s, {"run", "run", "run"}, 1, e, true, f, 2, 400, 100);
	}
	return explore::finish();
}
