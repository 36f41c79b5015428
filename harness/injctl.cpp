// Lazy singletons of one injector, requested by several threads.
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include "common_ctl.hpp"
using namespace Balau;

static bool gHb = false;
static int gCalls = 0, gFail = 0;
struct Boom {};

struct One {
	int v = 0, w = 0;
	One() {
		int c = ++gCalls;
		event("begin");
		ctl::yield();
		if (c <= gFail) { event("throw"); throw Boom(); }
		if (gHb) ctl::payloadWrite(1);
		v = w = ctl::self() * 100 + c;
		event("success", "\"v\":" + num(v));
	}
	~One() { event("endcall", "\"v\":" + num(v)); }
	BalauInject(One)
};
struct Holder { // gets the singleton through a dependency
	std::shared_ptr<One> one;
	BalauInjectConstruct(Holder, one)
};
struct Conf : ApplicationConfiguration {
	void configure() const override {
		bind<One>().toSingleton();
		bind<Holder>("h").toSingleton();
		bind<Holder>().toUnique<Holder>();
	}
};
struct Empty : ApplicationConfiguration { void configure() const override { } };

static void scenario(const std::string & id, std::vector<std::string> progs, int fail, bool hb, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"n\":" + num(long(progs.size() + 1)) + ",\"hasEnd\":1,\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		gHb = hb; gCalls = 0; gFail = fail;
		struct Sut { std::shared_ptr<Injector> parent, inj; const One * first = nullptr; };
		auto s = std::make_shared<Sut>();
		s->parent = Injector::create(Conf());
		s->inj = s->parent->createChild(Empty());
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				for (auto & o : ops) {
					event("call");
					try {
						std::shared_ptr<const One> p;
						if (o == "s") p = s->parent->getShared<One>();
						else if (o == "cs") p = s->parent->getShared<const One>();
						else if (o == "w") { std::weak_ptr<One> w = s->parent->getShared<One>(); p = w.lock(); }
						else if (o == "child") p = s->inj->getShared<One>();
						else if (o == "dep") p = s->inj->getUnique<Holder>()->one;
						else if (o == "h") p = s->inj->getShared<Holder>("h")->one;
						if (hb) ctl::payloadRead(1);
						if (!s->first) s->first = p.get(); // the object that was returned first
						event("ret", "\"v\":" + num(p->v == p->w ? p->v : -1) + ",\"a\":" + num(p.get() == s->first ? 1 : 2));
					} catch (const Boom &) { event("retexc"); }
				}
			});
		}
		bodies.push_back([=] {
			ctl::join();
			event("destroy");
			s->inj.reset();
			s->parent.reset();
			event("destroyed");
		});
		return s;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 20000 : 1500, R = th ? 3000 : 300;
	int B = th ? 3 : 2;
	scenario("two", {"s s", "s cs"}, 0, false, B, D, R);
	scenario("kinds", {"cs", "w", "child"}, 0, false, B, D, R);
	scenario("deps", {"dep", "s", "dep"}, 0, false, B, D, R);
	scenario("both", {"h", "s", "h"}, 0, false, B, D, R);
	scenario("fail", {"s", "cs", "s"}, 1, false, B, D, R);
	scenario("faildep", {"h", "dep", "s h"}, 1, false, B, D, R);
	scenario("hb2", {"s", "child"}, 0, true, 2, 200, 50);
	scenario("hb3", {"h", "s", "dep"}, 1, true, 2, 200, 50);
	return explore::finish();
}
