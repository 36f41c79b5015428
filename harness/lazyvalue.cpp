#include <Balau/Concurrent/LazyValue.hpp>
#include "common_ctl.hpp"
using Balau::Concurrent::LazyValue;

static bool gHb = false;

struct V { // default and copy constructible value: its assignment publishes the payload
	int v = 0; int w = 0;
	V() = default;
	explicit V(int v_) : v(v_), w(v_) {}
	V(const V &) = default;
	V & operator = (const V & o) { if (gHb) ctl::payloadWrite(1); v = o.v; w = o.w; return *this; }
};

struct Boom {};

static void scenario(const std::string & id, std::vector<std::string> progs, int failFirst, bool hasEnd, bool hb, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"n\":" + num(long(progs.size() + 1)) + ",\"hasEnd\":" + (hasEnd ? "1" : "0") + ",\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.memoryPoints = true; sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		gHb = hb;
		struct Sut { alignas(64) char mem[sizeof(LazyValue<V>)]; LazyValue<V> * l; int calls = 0; };
		auto s = std::make_shared<Sut>();
		memset(s->mem, 1, sizeof s->mem); // recycled memory
		if (hasEnd) s->l = new (s->mem) LazyValue<V>([] (V & v) { event("endcall", "\"v\":" + num(v.v)); });
		else s->l = new (s->mem) LazyValue<V>();
		for (size_t t = 0; t < progs.size(); ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				for (auto & o : ops) {
					if (o == "get") {
						event("call");
						try {
							V & v = (*s->l)([&] () -> V {
								int c = ++s->calls;
								event("begin");
								ctl::yield();
								if (c <= failFirst) { event("throw"); throw Boom(); }
								int val = ctl::self() * 100 + c;
								event("success", "\"v\":" + num(val));
								return V(val);
							});
							if (hb) ctl::payloadRead(1);
							event("ret", "\"v\":" + num(v.v == v.w ? v.v : -1) + ",\"a\":" + num(long((char *) &v - s->mem) + 1));
						} catch (const Boom &) { event("retexc"); }
					} else if (o == "obs") { bool r = s->l->isConstructed(); event("obs", std::string("\"r\":") + (r ? "1" : "0")); }
				}
			});
		}
		bodies.push_back([=] {
			ctl::join();
			bool r = s->l->isConstructed();
			event("obs", std::string("\"r\":") + (r ? "1" : "0"));
			event("destroy");
			s->l->~LazyValue<V>();
			event("destroyed");
		});
		return s;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 40000 : 3000, R = th ? 6000 : 500;
	int B = th ? 4 : 3;
	for (int e = 0; e < 2; ++e) {
		std::string s = e ? "e" : "n";
		scenario("none" + s, {"obs", "obs"}, 0, e, false, B, D, R);
		scenario("one" + s, {"obs get obs get obs"}, 0, e, false, B, D, 1);
		scenario("two" + s, {"get get", "get get"}, 0, e, false, B, D, R);
		scenario("three" + s, {"get", "get", "get"}, 0, e, false, B, D, R);
		scenario("four" + s, {"get", "get", "get get", "get get"}, 0, e, false, 2, D, R);
		scenario("fail1" + s, {"get", "get", "get"}, 1, e, false, B, D, R);
		scenario("fail2" + s, {"get get", "get get"}, 2, e, false, B, D, R);
		scenario("failall" + s, {"get obs get obs", "get"}, 9, e, false, B, D, R);
		scenario("hb2" + s, {"get", "get"}, 0, e, true, 3, 400, 100);
		scenario("hb3" + s, {"get", "get", "get"}, 1, e, true, 2, 400, 100);
	}
	return explore::finish();
}
