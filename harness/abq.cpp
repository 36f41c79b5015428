// ArrayBlockingQueue under the controlled scheduler.
#include <Balau/Container/ArrayBlockingQueue.hpp>
#include "../rt/explore.hpp"

using namespace std::chrono;

struct Item { // default constructible, movable; 0 = default
	int v = 0;
	Item() = default;
	explicit Item(int v_) : v(v_) {}
	Item(Item && o) noexcept : v(o.v) { o.v = 0; }
	Item & operator = (Item && o) noexcept { v = o.v; o.v = 0; return *this; }
	Item(const Item &) = delete;
	Item & operator = (const Item &) = delete;
};

using Queue = Balau::Container::ArrayBlockingQueue<Item>;

struct Op { std::string kind; int wait; bool explicitCallbacks; int cbSleep; };

static std::string now() { return ",\"now\":" + std::to_string(ctl::nowMs()) + "}"; }
static std::string self() { return std::to_string(ctl::self()); }

static void doOp(Queue & q, const Op & op, int value, bool payload, bool dcb) {
	std::string me = self();
	auto call = [&] (const char * k) {
		ctl::ev(std::string("{\"k\":\"call\",\"t\":") + me + ",\"op\":\"" + k + "\",\"v\":" + std::to_string(value) + ",\"w\":" + std::to_string(op.wait) + ",\"cb\":" + (op.explicitCallbacks || dcb ? "1" : "0") + ",\"ex\":" + (op.explicitCallbacks ? "1" : "0") + now());
	};
	auto ret = [&] (bool ok, int v) {
		ctl::ev("{\"k\":\"ret\",\"t\":" + me + ",\"ok\":" + (ok ? "1" : "0") + ",\"v\":" + std::to_string(v) + now());
	};
	Queue::Callback f = [&op] (const Item & i) { ctl::ev("{\"k\":\"cbf\",\"t\":" + self() + ",\"v\":" + std::to_string(i.v) + ",\"x\":1" + now()); (void) op; };
	Queue::Callback s = [] (const Item & i) { ctl::ev("{\"k\":\"cbs\",\"t\":" + self() + ",\"v\":" + std::to_string(i.v) + ",\"x\":1" + now()); };
	if (op.kind == "enq") {
		call("enq");
		if (payload) ctl::payloadWrite(value);
		if (op.explicitCallbacks) q.enqueue(Item(value), f, s); else q.enqueue(Item(value));
		ret(true, 0);
	} else if (op.kind == "tenq") {
		call("tenq");
		if (payload) ctl::payloadWrite(value);
		bool r;
		if (op.explicitCallbacks) r = q.tryEnqueue(Item(value), milliseconds(op.wait), f, s);
		else if (op.wait == 0) r = q.tryEnqueue(Item(value));
		else r = q.tryEnqueue(Item(value), milliseconds(op.wait));
		ret(r, 0);
	} else if (op.kind == "deq") {
		call("deq");
		Item i = q.dequeue();
		if (payload && i.v) ctl::payloadRead(i.v);
		ret(true, i.v);
	} else if (op.kind == "tdeq") {
		call("tdeq");
		bool ok = (value % 2) == 0; // must be set by the call, whatever it was
		Item i;
		if (op.explicitCallbacks) { // the overloads without success flag
			i = op.wait == 0 ? q.tryDequeue() : q.tryDequeue(milliseconds(op.wait));
			ok = i.v != 0;
		} else i = op.wait == 0 ? q.tryDequeue(ok) : q.tryDequeue(milliseconds(op.wait), ok);
		if (payload && i.v) ctl::payloadRead(i.v);
		ret(ok, i.v);
	} else if (op.kind == "sleep") {
		ctl::sleepMs(op.wait);
	} else if (op.kind == "join") {
		ctl::join();
		ctl::ev("{\"k\":\"alone\",\"t\":" + me + now());
	} else if (op.kind == "empty") {
		bool r = q.empty();
		ctl::ev("{\"k\":\"obs\",\"t\":" + me + ",\"op\":\"empty\",\"r\":" + (r ? "1" : "0") + now());
	} else if (op.kind == "full") {
		bool r = q.full();
		ctl::ev("{\"k\":\"obs\",\"t\":" + me + ",\"op\":\"full\",\"r\":" + (r ? "1" : "0") + now());
	}
}

static std::vector<Op> parseOps(const std::string & s) {
	std::vector<Op> v; std::istringstream is(s); std::string w;
	while (is >> w) {
		Op op{"", 0, false, 0};
		if (w.back() == '!') { op.explicitCallbacks = true; w.pop_back(); }
		auto c = w.find(':');
		op.kind = w.substr(0, c);
		if (c != std::string::npos) op.wait = std::stoi(w.substr(c + 1));
		v.push_back(op);
	}
	return v;
}

static void scenario(const std::string & id, int cap, std::vector<std::string> progs, bool freeTimeouts, bool spurious,
                     bool hb, int bound, long dfs, long rnd, bool defaultCb) {
	auto ops = std::make_shared<std::vector<std::vector<Op>>>();
	for (auto & p : progs) ops->push_back(parseOps(p));
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"cap\":" + std::to_string(cap) + ",\"n\":" + std::to_string(progs.size()) + ",\"strict\":" + (freeTimeouts ? "0" : "1")
		+ ",\"dcb\":" + (defaultCb ? "1" : "0") + ",\"hb\":" + (hb ? "1" : "0") + "}";
	sc.options.freeTimeouts = freeTimeouts;
	sc.options.spurious = spurious;
	sc.options.memoryPoints = true;
	sc.options.traceSync = hb;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		std::shared_ptr<Queue> q;
		if (defaultCb) q = std::make_shared<Queue>(unsigned(cap),
			[] (const Item & i) { ctl::ev("{\"k\":\"cbf\",\"t\":" + self() + ",\"v\":" + std::to_string(i.v) + ",\"x\":0" + now()); },
			[] (const Item & i) { ctl::ev("{\"k\":\"cbs\",\"t\":" + self() + ",\"v\":" + std::to_string(i.v) + ",\"x\":0" + now()); });
		else q = std::make_shared<Queue>(unsigned(cap));
		for (size_t t = 0; t < ops->size(); ++t) {
			bodies.push_back([q, ops, t, hb, defaultCb] {
				int k = 0;
				for (auto & op : (*ops)[t]) { ++k; doOp(*q, op, int(t + 1) * 100 + k, hb, defaultCb); }
			});
		}
		return q;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	long D = th ? 20000 : 1200, R = th ? 4000 : 150;
	int B = th ? 3 : 2;
	// Hand written: the wake-up, timeout and wrap-around shapes.
	scenario("prodcons1", 1, {"enq enq enq", "deq deq deq"}, false, false, false, B, D, R, true);
	scenario("prodcons2", 2, {"enq enq enq enq!", "deq deq deq deq"}, false, true, false, B, D, R, true);
	scenario("twocons", 2, {"enq enq", "deq", "deq"}, false, false, false, B, D, R, false);
	scenario("twocons_late", 1, {"deq", "deq", "enq enq"}, false, true, false, B, D, R, true);
	scenario("twoprod", 1, {"enq", "enq", "deq deq"}, false, false, false, B, D, R, true);
	scenario("twoprod2", 1, {"enq! enq", "enq enq", "deq deq deq deq"}, false, false, false, B, D, R, true);
	scenario("mixed4", 2, {"enq enq", "enq enq", "deq deq", "deq deq"}, false, false, false, B, D, R, true);
	scenario("mixed4s", 1, {"enq enq", "enq", "deq deq", "deq"}, false, true, false, B, D, R, false);
	scenario("three_deq", 3, {"enq enq enq", "deq", "deq", "deq"}, false, false, false, B, D, R, false);
	scenario("three_enq", 2, {"enq enq", "enq", "enq", "deq deq deq deq"}, false, false, false, B, D, R, true);
	scenario("overfull", 2, {"enq enq enq enq", "deq"}, false, false, false, B, D, R, true);
	scenario("overempty", 2, {"enq", "deq deq"}, false, false, false, B, D, R, true);
	scenario("timed_deq", 1, {"tdeq:5", "sleep:3 enq"}, false, true, false, B, D, R, true);
	scenario("timed_deq_late", 1, {"tdeq:5", "sleep:8 enq", "sleep:9 tdeq"}, false, false, false, B, D, R, true);
	scenario("timed_deq_steal", 1, {"tdeq:5", "sleep:3 enq tdeq", "sleep:6"}, false, false, false, B, D, R, true);
	scenario("timed_deq_steal2", 2, {"tdeq:10", "sleep:3 enq tdeq", "sleep:6 enq tdeq", "sleep:9 enq tdeq", "sleep:12 enq tdeq"}, false, true, false, B, D, R, true);
	scenario("timed_enq_steal2", 1, {"enq tenq:10", "sleep:3 tdeq tenq", "sleep:6 tdeq tenq", "sleep:9 tdeq tenq", "sleep:12 tdeq tenq"}, false, true, false, B, D, R, true);
	scenario("timed_enq", 1, {"enq tenq:5!", "sleep:3 deq deq"}, false, true, false, B, D, R, true);
	scenario("timed_enq_late", 1, {"enq tenq:5 tenq:5", "sleep:8 tdeq tdeq"}, false, false, false, B, D, R, true);
	scenario("race_timeout_deq", 1, {"tdeq:5", "enq", "tdeq:5", "enq"}, true, false, false, B, D, R, true);
	scenario("race_timeout_deq2", 2, {"tdeq:5", "deq", "enq enq"}, true, true, false, B, D, R, true);
	scenario("race_timeout_enq", 1, {"enq tenq:5", "enq", "deq deq"}, true, false, false, B, D, R, true);
	scenario("race_timeout_enq2", 1, {"enq", "tenq:5", "tenq:7", "deq tdeq:3"}, true, true, false, B, D, R, true);
	scenario("nowait", 2, {"tenq tenq tenq full tdeq empty tdeq empty tdeq tdeq! tenq! tdeq"}, false, false, false, B, D, 1, true);
	scenario("wrap3", 3, {"enq enq deq enq enq full deq deq enq enq deq deq empty deq empty tdeq:4"}, false, false, false, B, D, 1, true);
	scenario("wrap2", 2, {"enq enq deq enq deq enq deq enq full deq deq empty"}, false, false, false, B, D, 1, true);
	scenario("negwait", 1, {"tdeq:-3 enq tenq:-3 tdeq:-3"}, false, false, false, B, D, 1, true);
	scenario("drain", 2, {"enq enq", "deq", "join full empty tdeq tdeq empty tdeq"}, false, false, false, B, D, R, true);
	scenario("drain2", 3, {"enq tenq", "enq", "tdeq:2", "join full empty tdeq tdeq tdeq tdeq empty"}, true, false, false, B, D, R, true);
	scenario("hb1", 1, {"enq enq", "deq deq"}, false, false, true, 1, th ? 400 : 60, 20, false);
	scenario("hb2", 2, {"enq tenq:5", "deq", "tdeq:5"}, false, false, true, 1, th ? 400 : 60, 20, false);
	// Several threads waiting on the same full (or empty) queue of every capacity, then all of them served.
	for (int cap = 1; cap <= 3; ++cap) {
		const std::vector<std::vector<std::string>> waits { { "", "" }, { "", ":20" }, { ":20", ":20" }, { ":20", ":20", "" }, { ":20", ":20!", ":2" } };
		for (size_t w = 0; w < waits.size(); ++w) {
			auto times = [] (const std::string & op, size_t n) { std::string r; while (n--) r += op + " "; return r; };
			const size_t n = waits[w].size();
			std::vector<std::string> full { times("enq", cap) + "sleep:3 " + times("deq", cap + n - (w == 4)) + "tdeq:4 join tdeq empty" };
			std::vector<std::string> none { "sleep:3 " + times("enq", n - (w == 4)) + "tenq:4 join full" };
			for (auto & x : waits[w]) {
				full.push_back(std::string("sleep:1 ") + (x.empty() ? "enq" : "tenq" + x));
				none.push_back(std::string("sleep:1 ") + (x.empty() ? "deq" : "tdeq" + x));
			}
			std::string id = std::to_string(cap) + "_" + std::to_string(w);
			scenario("waitfull" + id, cap, full, false, w == 3, false, B, D / 6, R / 2, w & 1);
			scenario("waitnone" + id, cap, none, false, w == 3, false, B, D / 6, R / 2, w & 1);
		}
	}
	// Random programs.
	explore::Rng rng(explore::args().seed);
	int N = th ? 150 : 30;
	for (int i = 0; i < N; ++i) {
		int cap = 1 + rng(3), nt = 2 + rng(3);
		std::vector<std::string> progs;
		for (int t = 0; t < nt; ++t) {
			std::string p;
			int len = 1 + rng(nt > 3 ? 2 : 3);
			for (int k = 0; k < len; ++k) {
				switch (rng(10)) {
					case 0: case 1: p += rng(3) == 0 ? "enq! " : "enq "; break;
					case 2: p += "tenq "; break;
					case 3: p += "tenq:" + std::to_string(1 + rng(6)) + (rng(3) == 0 ? "! " : " "); break;
					case 4: case 5: p += "deq "; break;
					case 6: p += "tdeq "; break;
					case 7: case 8: p += "tdeq:" + std::to_string(1 + rng(6)) + (rng(3) == 0 ? "! " : " "); break;
					case 9: p += "sleep:" + std::to_string(1 + rng(6)) + " "; break;
				}
			}
			progs.push_back(p);
		}
		scenario("rnd" + std::to_string(explore::args().seed) + "_" + std::to_string(i), cap, progs, rng(2), rng(3) == 0, false, B, D / 4, R / 2, rng(2));
	}
	return explore::finish();
}
