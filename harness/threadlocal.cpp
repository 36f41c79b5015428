#include "seq.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <Balau/Concurrent/ThreadLocalInstance.hpp>
using namespace seq;
static int counter;
static std::vector<int> gone;
struct Obj { int id; int value; Obj() : id(++counter), value(id) {} explicit Obj(int v) : id(++counter), value(v) {} ~Obj() { gone.push_back(id); value = -1; } };
struct NoDefault { int id; int value; explicit NoDefault(int v) : id(v), value(v) {} ~NoDefault() { gone.push_back(id); value = -1; } };
using L1 = Balau::Concurrent::ThreadLocalInstance<Obj>;
using L2 = Balau::Concurrent::ThreadLocalInstance<NoDefault>;

// A thread that runs one task at a time.
struct Worker {
	std::mutex m; std::condition_variable c; std::function<void ()> task; bool quit = false, busy = false;
	std::thread th;
	Worker() : th([this] {
		std::unique_lock<std::mutex> l(m);
		for (;;) { c.wait(l, [this] { return busy || quit; }); if (quit) return; task(); busy = false; c.notify_all(); }
	}) {}
	void run(std::function<void ()> f) { std::unique_lock<std::mutex> l(m); task = f; busy = true; c.notify_all(); c.wait(l, [this] { return !busy; }); }
	~Worker() { { std::unique_lock<std::mutex> l(m); quit = true; c.notify_all(); } th.join(); }
};
// Fixed storage, so that instances are re-created at the address of old ones.
template <typename L> struct Slots {
	alignas(L) char mem[4][sizeof(L)]; bool live[4] = {};
	L & at(int i) { return *reinterpret_cast<L *>(mem[i]); }
};
template <typename L, bool D> void go(const Script & s, bool factory) {
	counter = 0; gone.clear();
	static Slots<L> slots;
	std::map<int, std::unique_ptr<Worker>> ws;
	auto died = [&] (int t) { if (!gone.empty()) { Ev("died").n("t", t).j("gone", nums(gone)).done(); gone.clear(); } };
	auto exitT = [&] (int t) { ws.erase(t); Ev("exit").n("t", t).j("gone", nums(gone)).done(); gone.clear(); };
	auto destroy = [&] (int t, int i) { ws[t]->run([&] { slots.at(i).~L(); }); slots.live[i] = false; Ev("destroy").n("t", t).n("i", i).j("gone", nums(gone)).done(); gone.clear(); };
	for (auto & o : s.ops) {
		int a = std::stoi(o[1]), b = o.size() > 2 ? std::stoi(o[2]) : 0;
		if (o[0] == "new") { new (slots.mem[a]) L; slots.live[a] = true; Ev("new").n("i", a).done(); }
		else if (o[0] == "start") { ws[a] = std::make_unique<Worker>(); Ev("start").n("t", a).done(); }
		else if (o[0] == "exit") exitT(a);
		else if (o[0] == "destroy") destroy(a, b);
		else if (o[0] == "get") {
			int id = 0, value = 0; bool created = false;
			ws[a]->run([&] {
				int before = counter;
				if constexpr (D) {
					auto & x = factory ? slots.at(b)([] { return new Obj(counter + 1); }) : slots.at(b)();
					id = x.id; value = x.value;
				} else {
					auto & x = slots.at(b)([] { return new NoDefault(++counter); });
					id = x.id; value = x.value;
				}
				created = counter != before;
			});
			died(a);
			Ev("get").n("t", a).n("i", b).n("o", id).n("value", value).b("created", created).done();
		}
	}
	// A last round: what is there is still there.
	if (ws.empty()) { ws[9] = std::make_unique<Worker>(); Ev("start").n("t", 9).done(); }
	for (int i = 1; i < 4; ++i) if (slots.live[i]) destroy(ws.begin()->first, i);
	while (!ws.empty()) exitT(ws.begin()->first);
}
static void run(const Script & s) {
	if (s.sc == "\"plain\"") go<L1, true>(s, false);
	else if (s.sc == "\"factory\"") go<L1, true>(s, true);
	else go<L2, false>(s, true);
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
