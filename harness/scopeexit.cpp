#include "seq.hpp"
#include <optional>
#include <Balau/Type/OnScopeExit.hpp>
#include <Balau/Type/MovableOnScopeExit.hpp>
using namespace seq;
using namespace Balau;
static std::vector<int> runs;
struct Any { virtual ~Any() = default; virtual void clear() = 0; virtual void exec() = 0; virtual bool reset(int) { return false; } virtual Any * move() { return nullptr; } };
struct Fixed : Any {
	OnScopeExit x;
	explicit Fixed(int f) : x([f] { runs.push_back(f); }) {}
	void clear() override { x.clear(); }
	void exec() override { x.executeNow(); }
	bool reset(int f) override { x.rest([f] { runs.push_back(f); }); return true; }
};
struct Movable : Any {
	std::unique_ptr<MovableOnScopeExit> x;
	bool moved = false;
	explicit Movable(int f) : x(f % 2 ? new MovableOnScopeExit([f] { runs.push_back(f); }) : new MovableOnScopeExit(std::function<void ()>([f] { runs.push_back(f); }))) {}
	explicit Movable(std::unique_ptr<MovableOnScopeExit> y) : x(std::move(y)) {}
	void clear() override { if (!moved) x->clear(); }
	void exec() override { if (!moved) x->executeNow(); }
	Any * move() override { auto m = moved ? nullptr : new MovableOnScopeExit(std::move(*x)); auto r = new Movable(std::unique_ptr<MovableOnScopeExit>(m)); r->moved = moved; moved = true; return r; }
};
static void run(const Script & s) {
	bool movable = s.sc == "\"movable\"";
	std::map<int, std::unique_ptr<Any>> objs;
	runs.clear();
	auto done = [&] (Ev & e) { e.j("runs", nums(runs)); e.done(); runs.clear(); };
	for (auto & o : s.ops) {
		int a = std::stoi(o[1]), b = o.size() > 2 ? std::stoi(o[2]) : 0;
		Ev e(o[0].c_str());
		e.n("o", a);
		if (o[0] == "new") { if (movable) objs[a] = std::make_unique<Movable>(b); else objs[a] = std::make_unique<Fixed>(b); e.n("f", b); }
		else if (o[0] == "clear") objs[a]->clear();
		else if (o[0] == "exec") objs[a]->exec();
		else if (o[0] == "reset") { objs[a]->reset(b); e.n("f", b); }
		else if (o[0] == "move") { objs[b].reset(objs[a]->move()); e.n("q", b); }
		else if (o[0] == "destroy") objs.erase(a);
		done(e);
	}
	while (!objs.empty()) { int a = objs.begin()->first; objs.erase(objs.begin()); Ev e("destroy"); e.n("o", a); done(e); }
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
