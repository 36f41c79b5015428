#include "seq.hpp"
#include <Balau/Type/ToString.hpp>
#include <Balau/Container/DependencyGraph.hpp>
struct V { std::string key; int data = -1; };
inline bool operator == (const V & a, const V & b) { return a.key == b.key; }
namespace std { template <> struct hash<V> { size_t operator () (const V & v) const { return hash<string>()(v.key); } }; }
inline std::string toString(const V & v) { return v.key; }
using namespace seq;
struct Data { int v = 0; };
using Graph = Balau::Container::DependencyGraph<V, Data>;

static std::string item(const V & v) { return "{\"k\":" + js(v.key) + ",\"d\":" + std::to_string(v.data) + "}"; }
template <typename C> std::string items(const C & c) { std::string r = "["; bool f = true; for (auto & v : c) { if (!f) r += ","; f = false; r += item(v); } return r + "]"; }

static void obs(Graph & g, const std::vector<std::string> & keys) {
	const Graph & cg = g;
	Ev e("obs");
	std::string ks = "[", rs = "[";
	for (auto & k : keys) {
		V key { k, -7 };
		std::vector<V> deps;
		std::string r = outcome([&] { deps = cg.directDependenciesOf(key); });
		auto p = cg.lookupDependency(key);
		if (ks.size() > 1) ks += ",";
		ks += "{\"k\":" + js(k) + ",\"has\":" + (cg.hasDependency(key) ? "true" : "false") + ",\"data\":" + std::to_string(p ? p->data : -1)
			+ ",\"r\":" + js(r) + ",\"deps\":" + items(deps) + "}";
		for (auto & k2 : keys) {
			int d = -1;
			r = outcome([&] { d = cg.getRelation(key, V { k2, -8 }).v; });
			if (rs.size() > 1) rs += ",";
			rs += "{\"a\":" + js(k) + ",\"b\":" + js(k2) + ",\"r\":" + js(r) + ",\"d\":" + std::to_string(d) + "}";
		}
	}
	e.j("keys", ks + "]").j("rels", rs + "]");
	std::vector<V> it, cit;
	for (auto i = g.begin(); i != g.end(); ++i) it.push_back(*i);
	for (auto & v : cg) cit.push_back(v);
	e.j("iter", items(it)).j("citer", items(cit));
	std::vector<V> order;
	std::vector<std::vector<V>> levels;
	e.s("orderR", outcome([&] { order = cg.dependencyOrder(); })).j("order", items(order));
	e.s("levelsR", outcome([&] { levels = cg.parallelDependencyOrder(); }));
	std::string ls = "[";
	for (auto & l : levels) { if (ls.size() > 1) ls += ","; ls += items(l); }
	e.j("levels", ls + "]");
	std::vector<std::pair<V, V>> c;
	e.b("cyc", cg.hasCycles()).b("cyc2", cg.hasCycles(c));
	std::string cs = "[";
	for (auto & p : c) { if (cs.size() > 1) cs += ","; cs += "[" + js(p.first.key) + "," + js(p.second.key) + "]"; }
	e.j("cycles", cs + "]");
	// The edges are added to what the vector holds already.
	std::vector<std::pair<V, V>> more(3, std::pair<V, V>(V { "old" }, V { "old" }));
	e.b("cyc3", cg.hasCycles(more)).b("kept", more.size() == c.size() + 3 && std::equal(c.begin(), c.end(), more.begin() + 3)
		&& std::all_of(more.begin(), more.begin() + 3, [] (auto & p) { return p.first.key == "old" && p.second.key == "old"; })).done();
}

static void run(const Script & s) {
	Graph g;
	std::vector<std::string> keys = split(s.sc.substr(1, s.sc.size() - 2), ',');
	for (auto & k : keys) { std::string t; for (char c : k) if (isalnum(c)) t += c; k = t; }
	for (auto & o : s.ops) {
		if (o[0] == "add") { bool st = o[3] == "1"; int d = std::stoi(o[2]); Ev("add").s("a", o[1]).n("d", d).b("strict", st).s("r", outcome([&] { g.addDependency(V { o[1], d }, st); })).done(); }
		else if (o[0] == "remove") { bool st = o[2] == "1"; Ev("remove").s("a", o[1]).b("strict", st).s("r", outcome([&] { g.removeDependency(V { o[1], -3 }, st); })).done(); }
		else if (o[0] == "relate") { int d = std::stoi(o[3]); Ev("relate").s("a", o[1]).s("b", o[2]).n("d", d).s("r", outcome([&] { g.addRelationship(V { o[1], -4 }, V { o[2], -5 }, Data { d }); })).done(); }
		else if (o[0] == "relate0") { Ev("relate").s("a", o[1]).s("b", o[2]).n("d", 0).s("r", outcome([&] { g.addRelationship(V { o[1], -4 }, V { o[2], -5 }); })).done(); }
		else if (o[0] == "unrelate") { Ev("unrelate").s("a", o[1]).s("b", o[2]).s("r", outcome([&] { g.removeRelationship(V { o[1], -4 }, V { o[2], -5 }); })).done(); }
		else if (o[0] == "obs") obs(g, keys);
	}
	obs(g, keys);
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
