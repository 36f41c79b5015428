#include "seq.hpp"
#include <Balau/Type/ToString.hpp>
struct V {
	int k = 0; int d = 0;
	V() = default;
	V(int k_, int d_) : k(k_), d(d_) {}
	explicit V(int k_) : k(k_), d(0) {}
	bool operator == (const V & o) const { return k == o.k; }
};
inline bool operator == (const V & v, int k) { return v.k == k; }
inline std::string toString(const V & v) { return std::to_string(v.k); }
#include <Balau/Container/ObjectTrie.hpp>
#include <list>
using namespace seq;
using Trie = Balau::Container::ObjectTrie<V>;
using Node = Balau::Container::ObjectTrieNode<V>;

static std::string tree(const Node & n) {
	std::string r = "{\"k\":" + std::to_string(n.value.k) + ",\"d\":" + std::to_string(n.value.d) + ",\"c\":[";
	for (size_t i = 0; i < n.count(); ++i) r += (i ? "," : "") + tree(n[i]);
	return r + "]}";
}
static std::string val(const Node & n, const std::string & more = "") { return "{\"k\":" + std::to_string(n.value.k) + ",\"d\":" + std::to_string(n.value.d) + more + "}"; }
static void add(std::string & s, const std::string & x) { if (s.size() > 1) s += ","; s += x; }

static std::vector<size_t> path(const std::string & s) { std::vector<size_t> v; auto p = split(s, '.'); for (size_t i = 1; i < p.size(); ++i) v.push_back(std::stoul(p[i])); return v; }
static std::vector<int> ints(const std::string & s) { std::vector<int> v; for (auto x : path(s)) v.push_back(int(x)); return v; }
// Path of a node, by identity; [0] when there is none.
static bool locate(const Node & from, const Node * n, std::vector<int> & p) {
	if (&from == n) return true;
	for (size_t i = 0; i < from.count(); ++i) { p.push_back(int(i + 1)); if (locate(from[i], n, p)) return true; p.pop_back(); }
	return false;
}
static std::string where(const Trie & t, const Node * n) {
	if (!n) return "[0]";
	std::vector<int> p;
	if (!locate(t.root(), n, p)) return "[-1]";
	return nums(p);
}
static int indexOf(const Node & parent, const Node * n) {
	if (!n) return 0;
	for (size_t i = 0; i < parent.count(); ++i) if (&parent[i] == n) return int(i + 1);
	return -1;
}
static bool loose(const V & a, const V & b) { return a.k % 10 == b.k % 10; }
static bool looseI(const V & a, int b) { return a.k % 10 == b % 10; }
static bool eqV(const V & a, const V & b) { return a.k == b.k; }
static bool eqI(const V & a, int b) { return a.k == b; }
static void replaceF(V & a, const V & b) { a.d = b.d + 1000; }
static V make(int k) { return V(k, 7777); }

template <typename It> std::string walk(It b, It e) {
	std::string r = "[";
	for (It i = b; i != e; ++i) add(r, val(*i));
	return r + "]";
}

static void run(const Script & s) {
	std::vector<Trie> t; t.reserve(3);
	for (int i = 0; i < 3; ++i) t.emplace_back(V(0, 0));
	for (auto & o : s.ops) {
		const std::string & c = o[0];
		int w = std::stoi(o[1]);
		Trie & T = t[size_t(w - 1)];
		const Trie & CT = T;
		auto node = [&] (const std::string & p) -> Node & { Node * n = &T.root(); for (auto i : path(p)) n = &(*n)[i - 1]; return *n; };
		auto pj = [&] { return nums(path(o[2])); };
		bool mutated = true;
		if (c == "add") {
			Node & n = node(o[2]); int k = std::stoi(o[3]), d = std::stoi(o[4]), var = std::stoi(o[5]);
			bool root = &n == &T.root();
			V v(k, d);
			int i = 0;
			const Node * r = nullptr;
			switch (var % 6) {
				case 0: if (root) T.add(v); else n.add(v); break;
				case 1: if (root) T.add(V(k, d)); else n.add(V(k, d)); break;
				case 2: r = root ? &T.addAndReturnChild(v) : &n.addAndReturnChild(v); break;
				case 3: r = root ? &T.addAndReturnChild(V(k, d)) : &n.addAndReturnChild(V(k, d)); break;
				case 4: r = &n.add(v).add(V(k + 1, d + 1)); r = r == &n ? nullptr : &n; i = int(n.count()) - 1; break;
				case 5: if (root) T.add(V(k, d), Node::child(V(k + 1, d + 1), Node::child(V(k + 2, d + 2))), Node::child(V(k + 3, d + 3))); else n.add(V(k, d), Node::child(V(k + 1, d + 1), Node::child(V(k + 2, d + 2))), Node::child(V(k + 3, d + 3))); i = int(n.count()); break;
			}
			if (var % 6 < 4) i = r ? indexOf(n, r) : int(n.count());
			Ev("add").n("w", w).j("p", pj()).n("k", k).n("d", d).n("i", i).done();
			if (var % 6 == 4) Ev("add").n("w", w).j("p", pj()).n("k", k + 1).n("d", d + 1).n("i", r ? -1 : i + 1).done();
			if (var % 6 == 5) {
				auto p = path(o[2]); p.push_back(size_t(i));
				Ev("add").n("w", w).j("p", nums(p)).n("k", k + 1).n("d", d + 1).n("i", 1).done();
				Ev("add").n("w", w).j("p", nums(p)).n("k", k + 3).n("d", d + 3).n("i", 2).done();
				p.push_back(1);
				Ev("add").n("w", w).j("p", nums(p)).n("k", k + 2).n("d", d + 2).n("i", 1).done();
			}
		} else if (c == "aor") {
			Node & n = node(o[2]); int k = std::stoi(o[3]), d = std::stoi(o[4]); bool L = o[5] == "loose", rep = o[6] == "1"; int var = std::stoi(o[7]);
			bool root = &n == &T.root() && (var & 4);
			V v(k, d);
			auto cmp = L ? loose : eqV;
			const Node * r = nullptr;
			bool ret = var & 1, mv = var & 2;
			if (rep) {
				if (ret) r = root ? (mv ? &T.addOrReplaceAndReturnChild(V(k, d), cmp, replaceF) : &T.addOrReplaceAndReturnChild(v, cmp, replaceF))
				                  : (mv ? &n.addOrReplaceAndReturnChild(V(k, d), cmp, replaceF) : &n.addOrReplaceAndReturnChild(v, cmp, replaceF));
				else if (root) T.addOrReplace(v, cmp, replaceF); else n.addOrReplace(v, cmp, replaceF);
			} else if (L || (var & 8)) {
				if (ret) r = root ? (mv ? &T.addOrReplaceAndReturnChild(V(k, d), cmp) : &T.addOrReplaceAndReturnChild(v, cmp))
				                  : (mv ? &n.addOrReplaceAndReturnChild(V(k, d), cmp) : &n.addOrReplaceAndReturnChild(v, cmp));
				else if (root) { if (mv) T.addOrReplace(V(k, d), cmp); else T.addOrReplace(v, cmp); } else { if (mv) n.addOrReplace(V(k, d), cmp); else n.addOrReplace(v, cmp); }
			} else {
				if (ret) r = root ? (mv ? &T.addOrReplaceAndReturnChild(V(k, d)) : &T.addOrReplaceAndReturnChild(v))
				                  : (mv ? &n.addOrReplaceAndReturnChild(V(k, d)) : &n.addOrReplaceAndReturnChild(v));
				else if (root) { if (mv) T.addOrReplace(V(k, d)); else T.addOrReplace(v); } else { if (mv) n.addOrReplace(V(k, d)); else n.addOrReplace(v); }
			}
			Ev("aor").n("w", w).j("p", pj()).n("k", k).n("d", d).s("cmp", L ? "loose" : "eq").b("rep", rep).n("i", ret ? indexOf(n, r) : 0).done();
		} else if (c == "foac") {
			Node & n = node(o[2]); int k = std::stoi(o[3]), d = std::stoi(o[4]); bool L = o[5] == "loose"; int var = std::stoi(o[6]);
			const Node * r;
			V v(k, d);
			if (!L && var == 0) r = &n.findOrAddChild(v);
			else if (!L && var == 1) r = &n.findOrAddChild(V(k, d));
			else if (var == 2) { r = &n.findOrAddChild(k, L ? looseI : eqI); d = 0; }
			else { r = &n.findOrAddChild(k, L ? looseI : eqI, make); d = 7777; }
			Ev("foac").n("w", w).j("p", pj()).n("k", k).n("d", d).s("cmp", L ? "loose" : "eq").n("i", indexOf(n, r)).done();
		} else if (c == "foa") {
			auto ks = ints(o[2]); bool L = o[3] == "loose"; int var = std::stoi(o[4]); int d = 0;
			const Node * r;
			if (var == 1) { std::list<int> l(ks.begin(), ks.end()); r = L ? &T.findOrAdd(l, looseI) : &T.findOrAdd(l, eqI); }
			else if (var == 2) { r = &T.findOrAdd(ks, L ? looseI : eqI, make); d = 7777; }
			else r = L ? &T.findOrAdd(ks, looseI) : &T.findOrAdd(ks);
			Ev("foa").n("w", w).j("ks", nums(ks)).s("cmp", L ? "loose" : "eq").n("d", d).j("r", where(T, r)).done();
		} else if (c == "findc") {
			mutated = false;
			Node & n = node(o[2]); const Node & cn = n; int k = std::stoi(o[3]); bool L = o[4] == "loose"; int var = std::stoi(o[5]);
			V v(k, 0);
			const Node * r = nullptr;
			if (L || var > 1) switch (var % 4) {
				case 0: r = n.find(v, L ? loose : eqV); break;
				case 1: r = cn.find(v, L ? loose : eqV); break;
				case 2: r = n.find(k, L ? looseI : eqI); break;
				case 3: r = cn.find(k, L ? looseI : eqI); break;
			} else r = var ? cn.find(v) : n.find(v);
			Ev("findc").n("w", w).j("p", pj()).n("k", k).s("cmp", L ? "loose" : "eq").n("i", indexOf(n, r)).done();
		} else if (c == "find" || c == "near" || c == "leaf") {
			mutated = false;
			auto ks = ints(o[2]); bool L = o[3] == "loose"; bool skip = o[4] == "1", cst = o[5] == "1";
			const Node * r;
			if (c == "find") r = L ? (cst ? CT.find(ks, looseI, skip) : T.find(ks, looseI, skip)) : (cst ? CT.find(ks, skip) : T.find(ks, skip));
			else if (c == "near") r = L ? (cst ? CT.findNearest(ks, looseI, skip) : T.findNearest(ks, looseI, skip)) : (cst ? CT.findNearest(ks, skip) : T.findNearest(ks, skip));
			else r = L ? (cst ? CT.findNearestLeaf(ks, looseI, skip) : T.findNearestLeaf(ks, looseI, skip)) : (cst ? CT.findNearestLeaf(ks, skip) : T.findNearestLeaf(ks, skip));
			Ev(c.c_str()).n("w", w).j("ks", nums(ks)).s("cmp", L ? "loose" : "eq").b("skip", skip).j("r", where(T, r)).done();
		} else if (c == "cascade" || c == "cascademove") {
			int f = std::stoi(o[2]); int inc = std::stoi(o[3]);
			if (f == w) continue;
			Trie & F = t[size_t(f - 1)];
			if (c == "cascade") {
				const Trie & CF = F;
				if (inc) T.cascade(CF, [inc] (const V & v) { return V(v.k, v.d + inc); }); else T.cascade(CF);
			} else {
				if (inc) T.cascade(std::move(F), [inc] (V & v) { return V(v.k, v.d + inc); }); else T.cascade(std::move(F));
				F = Trie(V(0, 0));
			}
			Ev(c.c_str()).n("w", w).n("from", f).n("inc", inc).done();
			Ev("dump").n("w", f).j("tree", tree(F.root())).done();
		} else if (c == "copy" || c == "move") {
			int f = std::stoi(o[2]); int var = std::stoi(o[3]);
			if (f == w) continue;
			Trie & F = t[size_t(f - 1)];
			if (c == "copy") { if (var) { Trie x(F); T = x; } else T = F; }
			else { if (var) { Trie x(std::move(F)); T = std::move(x); } else T = std::move(F); F = Trie(V(0, 0)); }
			Ev(c.c_str()).n("w", w).n("from", f).done();
			Ev("dump").n("w", f).j("tree", tree(F.root())).done();
		} else if (c == "reset") {
			int k = std::stoi(o[2]), d = std::stoi(o[3]);
			V v(k, d);
			T = d % 2 ? Trie(v) : Trie(V(k, d));
			Ev("reset").n("w", w).n("k", k).n("d", d).done();
		} else if (c == "walk") {
			mutated = false;
			std::string d = "[", cd = "[";
			for (auto i = T.begin(); i != T.end(); ++i) {
				std::string a = "[";
				size_t n = 0; while (i.getAncestor(n)) ++n;
				while (n) { --n; add(a, val(*i.getAncestor(n))); }
				add(d, val(*i, ",\"a\":" + a + "]"));
				std::vector<const Node *> as; i.getAncestors(as);
				if (i->value.k != (*i).value.k || as.empty() || as.back() != &*i) add(d, "{\"bad\":1}");
			}
			const auto ce = CT.end();
			for (auto i = CT.begin(); i != ce; ++i) {
				std::string a = "[";
				std::vector<const Node *> as; i.getAncestors(as);
				for (auto n : as) add(a, val(*n));
				add(cd, val(*i, ",\"a\":" + a + "]"));
				if (i.getAncestor(0) != &*i || i.getAncestor(as.size())) add(cd, "{\"bad\":1}");
			}
			Ev("walk").n("w", w).j("depth", d + "]").j("cdepth", cd + "]").j("breadth", walk(T.breadthBegin(), T.breadthEnd())).j("cbreadth", walk(CT.breadthBegin(), CT.breadthEnd())).done();
			// The children of every node through the node iterators.
			for (auto i = CT.breadthBegin(); i != CT.breadthEnd(); ++i) {
				size_t n = 0;
				for (auto & ch : *i) if (&ch != &(*i)[n++]) abort();
				if (n != i->count() || i->empty() != (n == 0)) abort();
			}
			if (CT.count() != CT.root().count() || CT.empty() != CT.root().empty() || (CT.count() && &CT[0] != &CT.root()[0])) abort();
		}
		if (mutated) Ev("dump").n("w", w).j("tree", tree(T.root())).done();
	}
	for (int w = 1; w <= 3; ++w) Ev("dump").n("w", w).j("tree", tree(t[size_t(w - 1)].root())).done();
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
