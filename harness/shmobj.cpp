#include "seq.hpp"
#include <Balau/Interprocess/MSharedMemoryObject.hpp>
#include <Balau/Interprocess/USharedMemoryObject.hpp>
using namespace seq;
using namespace Balau::Interprocess;
struct Small { int a; explicit Small(int v) : a(v) {} void set(int v) { a = v; } int last() const { return a; } };
struct Big { int a; int fill[2500]; explicit Big(int v) { set(v); } void set(int v) { a = v; for (auto & f : fill) f = v; } int last() const { return fill[2499]; } };

template <typename O> void go(const Script & s, bool unmanaged) {
	std::map<int, std::unique_ptr<O>> hs;
	std::set<int> moved;
	std::set<std::string> names;
	std::string prefix = "vtsmo_" + std::to_string(getpid()) + "_";
	auto full = [&] (const std::string & n) { names.insert(prefix + n); return prefix + n; };
	auto see = [&] {
		std::string r = "[";
		for (auto & h : hs) {
			if (moved.count(h.first)) continue;
			if (r.size() > 1) r += ",";
			const O & c = *h.second;
			if (&*c != c.operator -> ()) abort();
			r += "[" + std::to_string(h.first) + "," + std::to_string(c->a) + "," + std::to_string((*c).last()) + "]";
		}
		Ev("see").j("see", r + "]").done();
	};
	for (auto & o : s.ops) {
		const std::string & c = o[0];
		Ev e(c.c_str());
		std::string r;
		if (c == "childwrite" || c == "childopen") {
			bool open = c == "childopen";
			int p[2]; if (pipe(p)) abort();
			int v = std::stoi(o[2]);
			std::string n = open ? full(o[1]) : "";
			pid_t pid = fork();
			if (pid == 0) {
				int was = -1;
				std::string res = outcome([&] {
					if (open) { O * x = new O(OpenOnlySelector(), n); was = (*x)->a == (**x).last() ? (*x)->a : -2; (**x).set(v); }
					else {
						O & x = *hs[std::stoi(o[1])];
						if constexpr (std::is_same_v<O, USharedMemoryObject<Small>> || std::is_same_v<O, USharedMemoryObject<Big>>) x.remap();
						x->set(v);
					}
				});
				std::string m = res + " " + std::to_string(was) + "\n";
				if (write(p[1], m.data(), m.size()) < 0) _exit(1);
				_exit(0);
			}
			close(p[1]);
			char buf[200]; ssize_t k = read(p[0], buf, sizeof buf); close(p[0]);
			int st; waitpid(pid, &st, 0);
			std::string m(buf, k > 0 ? size_t(k) : 0), was = "-1";
			auto sp = m.find(' ');
			r = st == 0 && sp != std::string::npos ? m.substr(0, sp) : "childdied";
			if (sp != std::string::npos) was = m.substr(sp + 1, m.size() - sp - 2);
			if (open) e.s("n", o[1]).j("was", was); else e.n("h", std::stoi(o[1]));
			e.n("v", v).s("r", r).done();
			see();
			continue;
		}
		int h = std::stoi(o[1]);
		e.n("h", h);
		if (c == "create") { int v = std::stoi(o[3]); r = outcome([&] { hs[h] = std::make_unique<O>(CreateOnlySelector(), full(o[2]), v); }); e.s("n", o[2]).n("v", v); }
		else if (c == "unnamed") { int v = std::stoi(o[2]); r = outcome([&] { hs[h] = std::make_unique<O>(v); }); e.n("v", v); }
		else if (c == "openor") { int v = std::stoi(o[3]); r = outcome([&] { hs[h] = std::make_unique<O>(OpenOrCreateSelector(), full(o[2]), v); }); e.s("n", o[2]).n("v", v); }
		else if (c == "open") { r = outcome([&] { hs[h] = std::make_unique<O>(OpenOnlySelector(), full(o[2])); }); e.s("n", o[2]); }
		else if (c == "openro") { r = outcome([&] { hs[h] = std::make_unique<O>(OpenReadOnlySelector(), full(o[2])); }); e.s("n", o[2]); }
		else if (c == "write") { int v = std::stoi(o[2]); r = outcome([&] { (*hs[h])->a = v + 1; (**hs[h]).set(v); }); e.n("v", v); }
		else if (c == "move") {
			int g = std::stoi(o[2]);
			r = outcome([&] {
				if (g % 2) hs[g] = std::make_unique<O>(std::move(*hs[h]));
				else { O tmp(std::move(*hs[h])); hs[g] = std::make_unique<O>(0); hs[g]->~O(); new (hs[g].get()) O(std::move(tmp)); }
			});
			moved.insert(h); moved.erase(g); e.n("g", g);
		}
		else if (c == "destroy") { r = outcome([&] { hs.erase(h); }); moved.erase(h); }
		if (r != "ok") hs.erase(h);
		e.s("r", r).done();
		see();
	}
	hs.clear();
	for (auto & n : names) { boost::interprocess::shared_memory_object::remove(n.c_str()); boost::interprocess::shared_memory_object::remove((n + "_memory").c_str()); }
}
static void run(const Script & s) {
	if (s.sc == "\"MS\"") go<MSharedMemoryObject<Small>>(s, false);
	else if (s.sc == "\"MB\"") go<MSharedMemoryObject<Big>>(s, false);
	else if (s.sc == "\"US\"") go<USharedMemoryObject<Small>>(s, true);
	else go<USharedMemoryObject<Big>>(s, true);
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
