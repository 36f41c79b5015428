// Injects classes annotated with each of the macros.  Operation:
// case NAME FORM MISSING: unique (u) or value (v), without one of the bindings.
#include "injmac.hpp"
using namespace seq;
std::vector<Made> made; std::vector<std::string> happened; long counter;
std::map<std::string, Case> & cases() { static std::map<std::string, Case> m; return m; }
static std::string join(const std::vector<std::string> & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
static void finish(Ev & e) {
	std::vector<std::string> v;
	for (auto & m : made) v.push_back("{\"id\":" + std::to_string(m.id) + ",\"t\":" + std::to_string(m.tag) + ",\"deps\":" + nums(m.deps) + "}");
	e.j("made", join(v)).j("hap", join(happened)).done(); made.clear(); happened.clear();
}
static void run(const Script & s) {
	int i = 0;
	made.clear(); happened.clear(); counter = 1000;
	for (auto & o : s.ops) {
		auto & c = cases().at(o[1]);
		bool value = o[2] == "v";
		int missing = std::stoi(o[3]);
		++i;
		std::vector<std::string> bs, ext, ds;
		std::shared_ptr<Injector> in;
		std::string res;
		{
			Conf conf;
			auto bounds = c.bounds();
			for (size_t k = 0; k < bounds.size(); ++k) {
				auto & b = bounds[k];
				if (b.ext) ext.push_back(std::to_string(b.o));
				if (int(k) == missing) continue;
				conf.steps.push_back(b.bind);
				bs.push_back("{\"k\":" + js(b.k) + ",\"n\":" + js(b.n) + ",\"f\":" + js(b.f) + ",\"t\":" + std::to_string(b.t) + ",\"o\":" + std::to_string(b.o) + ",\"deps\":[]}");
			}
			for (auto & d : c.deps) ds.push_back("[" + js(d.first) + "," + js(d.second) + "]");
			bs.push_back("{\"k\":" + js(value ? "V" : "U") + ",\"n\":\"C\",\"f\":\"inst\",\"t\":" + (value ? "100" : "0") + ",\"o\":0,\"deps\":" + join(ds) + "}");
			conf.steps.push_back(value ? c.bindV : c.bindU);
			bounds.clear();
			res = outcome([&] { in = Injector::create(conf); });
		}
		Ev e("create");
		e.n("i", i).n("p", 0).s("res", res).j("bs", join(bs)).j("ext", join(ext)).j("posts", "[]").j("pres", "[]").j("ran", "[]").j("stat", "[]");
		finish(e);
		if (!in) continue;
		for (int k = 0; k < 2; ++k) {
			Ev g("get");
			g.n("t", 0).n("i", i).s("k", value ? "V" : "U").s("n", "C").s("d", "none");
			std::string r = outcome([&] { c.get(*in, value, g); });
			g.s("res", r); finish(g);
		}
		in.reset();
		Ev d("drop"); d.n("i", i); finish(d);
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
