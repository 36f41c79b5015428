#include "inj.hpp"
using namespace seq;
std::vector<Made> made; std::vector<std::string> happened; long counter; std::string names[8][4];
std::map<const Injector *, long> injectorIds;
static std::vector<std::pair<long, std::weak_ptr<const Injector>>> known;
static long creating;
long injDep(std::shared_ptr<const Injector> p) {
	if (!p) return 0;
	for (auto & k : known) if (auto q = k.second.lock()) if (q == p) return k.first;
	known.emplace_back(creating, p);
	return creating;
}
#define FORMS X(bindU) X(bindUD) X(bindLazy) X(bindLazyD) X(bindEager) X(bindEagerD) X(bindTl) X(bindTlD) X(bindCLazy) X(bindCEager) X(bindCTl) X(bindProvU) X(bindProvS) X(bindProvCS) X(bindProvV)
#define X(f) bool f(const Conf &, int, const std::string &, const std::string &);
FORMS
#undef X
struct Gone : B { using B::B; };
struct ProvI : B { long tag; explicit ProvI(long t) : tag(t) {} Proxy operator () () const { return { tag + 50, id }; } };
static B & refObject(int n) { static std::vector<std::unique_ptr<B>> v; while (int(v.size()) <= n) { v.emplace_back(new B); } return *v[size_t(n)]; }
static std::map<int, std::shared_ptr<B>> statics;
struct Worker {
	std::mutex m; std::condition_variable c; std::function<void ()> task; bool quit = false, busy = false;
	std::thread th;
	Worker() : th([this] {
		std::unique_lock<std::mutex> l(m);
		for (;;) { c.wait(l, [this] { return busy || quit; }); if (quit) return; task(); busy = false; c.notify_all(); }
	}) {}
	void run(std::function<void ()> f) { std::unique_lock<std::mutex> l(m); task = f; busy = true; c.notify_all(); c.wait(l, [this] { return !busy; }); }
	~Worker() { { std::unique_lock<std::mutex> l(m); quit = true; c.notify_all(); } th.join(); }
};
static std::string join(const std::vector<std::string> & v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
static std::string madeJson() {
	std::vector<std::string> v;
	for (auto & m : made) v.push_back("{\"id\":" + std::to_string(m.id) + ",\"t\":" + std::to_string(m.tag) + ",\"deps\":" + nums(m.deps) + "}");
	return join(v);
}
static void finish(Ev & e) { e.j("made", madeJson()).j("hap", join(happened)).done(); made.clear(); happened.clear(); }
struct Binding { std::string k, n, f, shape; int t; std::vector<std::string> dn; long o = 0; };
struct World {
	std::map<int, std::shared_ptr<Injector>> inj;
	std::map<int, std::unique_ptr<Injector::ValidationParent>> val;
	std::map<int, std::unique_ptr<Worker>> ws;
};
static std::function<void (const Conf &)> step(Binding & b, std::vector<std::string> & ext) {
	std::string n = b.n; int t = b.t;
	if (b.f == "lazy" || b.f == "eager" || b.f == "tl" || b.f == "lazyD" || b.f == "eagerD" || b.f == "tlD" || b.f == "cls" || (b.f == "inst" && b.k[0] == 'U')) {
		auto f = b.f == "inst" ? (b.k == "U" ? bindU : bindUD) : b.f == "lazy" ? (b.k == "S" ? bindLazy : bindCLazy) : b.f == "lazyD" ? bindLazyD
			: b.f == "eager" ? (b.k == "S" ? bindEager : bindCEager) : b.f == "eagerD" ? bindEagerD : b.f == "tl" ? (b.k == "S" ? bindTl : bindCTl) : b.f == "tlD" ? bindTlD
			: b.k == "U" ? bindProvU : b.k == "S" ? bindProvS : b.k == "CS" ? bindProvCS : bindProvV;
		auto shape = b.shape;
		for (size_t i = 0; i < b.dn.size(); ++i) names[t][i] = b.dn[i];
		return [=] (const Conf & c) { if (!f(c, t, shape, n)) _exit(77); };
	}
	auto ex = [&] (long o) { b.o = o; ext.push_back(std::to_string(o)); };
	if (b.k == "V") {
		if (b.f == "inst") return [=] (const Conf & c) { c.b<VA>(n).toValue(); };
		if (b.f == "proto") { long o = ++counter; b.o = o; return [=] (const Conf & c) { c.b<VA>(n).toValue(VA(o)); }; }
		if (b.f == "fn") return [=] (const Conf & c) { c.b<VA>(n).toValueProvider([t] { long i = ++counter; made.push_back({ i, t + 50, {} }); return VA(i); }); };
		if (b.f == "obj") { auto p = std::make_shared<ProvI>(t); ex(p->id); return [=] (const Conf & c) { c.b<VA>(n).toValueProvider<ProvI>(p); }; }
	}
	if (b.k == "VS") return [=] (const Conf & c) { c.b<VS>(n).toValue(); };
	if (b.k == "U") {
		if (b.f == "fn") return [=] (const Conf & c) { c.b<B>(n).toUniqueProvider([t] { return U(new Product(t + 50, 0)); }); };
		if (b.f == "obj") { auto p = std::make_shared<ProvI>(t); ex(p->id); return [=] (const Conf & c) { c.b<B>(n).toUniqueProvider<ProvI>(p); }; }
	}
	if (b.k == "R") { b.o = refObject(t).id; return [=] (const Conf & c) { c.b<B>(n).toReference(refObject(t)); }; }
	if (b.k == "CR") { b.o = refObject(t).id; return [=] (const Conf & c) { c.b<const B>(n).toReference(refObject(t)); }; }
	if (b.k == "S") {
		if (b.f == "given") { auto p = std::make_shared<Gone>(); ex(p->id); return [=] (const Conf & c) { c.b<B>(n).toSingleton(std::shared_ptr<B>(p)); }; }
		if (b.f == "raw") { auto p = new Gone; ex(p->id); return [=] (const Conf & c) { c.b<B>(n).toSingleton(p); }; }
		if (b.f == "rawD") { auto p = new Gone; ex(p->id); return [=] (const Conf & c) { c.b<B>(n).template toSingleton<Del>(p); }; }
		if (b.f == "fn") return [=] (const Conf & c) { c.b<B>(n).toSingletonProvider([t] { return S(new Product(t + 50, 0)); }); };
		if (b.f == "obj") { auto p = std::make_shared<ProvI>(t); ex(p->id); return [=] (const Conf & c) { c.b<B>(n).template toSingletonProvider<ProvI>(p); }; }
	}
	if (b.k == "CS") {
		if (b.f == "given") { auto p = std::make_shared<Gone>(); ex(p->id); return [=] (const Conf & c) { c.b<const B>(n).toSingleton(std::shared_ptr<const B>(p)); }; }
		if (b.f == "fn") return [=] (const Conf & c) { c.b<const B>(n).toSingletonProvider([t] { return CS(new Product(t + 50, 0)); }); };
	}
	_exit(78);
}
template <typename T> static std::string got(Ev & e, T && x) { e.n("o", idOf(x)); return "ok"; }
// Requests.
static std::string get(Ev & e, const Injector & i, const std::string & k, const std::string & n, int via, const std::string & d) {
	std::string res; long ext = 0; int supplied = 0; bool isDef = false;
	std::function<void ()> f;
	if (d == "none") {
		if (k == "V") { if (via == 0) got(e, i.getInstance<VA>(n)); else if (via == 1) got(e, i.getValue<VA>(n)); else got(e, i.getInstance<const VA>(n)); }
		else if (k == "VS") { if (via == 0) got(e, i.getInstance<VS>(n)); else got(e, i.getValue<VS>(n)); }
		else if (k == "U") { if (via == 0) got(e, i.getInstance<U>(n)); else if (via == 1) got(e, i.getUnique<B>(n)); else got(e, i.getInstance<const U>(n)); }
		else if (k == "UD") { auto p = via ? i.getInstance<UD>(n) : i.getUnique<B, Del>(n); e.n("o", p->id); }
		else if (k == "CU") { if (via == 0) got(e, i.getInstance<CU>(n)); else if (via == 1) got(e, i.getUnique<const B>(n)); else got(e, i.getInstance<const CU>(n)); }
		else if (k == "R") { if (via == 0) got(e, i.getInstance<R>(n)); else got(e, i.getReference<B>(n)); }
		else if (k == "CR") { if (via == 0) got(e, i.getInstance<CR>(n)); else got(e, i.getReference<const B>(n)); }
		else if (k == "S") { if (via == 0) got(e, i.getInstance<S>(n)); else if (via == 1) got(e, i.getShared<B>(n)); else got(e, i.getInstance<const S>(n)); }
		else if (k == "CS") { if (via == 0) got(e, i.getInstance<CS>(n)); else if (via == 1) got(e, i.getShared<const B>(n)); else got(e, i.getInstance<const CS>(n)); }
		else if (k == "W") { if (via == 0) got(e, i.getInstance<W>(n)); else got(e, i.getInstance<const W>(n)); }
		else if (k == "CW") { if (via == 0) got(e, i.getInstance<CW>(n)); else got(e, i.getInstance<const CW>(n)); }
		else if (k == "I") { if (via == 0) got(e, i.getInstance<I>()); else if (via == 1) got(e, i.getShared<Injector>()); else got(e, i.getInstance<WI>()); }
		else if (k == "CI") { if (via == 0) got(e, i.getInstance<CI>()); else if (via == 1) got(e, i.getShared<const Injector>()); else got(e, i.getInstance<CWI>()); }
		return "ok";
	}
	if (d == "null") {
		if (k == "U") got(e, i.getUniqueOrNull<B>(n));
		else if (k == "CU") got(e, i.getUniqueOrNull<const B>(n));
		else if (k == "S") got(e, i.getSharedOrNull<B>(n));
		else if (k == "CS") got(e, i.getSharedOrNull<const B>(n));
		return "ok";
	}
	bool unnamed = n.empty() && via == 1;
	if (d == "def") {
		if (k == "V") { VA x(++counter); e.n("def", x.id); got(e, unnamed ? i.getValue<VA>(x) : i.getValue<VA>(n, x)); }
		else if (k == "U") { U x(new Gone); e.n("def", x->id); got(e, unnamed ? i.getUnique<B>(std::move(x)) : i.getUnique<B>(n, std::move(x))); }
		else if (k == "CU") { CU x(new Gone); e.n("def", x->id); got(e, unnamed ? i.getUnique<const B>(std::move(x)) : i.getUnique<const B>(n, std::move(x))); }
		else if (k == "R") { B & x = refObject(40); e.n("def", x.id); got(e, unnamed ? i.getReference<B>(x) : i.getReference<B>(n, x)); }
		else if (k == "CR") { const B & x = refObject(40); e.n("def", x.id); got(e, unnamed ? i.getReference<const B>(x) : i.getReference<const B>(n, x)); }
		else if (k == "S") { S x(new Gone); e.n("def", x->id); got(e, unnamed ? i.getShared<B>(x) : i.getShared<B>(n, x)); }
		else if (k == "CS") { CS x(new Gone); e.n("def", x->id); got(e, unnamed ? i.getShared<const B>(x) : i.getShared<const B>(n, x)); }
		return "ok";
	}
	long id = 0;
	auto sup = [&] (auto tag) { using T = decltype(tag); return std::function<T ()>([&] () -> T {
		++supplied;
		if constexpr (std::is_same_v<T, VA>) { VA x(++counter); id = x.id; return x; }
		else { auto p = new Gone; id = p->id; return T(p); }
	}); };
	auto fin = [&] { e.n("def", id).n("supplied", supplied); };
	if (k == "V") { auto s = sup(VA(0)); got(e, unnamed ? i.getValue<VA>(s) : i.getValue<VA>(n, s)); }
	else if (k == "U") { auto s = sup(U()); got(e, unnamed ? i.getUnique<B>(s) : i.getUnique<B>(n, s)); }
	else if (k == "CU") { auto s = sup(CU()); got(e, unnamed ? i.getUnique<const B>(s) : i.getUnique<const B>(n, s)); }
	else if (k == "S") { auto s = sup(S()); got(e, unnamed ? i.getShared<B>(s) : i.getShared<B>(n, s)); }
	else if (k == "CS") { auto s = sup(CS()); got(e, unnamed ? i.getShared<const B>(s) : i.getShared<const B>(n, s)); }
	fin();
	return "ok";
}
static bool has(const Injector & i, const std::string & k, const std::string & n) {
	if (k == "V") return i.hasBinding<VA>(n);
	if (k == "VS") return i.hasBinding<VS>(n);
	if (k == "U") return i.hasBinding<U>(n);
	if (k == "UD") return i.hasBinding<UD>(n);
	if (k == "R") return i.hasBinding<R>(n);
	if (k == "CR") return i.hasBinding<CR>(n);
	if (k == "S") return i.hasBinding<S>(n);
	return i.hasBinding<CS>(n);
}
static void create(World & w, const Op & o) {
	int i = std::stoi(o[1]), p = std::stoi(o[2]);
	std::string mode = o[3];
	if (p && !(mode.substr(0, 2) == "v_" ? w.val.count(p) : w.inj.count(p))) return;
	std::vector<Binding> bs;
	if (o[4] != "-") for (auto & x : split(o[4], ';')) {
		auto q = split(x, ':');
		Binding b; b.k = q[0]; b.n = q[1]; b.f = q[2]; b.t = std::stoi(q[3]); b.shape = q[4];
		if (!q[4].empty()) b.dn = split(q[5], '+');
		bs.push_back(b);
	}
	int np = std::stoi(o[5]), pp = std::stoi(o[6]);
	std::vector<std::string> st;
	if (o[7] != "-") st = split(o[7], ';');
	bool validate = mode[0] == 'v' && mode[1] == '_', reuse = mode[0] == 'r' && mode[1] == '_';
	std::string m = validate || reuse ? mode.substr(2) : mode;
	int parts = m == "one" || m == "vec" ? 1 : m == "nest" ? 3 : 2;
	std::vector<std::string> ext; 
	auto ran = std::make_shared<std::vector<std::string>>();
	auto base = std::make_shared<std::vector<std::shared_ptr<Conf>>>();
	std::string posts = "[", pres = "[";
	{
		std::vector<std::shared_ptr<Conf>> cs;
		for (int k = 0; k < parts; ++k) cs.push_back(std::make_shared<Conf>());
		for (size_t k = 0; k < bs.size(); ++k) cs[k * size_t(parts) / bs.size()]->steps.push_back(step(bs[k], ext));
		for (int k = 0; k < parts; ++k) {
			posts += k ? ",[" : "["; pres += k ? ",[" : "[";
			for (int j = 0; j < np; ++j) {
				long id = i * 100 + k * 10 + j;
				posts += (j ? "," : "") + std::to_string(id);
				cs[size_t(k)]->steps.push_back([=] (const Conf & c) { c.post([=] (const Injector & in) { ran->push_back("[" + std::to_string(id) + "," + std::to_string(made.size()) + "," + std::to_string(injDep(in.getShared<const Injector>())) + "]"); }); });
			}
			for (int j = 0; j < pp; ++j) {
				long id = i * 100 + k * 10 + j;
				pres += (j ? "," : "") + std::to_string(id);
				cs[size_t(k)]->steps.push_back([=] (const Conf & c) { c.pre([=] { happened.push_back("[\"pre\"," + std::to_string(id) + "]"); }); });
			}
			posts += "]"; pres += "]";
		}
		for (auto & x : st) {
			auto q = split(x, ':'); int s = std::stoi(q[0]); std::string n = q[1];
			if (q[2] == "c") cs[0]->steps.push_back([=] (const Conf & c) { std::string t = n + "!"; c.stat(&statics[s], std::string_view(t).substr(0, n.size())); t[0] = '#'; });
			else cs[0]->steps.push_back([=] (const Conf & c) { c.post([=] (const Injector & in) { std::string t = n + "!"; in.registerStaticSingleton(&statics[s], std::string_view(t).substr(0, n.size())); t[0] = '#'; }); });
		}
		if (m == "extra") cs[0]->extra.push_back(cs[1]);
		if (m == "nest") { cs[0]->extra.push_back(cs[1]); cs[1]->extra.push_back(cs[2]); }
		*base = cs;
	}
	posts += "]"; pres += "]";
	auto & cs = *base;
	std::vector<std::shared_ptr<InjectorConfiguration>> vec;
	if (m == "vec") vec = { cs[0] };
	if (m == "vec2") vec = { cs[0], cs[1] };
	creating = i;
	std::shared_ptr<Injector> in;
	std::unique_ptr<Injector::ValidationParent> vp;
	long before = long(made.size());
	auto body = [&] {
		auto parent = p && w.inj.count(p) ? w.inj[p] : nullptr;
		bool vpar = p && w.val.count(p);
		if (validate || reuse) {
			Injector::ValidationParent * q = vpar ? w.val[p].get() : nullptr;
			std::unique_ptr<Injector::ValidationParent> r;
			if (!vec.empty()) r.reset(new Injector::ValidationParent(q ? Injector::validateChild(*q, vec) : Injector::validate(vec)));
			else if (m == "two") r.reset(new Injector::ValidationParent(q ? Injector::validateChild(*q, *cs[0], *cs[1]) : Injector::validate(*cs[0], *cs[1])));
			else r.reset(new Injector::ValidationParent(q ? Injector::validateChild(*q, *cs[0]) : Injector::validate(*cs[0])));
			if (validate) { vp = std::move(r); return; }
			r.reset();
			happened.clear();
		}
		if (!vec.empty()) in = parent ? parent->createChild(vec) : Injector::create(vec);
		else if (m == "two") in = parent ? parent->createChild(*cs[0], *cs[1]) : Injector::create(*cs[0], *cs[1]);
		else in = parent ? parent->createChild(*cs[0]) : Injector::create(*cs[0]);
	};
	std::string res = outcome(body);
	// The harness keeps no configuration: what was given to it belongs to the injector.
	vec.clear(); base.reset();
	if (in) { bool k = false; for (auto & x : known) if (auto q = x.second.lock()) if (q == in) k = true; if (!k) known.emplace_back(i, in); }
	std::vector<std::string> b2;
	for (auto & b : bs) {
		std::vector<std::string> ds; auto sh = b.shape.empty() ? std::vector<std::string>() : split(b.shape, '+');
		for (size_t k = 0; k < sh.size(); ++k) ds.push_back("[" + js(sh[k]) + "," + js(b.dn[k]) + "]");
		if (b.k == "VS") ds.push_back("[\"S\",\"a\"]");
		b2.push_back("{\"k\":" + js(b.k) + ",\"n\":" + js(b.n) + ",\"f\":" + js(b.f) + ",\"t\":" + std::to_string(b.t) + ",\"o\":" + std::to_string(b.o) + ",\"deps\":" + join(ds) + "}");
	}
	std::vector<std::string> st2;
	for (auto & x : st) { auto q = split(x, ':'); int s = std::stoi(q[0]); st2.push_back("[" + q[0] + "," + js(q[1]) + "," + std::to_string(idOf(statics[s])) + "]"); }
	if (in) w.inj[i] = in;
	if (vp) w.val[i] = std::move(vp);
	in.reset();
	Ev e(validate ? "validate" : "create");
	e.n("i", i).n("p", p).s("res", res).j("bs", join(b2)).j("ext", join(ext)).j("posts", posts).j("pres", pres).j("ran", join(*ran)).j("stat", join(st2));
	finish(e);
}
static void run(const Script & s) {
	made.clear(); happened.clear(); counter = 1000; known.clear(); statics.clear();
	for (auto & n : names) for (auto & x : n) x.clear();
	for (int k = 0; k <= 40; ++k) refObject(k);
	// Reference objects have fixed ids.
	for (int k = 0; k <= 40; ++k) refObject(k).id = 500 + k;
	{
		World w;
		auto on = [&] (int t, std::function<void ()> f) { if (t == 0) f(); else { if (!w.ws.count(t)) w.ws[t] = std::make_unique<Worker>(); w.ws[t]->run(f); } };
		for (auto & o : s.ops) {
			if (o[0] == "create") create(w, o);
			else if (o[0] == "proto") {
				int i = std::stoi(o[1]), p = std::stoi(o[2]), q = std::stoi(o[3]);
				if (!w.inj.count(p) || !w.inj.count(q)) continue;
				creating = i;
				auto in = w.inj[p]->createChild(w.inj[q]);
				known.emplace_back(i, in);
				w.inj[i] = in;
				in.reset();
				Ev e("proto"); e.n("i", i).n("p", p).n("q", q); finish(e);
			}
			else if (o[0] == "get") {
				int t = std::stoi(o[1]), i = std::stoi(o[2]);
				if (!w.inj.count(i)) continue;
				Ev e("get"); e.n("t", t).n("i", i).s("k", o[3]).s("n", o[4]).s("d", o[6]);
				std::string res;
				on(t, [&] { res = outcome([&] { get(e, *w.inj[i], o[3], o[4], std::stoi(o[5]), o[6]); }); });
				e.s("res", res); finish(e);
			}
			else if (o[0] == "has") {
				int i = std::stoi(o[1]);
				if (!w.inj.count(i)) continue;
				Ev e("has"); e.n("i", i).s("k", o[2]).s("n", o[3]).b("r", has(*w.inj[i], o[2], o[3])); finish(e);
			}
			else if (o[0] == "iter") {
				int t = std::stoi(o[1]), i = std::stoi(o[2]); bool tl = o[4] == "1";
				if (!w.inj.count(i)) continue;
				Ev e("iter"); std::vector<long> ids;
				on(t, [&] {
					if (o[3] == "S") w.inj[i]->iterate<B>(std::function<void (std::shared_ptr<B>)>([&] (std::shared_ptr<B> x) { ids.push_back(idOf(x)); }), tl);
					else if (o[3] == "SC") w.inj[i]->iterate<B>(std::function<void (std::shared_ptr<const B>)>([&] (std::shared_ptr<const B> x) { ids.push_back(idOf(x)); }), tl);
					else w.inj[i]->iterate<const B>(std::function<void (std::shared_ptr<const B>)>([&] (std::shared_ptr<const B> x) { ids.push_back(idOf(x)); }), tl);
				});
				e.n("t", t).n("i", i).s("k", o[3]).b("tl", tl).j("objs", nums(ids)); finish(e);
			}
			else if (o[0] == "drop") {
				int i = std::stoi(o[1]);
				bool v = w.val.count(i);
				if (!v && !w.inj.count(i)) continue;
				if (v) { w.val.erase(i); happened.clear(); made.clear(); Ev("dropv").n("i", i).done(); continue; }
				auto p = std::move(w.inj[i]); w.inj.erase(i); p.reset();
				Ev e("drop"); e.n("i", i); finish(e);
			}
			else if (o[0] == "exit") { int t = std::stoi(o[1]); if (!w.ws.count(t)) continue; w.ws.erase(t); Ev e("exit"); e.n("t", t); finish(e); }
			else if (o[0] == "many") {
				// An injector of its own with many named values, the first of them in a parent: which are found, and which are found right.
				int n = std::stoi(o[1]), inParent = std::stoi(o[2]);
				auto c1 = std::make_shared<Conf>(), c2 = std::make_shared<Conf>();
				auto name = [] (int j) { return "m" + std::to_string(j); };
				for (int j = 0; j < n; ++j) (j < inParent ? c1 : c2)->steps.push_back([=] (const Conf & c) { c.b<VA>(name(j)).toValue(VA(j)); });
				long found = 0, right = 0, extra = 0, got = 0;
				std::string res = outcome([&] {
					auto in = Injector::create(*c1);
					if (inParent < n) in = in->createChild(*c2);
					for (int j = 0; j < 2 * n; ++j) {
						if (in->hasBinding<VA>(name(j))) ++(j < n ? found : extra);
						if (j >= n) got += in->getValue<VA>(name(j), VA(-j)).id == -j;
						else try { right += in->getValue<VA>(name(j)).id == j; } catch (const Exception::NoBindingException &) {}
					}
				});
				Ev("many").n("n", n).n("inparent", inParent).s("res", res).n("found", found).n("right", right).n("extra", extra).n("got", got).done();
				made.clear(); happened.clear();
			}
			else if (o[0] == "stat") { Ev e("stat"); e.n("s", std::stoi(o[1])).n("o", idOf(statics[std::stoi(o[1])])); finish(e); }
		}
		while (!w.ws.empty()) { int t = w.ws.begin()->first; w.ws.erase(t); Ev e("exit"); e.n("t", t); finish(e); }
		while (!w.val.empty()) w.val.erase(w.val.begin());
		happened.clear();
		while (!w.inj.empty()) { auto it = w.inj.end(); --it; int i = it->first; auto p = std::move(it->second); w.inj.erase(it); p.reset(); Ev e("drop"); e.n("i", i); finish(e); }
		for (auto & x : statics) { Ev e("stat"); e.n("s", x.first).n("o", idOf(x.second)); finish(e); }
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
