// Classes annotated with the injection macros.
#pragma once
#include "seq.hpp"
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Inject.hpp>
#include <Balau/Application/InjectHeader.hpp>
#include <Balau/Application/InjectBody.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
using namespace Balau;
struct Made { long id, tag; std::vector<long> deps; };
extern std::vector<Made> made; extern std::vector<std::string> happened; extern long counter;
// Objects that are copied or moved are values; the copies are the same value.
struct T {
	long id; bool tracked;
	T() : id(++counter), tracked(true) {}
	T(const T & o) : id(o.id), tracked(false) {}
	T(T && o) noexcept : id(o.id), tracked(false) {}
	~T() { if (tracked) happened.push_back("[\"gone\"," + std::to_string(id) + "]"); }
};
template <int K> struct Dep : T {};
template <int K, int P> Dep<K> & refDep() { static Dep<K> & d = *new Dep<K>; d.id = 500 + P; return d; }
template <typename X> long idOf(const std::shared_ptr<X> & p) { return p ? p->id : 0; }
template <typename X> long idOf(const std::weak_ptr<X> & p) { auto q = p.lock(); return q ? q->id : 0; }
template <typename X> long idOf(const std::unique_ptr<X> & p) { return p ? p->id : 0; }
inline long idOf(const T & p) { return p.id; }
class Conf : public ApplicationConfiguration {
public:
	std::vector<std::function<void (const Conf &)>> steps;
	void configure() const override { for (auto & s : steps) s(*this); }
	template <typename X> auto & b(std::string_view n) const { return bind<X>(n); }
};
struct Bound { std::string k, n, f; int t; long o; bool ext; std::function<void (const Conf &)> bind; };
template <int K, int P> Bound boundDep(const std::string & k, const std::string & name) {
	Bound r; r.t = P + 1; r.o = 0; r.ext = false; r.n = std::to_string(K) + ":" + name;
	using D = Dep<K>;
	auto n = std::make_shared<std::string>(name);
	if (k == "S" || k == "W") { auto p = std::make_shared<D>(); r.k = "S"; r.f = "given"; r.o = p->id; r.ext = true; r.bind = [n, p] (const Conf & c) { c.b<D>(*n).toSingleton(p); }; }
	else if (k == "CS" || k == "CW") { auto p = std::make_shared<D>(); r.k = "CS"; r.f = "given"; r.o = p->id; r.ext = true; r.bind = [n, p] (const Conf & c) { c.b<const D>(*n).toSingleton(std::shared_ptr<const D>(p)); }; }
	else if (k == "R") { r.k = "R"; r.f = "ref"; r.o = refDep<K, P>().id; r.bind = [n] (const Conf & c) { c.b<D>(*n).toReference(refDep<K, P>()); }; }
	else if (k == "CR") { r.k = "CR"; r.f = "ref"; r.o = refDep<K, P>().id; r.bind = [n] (const Conf & c) { c.b<const D>(*n).toReference(refDep<K, P>()); }; }
	else if (k == "U" || k == "CU") { r.k = "U"; r.f = "fn"; r.bind = [n] (const Conf & c) { c.b<D>(*n).toUniqueProvider([] { auto p = std::unique_ptr<D>(new D); made.push_back({ p->id, P + 51, {} }); return p; }); }; }
	else { long o = ++counter; r.k = "V"; r.f = "proto"; r.o = o; D d; d.tracked = false; d.id = o; r.bind = [n, d] (const Conf & c) { c.b<D>(*n).toValue(d); }; }
	return r;
}
struct Case {
	std::vector<std::pair<std::string, std::string>> deps; // kind, name in the record
	std::function<std::vector<Bound> ()> bounds;
	void (* bindU)(const Conf &); void (* bindV)(const Conf &);
	void (* get)(const Injector &, bool value, seq::Ev &);
};
extern std::map<std::string, Case> & cases();
template <typename C> void bindUnique(const Conf & c) { c.b<C>("").template toUnique<C>(); }
template <typename C> void bindValue(const Conf & c) { c.b<C>("").toValue(); }
template <typename C> void getCase(const Injector & i, bool value, seq::Ev & e) {
	if (value) { C c = i.getInstance<C>(); c.tracked = false; made.push_back({ c.id, 100, c.ids() }); e.n("o", c.id); }
	else { auto p = i.getInstance<std::unique_ptr<C>>(); made.push_back({ p->id, 0, p->ids() }); e.n("o", p->id); }
}
struct Register { Register(const std::string & n, Case c) { cases()[n] = std::move(c); } };
