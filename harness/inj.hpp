// Classes and configuration of the injector harness.
#pragma once
#include "seq.hpp"
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/Injectable.hpp>
#include <Balau/Application/ApplicationConfiguration.hpp>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace Balau;

struct Made { long id, tag; std::vector<long> deps; };
extern std::vector<Made> made;
extern std::vector<std::string> happened; // deaths and pre-destruction calls in order
extern long counter;
extern std::map<const Injector *, long> injectorIds;
extern std::string names[8][4];
inline std::string nm(int i, int k) { return names[i][k]; }

struct B {
	long id;
	B() : id(++counter) {}
	B(long tag, std::vector<long> deps) : id(++counter) { made.push_back({ id, tag, deps }); }
	virtual ~B() { happened.push_back("[\"gone\"," + std::to_string(id) + "]"); id = -id; }
	B(const B &) = delete;
};
// Values: the copies of a value are the same value.
struct VA { long id; long vid() const { return id; } VA() : id(++counter) { made.push_back({ id, 100, {} }); } explicit VA(long i) : id(i) {} BalauInjectTypes(VA) };
struct VS { long id; std::shared_ptr<B> b; explicit VS(std::shared_ptr<B> b_) : id(++counter), b(b_) { made.push_back({ id, 101, { b->id } }); } explicit VS(long i) : id(i) {}
	BalauInjectNamedTypes(VS, std::shared_ptr<B>, "a") };
// Bound by their own type only, without a base type: the class is the binding.
inline long injId(const Injector * i) { auto x = injectorIds.find(i); return x == injectorIds.end() ? -7 : x->second; }
inline long idOf(const std::shared_ptr<B> & p) { return p ? p->id : 0; }
inline long idOf(const std::shared_ptr<const B> & p) { return p ? p->id : 0; }
inline long idOf(const std::unique_ptr<B> & p) { return p ? p->id : 0; }
inline long idOf(const std::unique_ptr<const B> & p) { return p ? p->id : 0; }
inline long idOf(const std::weak_ptr<B> & p) { return idOf(p.lock()); }
inline long idOf(const std::weak_ptr<const B> & p) { return idOf(p.lock()); }
inline long idOf(const B & p) { return p.id; }
inline long idOf(const VA & p) { return p.id; }
inline long idOf(const VS & p) { return p.id; }
struct InjRef { std::weak_ptr<const Injector> p; };
extern std::vector<std::pair<long, std::weak_ptr<const Injector>>> pendingInjectors;
// The injector is not known by its address yet when it injects itself during its creation.
long injDep(std::shared_ptr<const Injector> p);
inline long idOf(const std::shared_ptr<Injector> & p) { return injDep(p); }
inline long idOf(const std::shared_ptr<const Injector> & p) { return injDep(p); }
inline long idOf(const std::weak_ptr<Injector> & p) { return injDep(p.lock()); }
inline long idOf(const std::weak_ptr<const Injector> & p) { return injDep(p.lock()); }

using S = std::shared_ptr<B>; using CS = std::shared_ptr<const B>; using W = std::weak_ptr<B>; using CW = std::weak_ptr<const B>;
using U = std::unique_ptr<B>; using CU = std::unique_ptr<const B>; using R = B &; using CR = const B &;
using I = std::shared_ptr<Injector>; using WI = std::weak_ptr<Injector>; using CI = std::shared_ptr<const Injector>; using CWI = std::weak_ptr<const Injector>;

// Destroys the objects of the bindings with custom deleters.
struct Del { void operator () (const B * b) const { happened.push_back("[\"del\"," + std::to_string(b->id) + "]"); delete b; } };
using UD = std::unique_ptr<B, Del>;
inline long idOf(const UD & p) { return p ? p->id : 0; }
// What providers return: a new product.
struct Product : B { Product(long tag, long p) : B(tag, p ? std::vector<long>{ p } : std::vector<long>{}) {} };
struct Proxy {
	long tag, by;
	operator U () const { return U(new Product(tag, by)); }
	operator UD () const { return UD(new Product(tag, by)); }
	operator S () const { return S(new Product(tag, by)); }
	operator CS () const { return CS(new Product(tag, by)); }
	operator VA () const { long i = ++counter; made.push_back({ i, tag, by ? std::vector<long>{ by } : std::vector<long>{} }); return VA(i); }
};
#define VT_PROV Proxy operator () () const { return { N + 50, this->id }; }

// The ways in which the objects keep their dependencies.
template <typename T> struct Keep { T t; explicit Keep(T && x) : t(std::move(x)) {} };
template <typename T> struct Keep<T &> { T & t; explicit Keep(T & x) : t(x) {} };

template <int N, typename ... T> struct Obj;
template <int N> struct Obj<N> : B { Obj() : B(N, {}) {} BalauInjectTypes(Obj) VT_PROV };
template <int N, typename T0> struct Obj<N, T0> : B {
	Keep<T0> a;
	Obj(T0 x) : B(N, { idOf(x) }), a(static_cast<T0 &&>(x)) {}
	BalauInjectNamedTypes(Obj, T0, nm(N, 0))
	VT_PROV
};
template <int N, typename T0, typename T1> struct Obj<N, T0, T1> : B {
	Keep<T0> a; Keep<T1> b;
	Obj(T0 x, T1 y) : B(N, { idOf(x), idOf(y) }), a(static_cast<T0 &&>(x)), b(static_cast<T1 &&>(y)) {}
	BalauInjectNamedTypes(Obj, T0, nm(N, 0), T1, nm(N, 1))
	VT_PROV
};
template <int N, typename T0, typename T1, typename T2> struct Obj<N, T0, T1, T2> : B {
	Keep<T0> a; Keep<T1> b; Keep<T2> c;
	Obj(T0 x, T1 y, T2 z) : B(N, { idOf(x), idOf(y), idOf(z) }), a(static_cast<T0 &&>(x)), b(static_cast<T1 &&>(y)), c(static_cast<T2 &&>(z)) {}
	BalauInjectNamedTypes(Obj, T0, nm(N, 0), T1, nm(N, 1), T2, nm(N, 2))
	VT_PROV
};
// Injectors are not injected under a name.
#define VT_INJ(X) template <int N> struct Obj<N, X> : B { Keep<X> a; Obj(X x) : B(N, { idOf(x) }), a(std::move(x)) {} BalauInjectTypes(Obj, X) VT_PROV };
VT_INJ(I) VT_INJ(WI) VT_INJ(CI) VT_INJ(CWI)
#undef VT_INJ

class Conf : public ApplicationConfiguration {
public:
	std::vector<std::function<void (const Conf &)>> steps;
	std::vector<std::shared_ptr<Conf>> extra;
	void configure() const override { for (auto & s : steps) s(*this); for (auto & e : extra) addConfiguration(*e); }
	template <typename T> auto & b(std::string_view n) const { return bind<T>(n); }
	template <typename T, typename D> auto & bd(std::string_view n) const { return bind<T, D>(n); }
	void post(std::function<void (const Injector &)> f) const { registerPostConstructionCall(f); }
	void pre(std::function<void ()> f) const { registerPreDestructionCall(f); }
	template <typename T> void stat(std::shared_ptr<T> * p, std::string_view n) const { registerStaticSingleton(p, n); }
};
