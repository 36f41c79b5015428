// One binding form per compilation: -DVT_FORM=name -DVT_BIND(C)=...
#include "inj.hpp"
template <int N, typename ... T> struct Tag { using type = Obj<N, T ...>; };
template <int N, typename F> static bool shapes(const std::string & s, F && f) {
	if (s == "") { f(Tag<N>()); return true; }
#define X(name, ...) if (s == name) { f(Tag<N, __VA_ARGS__>()); return true; }
	X("S", S) X("CS", CS) X("W", W) X("R", R) X("CR", CR) X("U", U) X("I", I) X("WI", WI)
#ifndef VT_FEW
	X("CW", CW) X("CU", CU) X("V", VA) X("CI", CI) X("CWI", CWI)
	X("S+S", S, S) X("CS+U", CS, U) X("W+CR+V", W, CR, VA) X("S+W+S", S, W, S) X("R+CS", R, CS)
#endif
	return false;
}
bool VT_FORM(const Conf & conf, int n, const std::string & shape, const std::string & name) {
	auto f = [&] (auto t) { using C = typename decltype(t)::type; VT_BIND; };
	switch (n) {
		case 0: return shapes<0>(shape, f);
		case 1: return shapes<1>(shape, f);
		case 2: return shapes<2>(shape, f);
		case 3: return shapes<3>(shape, f);
		case 4: return shapes<4>(shape, f);
		case 5: return shapes<5>(shape, f);
		default: return false;
	}
}
