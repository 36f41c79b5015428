#pragma once
#include "../rt/explore.hpp"
inline std::string num(long v) { return std::to_string(v); }
inline std::string now() { return ",\"now\":" + num(ctl::nowMs()) + "}"; }
inline std::string self() { return num(ctl::self()); }
// ev("call", "\"op\":\"inc\"")
inline void event(const char * k, const std::string & fields = "") {
	ctl::ev(std::string("{\"k\":\"") + k + "\",\"t\":" + self() + (fields.empty() ? "" : "," + fields) + now());
}
inline std::vector<std::string> words(const std::string & s) {
	std::vector<std::string> v; std::istringstream is(s); std::string w; while (is >> w) v.push_back(w); return v;
}
