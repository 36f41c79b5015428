// The command line parser.
#include <Balau/Application/CommandLine.hpp>
#include <cmath>
#include "seq.hpp"
using namespace seq;
using namespace Balau;
using CL = CommandLine<int>;
static const int KEYS = 6;
static std::string res1, out1;
template <typename F> static std::string text(F && f) { std::string r; res1 = outcome([&] { using ::toString; r = std::to_string(f()); }); return res1 == "ok" ? r : ""; }
template <typename F> static long milli(F && f) { double r = 0; res1 = outcome([&] { r = f(); }); return res1 == "ok" && std::fabs(r) < 1e6 ? std::lround(r * 1000) : 0; }
static CommandLineStyle styleOf(const std::string & s) { return s == "space" ? CommandLineStyle::SwitchSpaceValue : s == "equals" ? CommandLineStyle::SwitchEqualsValue : CommandLineStyle::Detect; }

static void run(const Script & s) {
	auto cl = std::make_unique<CL>();
	for (auto & o : s.ops) {
		auto & n = o[0];
		auto at = [&] (size_t i) { return i < o.size() ? o[i] : std::string(); };
		auto num = [&] (size_t i) { return std::stoi(at(i)); };
		auto opt = [&] (int key, const std::string & a, const std::string & b, bool v, bool help, bool one, const std::string & doc) {
			Ev("opt").n("key", key).j("short", codes(a)).j("long", codes(b)).b("value", v).b("help", help).b("one", one).j("doc", codes(doc)).done();
		};
		if (n == "new") { cl = std::make_unique<CL>(styleOf(at(1))); Ev("new").s("style", at(1)).done(); }
		else if (n == "opt") { cl->withOption(num(1), at(2), at(3), num(4) != 0, at(5)); opt(num(1), at(2), at(3), num(4) != 0, false, false, at(5)); }
		else if (n == "opt1") { cl->withOption(num(1), at(2), num(3) != 0, at(4)); opt(num(1), at(2), "", num(3) != 0, false, true, at(4)); }
		else if (n == "help") { cl->withHelpOption(num(1), at(2), at(3), at(4)); opt(num(1), at(2), at(3), false, true, false, at(4)); }
		else if (n == "final") {
			if (at(1) == "yes") cl->withFinalValue(); else if (at(1) == "maybe") cl->withOptionalFinalValue();
			if (at(1) != "no") Ev("final").s("mode", at(1)).done();
		} else if (n == "copy") {
			if (at(1) == "copy") { auto c = std::make_unique<CL>(*cl); cl = std::move(c); }
			else if (at(1) == "move") { auto c = std::make_unique<CL>(std::move(*cl)); cl = std::move(c); }
			else if (at(1) == "assign") { auto c = std::make_unique<CL>(); c->withOption(9, "z", true, "").withFinalValue(); *c = *cl; cl = std::move(c); }
			else { auto c = std::make_unique<CL>(); c->withOption(9, "z", true, "").withFinalValue(); *c = std::move(*cl); cl = std::move(c); }
			Ev("copy").done();
		} else if (n == "parse") {
			// parse IGNORE-FIRST ARG...; the way of passing the arguments rotates.
			std::vector<std::string> args(o.begin() + 2, o.end());
			std::string a = "[";
			for (auto & x : args) a += (a.size() > 1 ? "," : "") + codes(x);
			bool ignore = num(1) != 0;
			static int way = 0;
			std::string res = outcome([&] {
				std::vector<std::unique_ptr<char []>> copies;
				std::vector<char *> argv;
				for (auto & x : args) { copies.emplace_back(strdup(x.c_str())); argv.push_back(copies.back().get()); }
				switch (way++ % 3) {
					case 0: cl->parse(std::vector<std::string>(args), ignore); break;
					case 1: argv.push_back(nullptr); cl->parse((int) args.size(), argv.data(), ignore); break;
					default: { std::vector<const char *> cv(argv.begin(), argv.end()); cv.push_back(nullptr); cl->parse((int) args.size(), cv.data(), ignore); }
				}
				for (auto & c : copies) free(c.release());
			});
			Ev("parse").b("ignore", ignore).j("args", a + "]").s("res", res).done();
		} else if (n == "seen") {
			std::string v = "[", f = "[", d = "[";
			std::string missing = "OptionNotFoundException";
			for (int k = 1; k <= KEYS; ++k) {
				d += (k > 1 ? "," : "") + codes(cl->getOptionOrDefault(k, "d"));
				if (cl->hasOption(k)) v += (v.size() > 1 ? ",[" : "[") + std::to_string(k) + "," + codes(cl->getOption(k)) + "]";
				else { auto r = outcome([&] { cl->getOption(k); }); if (r != missing) missing = r; }
			}
			for (size_t i = 0; i < cl->getFinalValueCount(); ++i) f += (i ? "," : "") + codes(cl->getFinalValue(i));
			Ev("seen").j("vals", v + "]").j("dflt", d + "]").j("finals", f + "]").s("missing", missing).done();
		} else if (n == "num") {
			int k = num(3);
			auto & c = *cl;
			const std::string kind = at(1);
			bool d = at(2) == "default";
			std::string r;
			if (kind == "short") r = text([&] { return d ? c.getOptionAsShortOrDefault(k, 7) : c.getOptionAsShort(k); });
			else if (kind == "ushort") r = text([&] { return d ? c.getOptionAsUnsignedShortOrDefault(k, 7) : c.getOptionAsUnsignedShort(k); });
			else if (kind == "int") r = text([&] { return d ? c.getOptionAsIntOrDefault(k, 7) : c.getOptionAsInt(k); });
			else if (kind == "uint") r = text([&] { return d ? c.getOptionAsUnsignedIntOrDefault(k, 7) : c.getOptionAsUnsignedInt(k); });
			else if (kind == "long") r = text([&] { return d ? c.getOptionAsLongOrDefault(k, 7) : c.getOptionAsLong(k); });
			else r = text([&] { return d ? c.getOptionAsUnsignedLongOrDefault(k, 7) : c.getOptionAsUnsignedLong(k); });
			Ev("num").s("kind", kind).b("default", d).n("key", k).s("res", res1).j("s", codes(r)).done();
		} else if (n == "flt") {
			int k = num(3);
			auto & c = *cl;
			bool d = at(2) == "default";
			long t = at(1) == "float" ? milli([&] { return d ? c.getOptionAsFloatOrDefault(k, 7.5f) : c.getOptionAsFloat(k); })
			                          : milli([&] { return d ? c.getOptionAsDoubleOrDefault(k, 7.5) : c.getOptionAsDouble(k); });
			Ev("flt").s("kind", at(1)).b("default", d).n("key", k).s("res", res1).n("t", t).done();
		} else if (n == "ffl") {
			int k = num(3);
			auto & c = *cl;
			bool d = at(2) == "default";
			long t = at(1) == "float" ? milli([&] { return d ? c.getFinalValueAsFloatOrDefault(7.5f, k) : c.getFinalValueAsFloat(k); })
			                          : milli([&] { return d ? c.getFinalValueAsDoubleOrDefault(7.5, k) : c.getFinalValueAsDouble(k); });
			Ev("ffl").s("kind", at(1)).b("default", d).n("key", k).s("res", res1).n("t", t).done();
		} else if (n == "fin") {
			std::string r;
			std::string res = outcome([&] { r = cl->getFinalValue(num(1)); });
			Ev("fin").n("key", num(1)).s("res", res).j("s", codes(r)).j("d", codes(cl->getFinalValueOrDefault("d", num(1)))).done();
		} else if (n == "helptext") {
			auto r = cl->getHelpText(num(1), num(2), styleOf(at(3)));
			Ev("helptext").n("indent", num(1)).n("total", num(2)).s("style", at(3)).j("s", codes(r)).done();
		}
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
