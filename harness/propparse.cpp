// The property parser: texts in, nodes and printed text out.
#include <Balau/Lang/Property/PropertyParserService.hpp>
#include <Balau/Lang/Property/Util/PropertyAstToString.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/StringUri.hpp>
#include "seq.hpp"
using namespace seq;
using namespace Balau;
using namespace Balau::Lang::Property;
using namespace Balau::Lang::Property::AST;

struct Flat : PropertyVisitor {
	std::string r = "[";
	int depth = 0;
	void node(const char * kind, std::string_view a, std::string_view b) {
		if (r.size() > 1) r += ",";
		r += "[" + std::to_string(depth) + "," + js(kind) + "," + codes(a) + "," + codes(b) + "]";
	}
	void all(Payload & p, const std::vector<std::unique_ptr<PropertyNode>> & ns) { for (auto & n : ns) n->visit(p, *this); }
	void visit(Payload & p, const Properties & o) override { all(p, o.getNodes()); }
	void visit(Payload &, const ValueProperty & o) override { node("value", o.getName(), o.getValue()); }
	void visit(Payload & p, const CompositeProperty & o) override { node("block", o.getName(), ""); ++depth; all(p, o.getNodes()); --depth; }
	void visit(Payload &, const IncludePropertyNode & o) override { node("include", o.getText(), ""); }
	void visit(Payload &, const CommentPropertyNode & o) override { node("comment", o.getText(), ""); }
	void visit(Payload &, const EmptyLinePropertyNode &) override { node("empty", "", ""); }
};
static std::string nodes(const Properties & p) { Flat f; Payload pl; p.visit(pl, f); return f.r + "]"; }
// Uses a lot of stack, as what follows a parse does.
static __attribute__((noinline)) int dirty(int n) { volatile char b[4096]; memset((char *) b, 'x', sizeof b); return n ? dirty(n - 1) + b[n] : b[0]; }

static void run(const Script & s) {
	for (auto & o : s.ops) {
		std::string text = o.size() > 1 ? o[1] : "";
		if (o[0] == "parse") {
			Ev e("parse");
			e.j("s", codes(text));
			std::string n = "[]", again = "[]", moved = "[]", print;
			std::string res = outcome([&] {
				Resource::StringUri uri(text);
				alignas(Properties) char mem[sizeof(Properties)];
				auto p = new (mem) Properties(PropertyParserService::parse(uri));
				dirty(4);
				n = nodes(*p);
				print = toString(*p);
				auto keep = std::make_unique<Properties>(std::move(*p));
				p->~Properties();
				memset(mem, 'y', sizeof mem);
				dirty(4);
				moved = nodes(*keep);
			});
			std::string r2 = res == "ok" ? outcome([&] { again = nodes(PropertyParserService::parse(std::shared_ptr<Resource::Uri>(new Resource::StringUri(print)))); }) : "ok";
			e.s("res", res).j("nodes", n).j("print", codes(print)).j("again", r2 == "ok" ? again : "[]").j("moved", moved).s("res2", r2).done();
		} else if (o[0] == "final") {
			std::string r;
			std::string res = outcome([&] { r = PropertyNode::normalise(text); });
			Ev("final").j("s", codes(text)).s("res", res).j("r", codes(r)).done();
		}
	}
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
