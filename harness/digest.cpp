// Digests of contents in every form, and of the pieces given to a digest object.
#include <boost/filesystem/fstream.hpp>
#include <Balau/Util/Hashing.hpp>
#include "seq.hpp"
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <atomic>
#include <thread>

using namespace seq;
using Balau::Resource::File;
using Balau::Util::Hashing;
namespace HL = Balau::HashLibrary;

static std::string bytes(std::string_view s) {
	std::string r = "[";
	for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char) s[i]);
	return r + "]";
}
static unsigned long number = 0;
static std::string content(size_t n, size_t seed) {
	std::string s(n, 0);
	unsigned long x = 88172645463325252ul + seed * 7919;
	for (auto & c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = char(seed % 5 == 0 ? 0xFF : seed % 5 == 1 ? 0 : x >> 24); }
	return s;
}
// Gives its contents in pieces.
struct Pieces : std::streambuf {
	std::string s; size_t at = 0, size;
	Pieces(std::string t, size_t n) : s(std::move(t)), size(n) {}
	int_type underflow() override {
		if (at == s.size()) return traits_type::eof();
		size_t n = std::min(size, s.size() - at);
		setg(&s[at], &s[at], &s[at] + n);
		at += n;
		return traits_type::to_int_type(*gptr());
	}
};
template <typename F> static std::string result(F f) {
	std::string v;
	std::string is = outcome([&] { v = f(); });
	return "{\"is\":" + js(is) + ",\"v\":" + bytes(v) + "}";
}
template <typename T> static std::string by(const std::string & k, T & x) {
	if (k == "crc32") return Hashing::crc32(x);
	if (k == "md5") return Hashing::md5(x);
	if (k == "sha1") return Hashing::sha1(x);
	if (k == "sha256") return Hashing::sha256(x);
	if (k == "sha3") return Hashing::sha3(x);
	return Hashing::keccak(x);
}
struct Object {
	virtual ~Object() = default;
	virtual void add(const std::string & s) = 0;
	virtual std::string get() = 0;
	virtual std::string raw() = 0;
	virtual void reset() = 0;
	virtual std::string call(const std::string & s) = 0;
	virtual std::string block(const std::string & s) = 0;
};
static std::string fromHex(const std::string & h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoul(h.substr(i, 2), nullptr, 16)); return r; }
template <typename D, typename = void> struct Raw { static std::string get(D & d) { return fromHex(d.getHash()); } };
template <typename D> struct Raw<D, std::void_t<decltype(std::declval<D &>().getHash((unsigned char *) nullptr))>> {
	static std::string get(D & d) { unsigned char b[D::HashBytes]; d.getHash(b); return std::string((char *) b, D::HashBytes); }
};
template <typename D> struct ObjectOf : Object {
	D d;
	template <typename ... A> ObjectOf(A ... a) : d(a ...) {}
	// From memory of its own, at any alignment.
	void add(const std::string & s) override { size_t k = ++number % 8; std::unique_ptr<char[]> p(new char[s.size() + k + 1]); memcpy(p.get() + k, s.data(), s.size()); d.add(p.get() + k, s.size()); }
	std::string get() override { return d.getHash(); }
	std::string raw() override { return Raw<D>::get(d); }
	void reset() override { d.reset(); }
	std::string call(const std::string & s) override { return d(s); }
	std::string block(const std::string & s) override { return d(s.data(), s.size()); }
};
static std::unique_ptr<Object> object(const std::string & k) {
	if (k == "crc32") return std::make_unique<ObjectOf<HL::CRC32>>();
	if (k == "md5") return std::make_unique<ObjectOf<HL::MD5>>();
	if (k == "sha1") return std::make_unique<ObjectOf<HL::SHA1>>();
	if (k == "sha256") return std::make_unique<ObjectOf<HL::SHA256>>();
	if (k == "sha3") return std::make_unique<ObjectOf<HL::SHA3>>();
	if (k == "sha3224") return std::make_unique<ObjectOf<HL::SHA3>>(HL::SHA3::Bits224);
	if (k == "sha3384") return std::make_unique<ObjectOf<HL::SHA3>>(HL::SHA3::Bits384);
	if (k == "sha3512") return std::make_unique<ObjectOf<HL::SHA3>>(HL::SHA3::Bits512);
	if (k == "keccak224") return std::make_unique<ObjectOf<HL::Keccak>>(HL::Keccak::Keccak224);
	if (k == "keccak384") return std::make_unique<ObjectOf<HL::Keccak>>(HL::Keccak::Keccak384);
	if (k == "keccak512") return std::make_unique<ObjectOf<HL::Keccak>>(HL::Keccak::Keccak512);
	return std::make_unique<ObjectOf<HL::Keccak>>();
}
static std::string forms(const std::string & k, const std::string & s, const std::string & dir, std::initializer_list<size_t> sizes) {
	std::string out = "[" + result([&] { std::string t = s; return by(k, t); });
	out += "," + result([&] { std::istringstream i(s); return by(k, static_cast<std::istream &>(i)); });
	// What was read before is not part of the contents.
	out += "," + result([&] { std::istringstream i("xyz" + s); char b[3]; i.read(b, 3); return by(k, static_cast<std::istream &>(i)); });
	std::string name = dir + "/f" + std::to_string(++number);
	std::ofstream(name, std::ios::binary) << s;
	out += "," + result([&] { const File f(name); return by(k, f); });
	unlink(name.c_str());
	for (size_t n : sizes) {
		out += "," + result([&] { Pieces p(s, n); std::istream i(&p); return by(k, i); });
		out += "," + result([&] { auto o = object(k); for (size_t a = 0; a < s.size(); a += n) o->add(s.substr(a, n)); return o->get(); });
	}
	return out + "]";
}
static void run(const Script & script) {
	char dir[] = "digestXXXXXX";
	if (!mkdtemp(dir)) return;
	std::unique_ptr<Object> o;
	size_t seed = std::hash<std::string>()(script.id) % 1000;
	for (auto & op : script.ops) {
		if (op[0] == "whole") {
			std::string s = content(std::stoul(op[2]), op.size() > 3 ? std::stoul(op[3]) : ++seed);
			Ev("whole").s("kind", op[1]).j("s", bytes(s)).j("out", forms(op[1], s, dir, { 1, 7, 64, 100 })).done();
		} else if (op[0] == "long") {
			std::string s = content(std::stoul(op[2]), std::stoul(op[3]));
			Ev("long").s("kind", op[1]).n("n", s.size()).j("out", forms(op[1], s, dir, { 65537, 12345, 1048576 })).done();
		} else if (op[0] == "threads") {
			// Several threads at once, each with contents of its own: streams and files, twice each.
			const size_t count = 6;
			std::vector<std::string> contents, alone, names;
			std::vector<std::vector<std::string>> results(count);
			for (size_t i = 0; i < count; ++i) {
				contents.push_back(content(std::stoul(op[2]) - 1000 * i, 5 * i + 2));
				alone.push_back(result([&] { std::string t = contents[i]; return by(op[1], t); }));
				names.push_back(std::string(dir) + "/t" + std::to_string(i));
				std::ofstream(names[i], std::ios::binary) << contents[i];
			}
			std::atomic<size_t> ready {0};
			std::vector<std::thread> threads;
			for (size_t i = 0; i < count; ++i) threads.emplace_back([&, i] {
				std::istringstream stream(contents[i]);
				const File file(names[i]);
				for (++ready; ready < count;) std::this_thread::yield();
				results[i].push_back(result([&] { return by(op[1], static_cast<std::istream &>(stream)); }));
				results[i].push_back(result([&] { return by(op[1], file); }));
				results[i].push_back(result([&] { std::string t = contents[i]; return by(op[1], t); }));
			});
			for (auto & t : threads) t.join();
			for (size_t i = 0; i < count; ++i) {
				unlink(names[i].c_str());
				std::string out = "[" + alone[i];
				for (auto & v : results[i]) out += "," + v;
				Ev("long").s("kind", op[1]).n("n", contents[i].size()).j("out", out + "]").done();
			}
		} else if (op[0] == "nofile") {
			std::string name = std::string(dir) + "/n", expected = "FileNotFoundException", is;
			if (op[2] == "directory") mkdir(name.c_str(), 0700);
			if (op[2] == "dangling") (void) !symlink("nowhere", name.c_str());
			if (op[2] == "limit") { std::ofstream(name) << "abc"; expected = "CouldNotOpenException"; }
			struct rlimit old, now;
			getrlimit(RLIMIT_NOFILE, &old);
			now = old;
			std::vector<std::string> warm;
			is = outcome([&] { File f("/dev/null/x"); (void) f.exists(); });
			if (op[2] == "limit") { now.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &now); }
			is = outcome([&] { const File f(name); by(op[1], f); });
			setrlimit(RLIMIT_NOFILE, &old);
			if (op[2] == "directory") rmdir(name.c_str()); else unlink(name.c_str());
			Ev("nofile").s("kind", op[1]).s("what", op[2]).s("is", is).s("expected", expected).done();
		} else if (op[0] == "new") { o = object(op[1]); Ev("new").s("kind", op[1]).done(); }
		else if (op[0] == "add") { std::string s = content(std::stoul(op[1]), ++seed); o->add(s); Ev("add").j("s", bytes(s)).done(); }
		else if (op[0] == "get") { std::string h = o->get(), r = o->raw(); Ev("get").j("text", bytes(h)).j("bytes", bytes(r)).done(); }
		else if (op[0] == "reset") { o->reset(); Ev("reset").done(); }
		else if (op[0] == "call") { std::string s = content(std::stoul(op[1]), ++seed), b = o->block(s), t = o->call(s); Ev("call").j("s", bytes(s)).j("text", bytes(t)).j("block", bytes(b)).done(); }
	}
	rmdir(dir);
}
int main(int argc, char ** argv) { return seq::main(argc, argv, run); }
