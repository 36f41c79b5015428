// SharedMemoryQueue under the controlled scheduler: every controlled thread
// plays one process, with a queue handle of its own, opened by name.
#include <Balau/Type/ToString.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <boost/serialization/string.hpp>
#include <Balau/Interprocess/SharedMemoryQueue.hpp>
#include "common_ctl.hpp"
using namespace std::chrono;

struct Msg {
	int v = 0;
	std::string body;
	template <typename A> void serialize(A & a, unsigned int) { a & BoostSerialization(v) & BoostSerialization(body); }
};
using Queue = Balau::Interprocess::SharedMemoryQueue<Msg>;
using Balau::Interprocess::OpenOrCreateSelector;

static std::string bodyOf(int v, size_t len) { std::string s(len, 0); for (size_t i = 0; i < len; ++i) s[i] = char(v * 31 + i * 7 + (i >> 3)); return s; }
static size_t sizeOf(size_t len) { // serialised size with the header
	Msg m; m.body.assign(len, 'x');
	std::ostringstream o; { boost::archive::binary_oarchive a(o); a << boost::serialization::make_nvp("m", m); }
	return o.str().size() + Queue::HeaderSize;
}
struct Conf {
	int cap, buffer;           // buffer: chunk size
	bool multi = false;        // messages may need several chunks
	bool throwOver = false;
	int shared = 0;            // the threads >= shared-1 share one handle and a mutex for dequeues (0: none)
	bool strict = false;       // one thread only
	bool freeTimeouts = false;
	int openMode = 0;          // 0: open by name, 1: open or create
};
static int runNo = 0;

struct State {
	std::string name;
	std::vector<std::shared_ptr<Queue>> h;
	std::mutex m;
};

// Program words: enq[.prio[.size]]  tenq[.prio[.size]][:wait]  deq  tdeq[:wait]  join sleep:n empty full
// size: f (fits exactly), o (one byte too long), 2..5 (that many chunks, last one full), a..d: 2..5 chunks, last one one byte; default small.
static void scenario(const std::string & id, Conf c, std::vector<std::string> progs, int bound, long dfs, long rnd) {
	explore::Scenario sc;
	sc.id = id;
	sc.json = "{\"id\":\"" + id + "\",\"cap\":" + num(c.cap) + ",\"n\":" + num(long(progs.size())) + ",\"strict\":" + (c.strict ? "1" : "0") + ",\"free\":" + (c.freeTimeouts ? "1" : "0")
		+ ",\"throwOver\":" + (c.throwOver ? "1" : "0") + ",\"hb\":0}";
	sc.options.freeTimeouts = c.freeTimeouts;
	sc.options.memoryPoints = false;
	sc.bound = bound; sc.dfsRuns = dfs; sc.randomRuns = rnd;
	auto current = std::make_shared<std::weak_ptr<State>>();
	sc.cleanup = [current] { if (auto s = current->lock()) s->h.clear(); };
	sc.make = [=] (std::vector<std::function<void ()>> & bodies) -> std::shared_ptr<void> {
		auto s = std::make_shared<State>();
		*current = s;
		s->name = "vtsmq_" + num(getpid()) + "_" + num(++runNo % 1000);
		boost::interprocess::shared_memory_object::remove(s->name.c_str());
		boost::interprocess::shared_memory_object::remove((s->name + "_queueState_memory").c_str());
		const size_t n = progs.size();
		for (size_t t = 0; t < n; ++t) {
			if (t == 0 && c.openMode == 1) s->h.push_back(std::make_shared<Queue>(OpenOrCreateSelector(), unsigned(c.cap), unsigned(c.buffer), s->name, c.throwOver));
			else if (t == 0) s->h.push_back(std::make_shared<Queue>(unsigned(c.cap), unsigned(c.buffer), s->name, c.throwOver));
			else if (c.shared && int(t) >= c.shared) s->h.push_back(s->h[size_t(c.shared) - 1]);
			else if (c.openMode == 1) s->h.push_back(std::make_shared<Queue>(OpenOrCreateSelector(), unsigned(c.cap + 7), unsigned(c.buffer + 100), s->name, c.throwOver)); // ignored: it exists
			else s->h.push_back(std::make_shared<Queue>(s->name, c.throwOver));
		}
		// All handles are open: the names are not needed any more, the memory lives as long as its mappings.
		boost::interprocess::shared_memory_object::remove(s->name.c_str());
		boost::interprocess::shared_memory_object::remove((s->name + "_queueState_memory").c_str());
		static const size_t overhead = sizeOf(0);
		for (size_t t = 0; t < n; ++t) {
			auto ops = words(progs[t]);
			bodies.push_back([=] {
				Queue & q = *s->h[t];
				int k = 0;
				for (auto w : ops) {
					int wait = -1000, prio = 0; char size = '1';
					auto colon = w.find(':');
					if (colon != std::string::npos) { wait = std::stoi(w.substr(colon + 1)); w = w.substr(0, colon); }
					auto dot = w.find('.');
					if (dot != std::string::npos) {
						std::string rest = w.substr(dot + 1); w = w.substr(0, dot);
						auto d2 = rest.find('.');
						if (d2 != std::string::npos) { size = rest[d2 + 1]; rest = rest.substr(0, d2); }
						prio = std::stoi(rest);
					}
					int v = int(t + 1) * 100 + ++k;
					if (w == "join") { ctl::join(); event("alone"); continue; }
					if (w == "sleep") { ctl::sleepMs(wait); continue; }
					if (w == "empty" || w == "full") { bool r = w == "empty" ? q.empty() : q.full(); event("obs", "\"op\":\"" + w + "\",\"r\":" + (r ? "1" : "0")); continue; }
					const size_t net = size_t(c.buffer) - Queue::HeaderSize;
					if (w == "enq" || w == "tenq") {
						size_t total; int chunks; // serialised bytes without header
						size_t small = overhead - Queue::HeaderSize;
						if (size == 'f') { total = net; }
						else if (size == 'o') { total = net + 1; }
						else if (size == '1') { total = small + (v % 3); }
						else if (size >= '2' && size <= '5') { total = net * size_t(size - '0'); }
						else { total = net * size_t(size - 'a' + 1) + 1; }
						if (total < small) total = small;
						chunks = int((total + net - 1) / net);
						Msg m; m.v = v; m.body = bodyOf(v, total - small);
						event("call", "\"op\":\"" + w + "\",\"v\":" + num(v) + ",\"p\":" + num(prio) + ",\"c\":" + num(chunks) + ",\"w\":" + num(wait == -1000 ? 0 : wait));
						std::string r;
						try {
							if (w == "enq") { if (dot == std::string::npos) q.enqueue(m); else q.enqueue(m, unsigned(prio)); r = "ok"; }
							else {
								bool ok;
								if (dot == std::string::npos) ok = wait == -1000 ? q.tryEnqueue(m) : q.tryEnqueue(m, milliseconds(wait));
								else ok = wait == -1000 ? q.tryEnqueue(m, unsigned(prio)) : q.tryEnqueue(m, milliseconds(wait), unsigned(prio));
								r = ok ? "ok" : "fail";
							}
						} catch (const Balau::Exception::SizeException &) { r = "size"; }
						event("ret", "\"r\":\"" + r + "\",\"v\":0");
					} else {
						std::unique_ptr<std::lock_guard<std::mutex>> guard;
						event("call", "\"op\":\"" + w + "\",\"v\":0,\"p\":0,\"c\":0,\"w\":" + num(wait == -1000 ? 0 : wait));
						if (c.shared) guard.reset(new std::lock_guard<std::mutex>(s->m));
						Msg m; bool ok = (k % 2) == 0;
						if (w == "deq") { m = q.dequeue(); ok = true; }
						else if (k % 3 == 2) { m = wait == -1000 ? q.tryDequeue() : q.tryDequeue(milliseconds(wait)); ok = m.v != 0; }
						else m = wait == -1000 ? q.tryDequeue(ok) : q.tryDequeue(milliseconds(wait), ok);
						int v = m.v;
						if (v != 0 && m.body != bodyOf(v, m.body.size())) v = -1;         // damaged
						if (v == 0 && !m.body.empty()) v = -2;
						event("ret", std::string("\"r\":\"") + (ok ? "ok" : "fail") + "\",\"v\":" + num(v) + ",\"len\":" + num(long(m.body.size())));
					}
				}
			});
		}
		return s;
	};
	explore::explore(sc);
}

int main(int argc, char ** argv) {
	explore::begin(argc, argv);
	bool th = explore::args().thorough;
	bool multi = getenv("VT_SMQ_MULTI") != nullptr;
	long D = th ? 12000 : 700, R = th ? 3000 : 150;
	int B = th ? 3 : 2;
	int small = int(sizeOf(0));
	explore::Rng rng(explore::args().seed + (multi ? 1000 : 0));
	if (!multi) {
		Conf c1 { 1, small + 40 }, c2 { 2, small + 40 }, c3 { 3, small + 8 };
		Conf f1 = c1, f2 = c2; f1.freeTimeouts = f2.freeTimeouts = true;
		Conf s4 { 4, small + 40 }; Conf t2 = c2; t2.throwOver = true;
		Conf o2 = c2; o2.openMode = 1;
		scenario("seqprio", s4, {"empty enq.1 enq.5 enq.1 enq.3 full deq deq tdeq tdeq empty tdeq enq.2 tenq.9 tenq.9 enq.2 full tenq.1 deq deq deq deq empty"}, B, 1, 1);
		scenario("seqwrap", c3, {"enq enq deq enq enq full tenq deq enq deq deq deq empty tdeq tdeq:3 tdeq"}, B, 1, 1);
		scenario("seqsize", t2, {"enq.0.f tenq.0.f deq deq tenq.0.o enq.0.o tdeq tdeq enq.1.3 empty tenq.3.b:4 tdeq tdeq:2"}, B, 1, 1);
		scenario("seqopen", o2, {"enq.0.f tenq.0.f full tenq", "join deq deq tdeq tenq.0.o empty"}, B, 40, 10);
		scenario("timedseq", c1, {"tenq:5 tenq:5 tdeq:5 tdeq:5 tdeq:5 empty"}, B, 1, 1);
		scenario("prodcons", c1, {"enq enq enq", "deq deq deq"}, B, D, R);
		scenario("twoprod", c1, {"enq enq", "enq enq", "deq deq deq deq"}, B, D, R);
		scenario("twocons", c2, {"enq enq enq", "deq", "deq deq"}, B, D, R);
		scenario("mimo", c2, {"enq enq", "enq enq", "deq deq", "deq deq"}, B, D, R);
		scenario("mimoprio", c2, {"enq.1 enq.2", "enq.2 enq.1", "deq deq", "deq tdeq"}, B, D, R);
		scenario("overfull", c2, {"enq enq enq", "enq", "deq"}, B, D, R);
		scenario("overempty", c2, {"enq", "deq", "deq"}, B, D, R);
		scenario("timed", c1, {"tdeq:5 tdeq:5", "sleep:3 enq"}, B, D, R);
		scenario("timedlate", c1, {"tdeq:5", "sleep:8 enq", "sleep:9 tdeq"}, B, D, R);
		scenario("timedenq", c1, {"enq tenq:5 tenq:5", "sleep:3 deq"}, B, D, R);
		scenario("timedsteal", c1, {"tdeq:10", "sleep:3 enq tdeq", "sleep:6 enq tdeq"}, B, D, R);
		scenario("timedstealenq", c1, {"enq tenq:10", "sleep:3 tdeq tenq", "sleep:6 tdeq tenq"}, B, D, R);
		scenario("race1", f1, {"tdeq:5", "enq", "tdeq:5", "tenq:4"}, B, D, R);
		scenario("race2", f2, {"tenq:5 tenq:5", "enq enq", "tdeq:3", "deq"}, B, D, R);
		scenario("reopen", o2, {"enq tenq", "deq tenq", "deq", "join full empty tdeq tdeq empty"}, B, D, R);
		scenario("exact", c2, {"enq.0.f enq.0.f", "deq deq", "tenq.2.f tenq.2.o"}, B, D, R);
		for (int i = 0; i < (th ? 120 : 24); ++i) {
			Conf c { 1 + rng(3), small + 20 + rng(3) };
			c.freeTimeouts = rng(3) == 0; c.throwOver = true; c.openMode = rng(2);
			int nt = 2 + rng(3);
			std::vector<std::string> ps;
			for (int t = 0; t < nt; ++t) {
				std::string p;
				for (int k = 1 + rng(3); k > 0; --k) switch (rng(9)) {
					case 0: case 1: p += "enq." + num(rng(3)) + (rng(4) ? " " : ".f "); break;
					case 2: p += "tenq." + num(rng(3)) + (rng(5) ? "" : rng(2) ? ".f" : ".o") + (rng(2) ? ":" + num(rng(6)) + " " : " "); break;
					case 3: p += "enq "; break;
					case 4: case 5: p += "deq "; break;
					case 6: p += "tdeq "; break;
					case 7: p += "tdeq:" + num(1 + rng(6)) + " "; break;
					case 8: p += "sleep:" + num(1 + rng(5)) + " "; break;
				}
				ps.push_back(p);
			}
			if (rng(2)) ps.push_back("join full tdeq tdeq tdeq tdeq tdeq empty");
			scenario("rnd" + num(long(explore::args().seed)) + "_" + num(i), c, ps, 2, D / 4, R / 2);
		}
	} else {
		Conf m4 { 4, 40 }, m10 { 10, 48 }, m2 { 2, 48 }, one { 12, 40 };
		one.strict = true;
		Conf big { 30, small + 8 }; // small messages in one chunk, others in several
		Conf bigs = big; bigs.strict = true;
		Conf shared = big; shared.shared = 3;
		Conf sharedt = m10; sharedt.shared = 3;
		Conf mo = big; mo.openMode = 1;
		Conf f = big; f.freeTimeouts = true;
		scenario("seq", bigs, {"enq.0.2 empty enq.0.a enq.0.b deq deq enq.0.f enq.0.o tdeq tdeq tdeq empty tdeq enq.0.5 enq.0 deq deq empty"}, B, 1, 1);
		scenario("seqprio", bigs, {"enq.1.2 enq.3.a enq.2.o enq.3.f enq.1.1 deq deq enq.9.c deq tdeq deq deq tdeq:2 empty"}, B, 1, 1);
		scenario("seq40", one, {"enq.0.1 deq enq.0.1 tdeq tdeq enq.2.1 deq tenq.0.1 empty"}, B, 1, 1);
		for (int cap = 2; cap <= 5; ++cap) { // objects that fill the queue to the last byte
			Conf x { cap, int(small) + 8 }; x.strict = true;
			const char last = char('0' + cap), rest = cap == 3 ? 'f' : char('0' + cap - 2);
			scenario("fill" + num(cap), x, {std::string("enq.0.") + last + " full deq empty enq.1." + last + " full tenq tdeq enq.0.2 full "
				+ (cap == 2 ? "" : std::string("enq.0.") + rest + " full tenq deq ") + "tdeq tdeq empty full"}, B, 1, 1);
			Conf y = x; y.strict = false;
			scenario("fillc" + num(cap), y, {std::string("enq.0.") + last + " enq.0.2", "sleep:2 deq sleep:2 tdeq"}, B, D, R);
		}
		scenario("pc", m4, {"enq.0.1 enq.0.1", "deq deq"}, B, D, R);
		scenario("pctight", m2, {"enq.0.1 enq.0.1", "deq deq"}, B, D, R);
		scenario("two", big, {"enq.0.2 enq.0.a", "enq.0.3 enq", "deq deq deq deq"}, B, D, R);
		Conf s3 = big; s3.shared = 3;
		scenario("twotry", s3, {"enq.0.2 enq.0.a", "enq.0.b enq", "tdeq tdeq tdeq tdeq", "join empty tdeq empty tdeq empty tdeq empty tdeq empty"}, B, D, R);
		scenario("three", big, {"enq.0.2 enq", "enq.0.b", "enq.0.a enq", "deq deq deq deq deq"}, B, D * 2, R * 4);
		scenario("threesingle", big, {"enq.0.2", "enq.0.2", "enq.0.1 enq.0.1", "deq deq deq deq"}, B, D * 3, R * 8);
		Conf sj = big; sj.shared = 4;
		scenario("threetry", sj, {"enq.0.2 enq", "enq.0.a", "enq enq.0.o", "tdeq tdeq tdeq:3 tdeq", "join tdeq empty tdeq empty tdeq empty tdeq empty tdeq empty tdeq empty"}, B, D * 2, R * 4);
		Conf s2 = big; s2.shared = 2;
		scenario("trytry", s2, {"enq.0.4", "tdeq tdeq tdeq tdeq tdeq tdeq", "join tdeq tdeq empty"}, B + 1, D * 2, R);
		scenario("trytry2", s3, {"enq.0.3 enq", "enq.0.3", "tdeq tdeq tdeq tdeq tdeq", "join tdeq empty tdeq empty tdeq empty tdeq empty"}, B + 1, D * 2, R * 3);
		scenario("prio", big, {"enq.1.2 enq.1.a", "enq.5.3 enq.1", "deq deq deq deq"}, B, D, R * 2);
		scenario("shared", shared, {"enq.0.2 enq.0.a", "enq.0.3 enq", "deq tdeq", "deq deq", "tdeq deq"}, B, D, R);
		scenario("shared2", sharedt, {"enq.0.1 enq.0.1", "enq.0.1", "tdeq deq tdeq", "tdeq", "join tdeq tdeq tdeq empty"}, B, D, R);
		scenario("open", mo, {"enq.0.2 enq.0.a", "enq.0.3 enq", "deq deq deq deq"}, B, D, R);
		scenario("timed", s2, {"enq.0.2 sleep:4 enq.0.a", "tdeq:2 tdeq:3 tdeq:5", "join tdeq tdeq empty"}, B, D, R);
		scenario("free", f, {"enq.0.2", "enq.0.a enq", "tdeq:2 tdeq:3 deq"}, B, D, R);
		for (int i = 0; i < (th ? 120 : 24); ++i) {
			Conf c { 4 + rng(20), small + rng(12) };
			c.openMode = rng(2);
			int np = 2 + rng(2);
			std::vector<std::string> ps;
			int total = 0;
			for (int t = 0; t < np; ++t) {
				std::string p;
				for (int k = 1 + rng(2); k > 0; --k, ++total) p += std::string("enq.") + num(rng(4) ? 0 : 1) + "." + "123abof"[rng(7)] + " ";
				ps.push_back(p);
			}
			std::string p;
			for (int k = 0; k < total; ++k) p += rng(2) ? "deq " : rng(2) ? "tdeq " : "tdeq:" + num(1 + rng(4)) + " ";
			ps.push_back(p);
			c.shared = int(ps.size());
			std::string j = "join";
			for (int k = 0; k < total; ++k) j += " empty tdeq";
			ps.push_back(j + " empty");
			scenario("rnd" + num(long(explore::args().seed)) + "_" + num(i), c, ps, 2, D / 2, R);
		}
	}
	return explore::finish();
}
