// Controlled-concurrency runtime.
//
// Harness "threads" are coroutines on one OS thread.  The code under test is
// compiled with -fsanitize=thread and linked against ctl.cpp instead of the
// real TSan runtime, so that every atomic operation and (optionally) every
// memory access is a scheduling point, and against interposed pthread mutex /
// condition variable / rwlock / semaphore / clock functions.  The schedule is
// chosen by a Strategy: every interleaving is reproducible from the recorded
// list of choices.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ctl {

struct Options {
	bool memoryPoints = false;     // plain memory accesses are scheduling points too
	bool freeTimeouts = false;     // a timed wait may time out although other threads can run
	bool spurious = false;         // condition waits may wake up spuriously
	bool traceSync = false;        // record synchronisation events (for HappensBefore.tla)
	long stepLimit = 20000;        // scheduling points per execution
};

enum class End { Done, Blocked, Limit };

struct Outcome {
	End end;
	std::vector<int> choices;      // the schedule
	std::vector<int> widths;
	std::vector<int> blocked;      // ids of the threads that did not finish
	std::vector<std::string> events;
	long steps;
};

// Strategy: returns the index in [0, n) of the alternative to take.  cost[i]
// is the preemption cost of the alternative (alternative 0 always costs 0).
struct Strategy {
	virtual ~Strategy() {}
	virtual void begin() {}
	// memory: true if this is a plain memory access point.
	virtual int choose(int n, const int * cost, bool memory) = 0;
	virtual bool next() = 0;       // prepare the next execution, false = finished
};

struct Dfs : Strategy {
	int bound; long maxRuns; long runs = 0; bool exhausted = false;
	struct Node { int choice; int n; std::vector<int> cost; int spent; };
	std::vector<Node> stack; size_t depth = 0; int spent = 0;
	Dfs(int bound_, long maxRuns_) : bound(bound_), maxRuns(maxRuns_) {}
	void begin() override;
	int choose(int n, const int * cost, bool memory) override;
	bool next() override;
};

struct Random : Strategy {
	uint64_t seed, state; long maxRuns; long runs = 0; int mode = 0; double pSwitch = 0.3, pMem = 0.05;
	Random(uint64_t seed_, long maxRuns_) : seed(seed_), state(seed_), maxRuns(maxRuns_) {}
	uint64_t rnd();
	void begin() override;
	int choose(int n, const int * cost, bool memory) override;
	bool next() override;
};

struct Replay : Strategy {
	std::vector<int> choices; size_t pos = 0; bool once = false;
	explicit Replay(std::vector<int> c) : choices(std::move(c)) {}
	void begin() override { pos = 0; }
	int choose(int n, const int *, bool) override {
		int c = pos < choices.size() ? choices[pos] : 0; ++pos; return c < n ? c : 0;
	}
	bool next() override { if (once) return false; once = true; return true; }
};

// Run one execution: each body is one thread.
Outcome run(Strategy & s, const Options & o, const std::vector<std::function<void ()>> & bodies);

int self();                        // 0-based id of the running thread, -1 outside
void ev(const std::string & json); // append an event (JSON object text) to the trace
void yield();                      // explicit scheduling point
void waitUntil(const std::function<bool ()> & p); // harness level gate
void join();                       // wait until every thread that does not join has finished (or crashed)
long nowMs();                      // virtual milliseconds since the start of the execution
void sleepMs(long ms);             // virtual sleep
void crash();                      // the running thread stops for ever at this point (simulated process crash)
void payloadWrite(int x);          // user payload accesses for the happens-before check
void payloadRead(int x);
void focus(std::vector<std::pair<const char *, const char *>> r); // only atomics in these ranges are scheduling points (empty: all)
void noPreempt(bool on);           // harness bookkeeping sections
bool crashArmed();
void crashAtSync(int thread, int nth); // thread crashes at its nth scheduling point at which it holds no lock (0 = never)
long syncPoints(int thread);

} // namespace ctl
