#include "ctl.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <exception>
#include <link.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------ context
extern "C" void ctl_switch(void ** saveSp, void * newSp);
asm(R"(
.text
.globl ctl_switch
.type ctl_switch,@function
ctl_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size ctl_switch,.-ctl_switch
)");

namespace ctl {

namespace {

constexpr size_t StackSize = 512 * 1024;
constexpr long long NoDeadline = -1;

enum class St { Runnable, Mutex, Cond, Sleep, Rw, Sem, Once, Join, Gate, Done, Crashed };

struct EhGlobals { void * caught; unsigned int uncaught; };

struct Thread {
	int id;
	void * sp = nullptr;
	char * stack = nullptr;
	std::function<void ()> body;
	St st = St::Runnable;
	void * waitOn = nullptr;          // mutex / rwlock / sem memory
	bool wantWrite = false;
	std::function<bool ()> gate;
	unsigned condId = 0;
	long long deadline = NoDeadline;  // virtual nanoseconds
	bool signaled = false, timedOut = false;
	int held = 0;
	long syncs = 0;
	long prio = 0;
	EhGlobals eh{nullptr, 0};
	std::vector<char> tls;
	std::vector<std::pair<void (*)(void *), void *>> tlsDtors;
};

std::vector<char *> stackPool;
std::vector<Thread *> threads;
Thread * cur = nullptr;
void * mainSp = nullptr;
Strategy * strat = nullptr;
Options opt;
Outcome * out = nullptr;
long long nowNs = 0;
unsigned nextId = 1;
bool inRt = false;
int noPre = 0;
EhGlobals mainEh;
int crashThread = -1, crashNth = 0;
bool limitHit = false;
Thread * nextThread = nullptr;
std::map<void *, int> syncObj; int nextSync = 0;

EhGlobals * eh() { return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals()); }

struct Guard { bool was; Guard() : was(inRt) { inRt = true; } ~Guard() { inRt = was; } };

// In-memory state of a mutex (works for process-shared mutexes mapped at
// several addresses): word0 = owner + 1, word1 = recursion, word2 = id,
// word 4 = kind (as glibc).
// The executable's thread_local variables are per coroutine: its TLS block is
// swapped at every switch.
char * tlsBase = nullptr; size_t tlsSize = 0; const char * tlsInit = nullptr; size_t tlsInitSize = 0;
std::vector<char> mainTls;
bool tlsKnown = false;

void findTls() {
	if (tlsKnown) return;
	tlsKnown = true;
	dl_iterate_phdr([] (struct dl_phdr_info * info, size_t, void *) -> int {
		for (int i = 0; i < info->dlpi_phnum; ++i) {
			auto & ph = info->dlpi_phdr[i];
			if (ph.p_type != PT_TLS) continue;
			char * tp;
			asm("movq %%fs:0, %0" : "=r"(tp));
			size_t sz = (ph.p_memsz + ph.p_align - 1) & ~(size_t(ph.p_align) - 1);
			tlsBase = tp - sz;
			tlsSize = sz;
			tlsInit = reinterpret_cast<const char *>(info->dlpi_addr + ph.p_vaddr);
			tlsInitSize = ph.p_filesz;
		}
		return 1; // the executable comes first
	}, nullptr);
	mainTls.resize(tlsSize);
}

int * w(void * p) { return static_cast<int *>(p); }

bool canRun(Thread * t) {
	switch (t->st) {
		case St::Runnable: return true;
		case St::Mutex: return w(t->waitOn)[0] == 0;
		case St::Rw: { int * r = w(t->waitOn); return t->wantWrite ? (r[0] == 0 && r[1] == 0) : r[0] == 0; }
		case St::Sem: return w(t->waitOn)[0] > 0;
		case St::Gate: return t->gate();
		case St::Join: {
			for (auto * o : threads) if (o->st != St::Done && o->st != St::Join && o->st != St::Crashed) return false;
			return true;
		}
		case St::Once: return w(t->waitOn)[0] != 1;
		default: return false;
	}
}

bool timedWaiting(Thread * t) {
	return (t->st == St::Cond || t->st == St::Sleep || t->st == St::Mutex || t->st == St::Sem) && t->deadline != NoDeadline;
}

void entry() {
	inRt = false;
	try {
		cur->body();
		inRt = true; ++noPre;
		for (size_t i = cur->tlsDtors.size(); i > 0; --i) cur->tlsDtors[i - 1].first(cur->tlsDtors[i - 1].second);
		cur->tlsDtors.clear();
		--noPre;
	} catch (std::exception & e) {
		inRt = true;
		fprintf(stderr, "ctl: uncaught exception in thread %d: %s\n", cur->id, e.what());
		abort();
	} catch (...) {
		fprintf(stderr, "ctl: uncaught exception in thread %d\n", cur->id);
		abort();
	}
	inRt = true;
	cur->st = St::Done;
	void * dummy;
	cur->eh = *eh();
	*eh() = mainEh;
	ctl_switch(&dummy, mainSp);
	abort();
}

void switchOut() {
	Thread * me = cur;
	me->eh = *eh();
	*eh() = mainEh;
	ctl_switch(&me->sp, mainSp);
}

int choose(int n, const int * cost, bool memory) {
	if (n <= 1) return 0;
	int c = strat->choose(n, cost, memory);
	out->choices.push_back(c);
	out->widths.push_back(n);
	return c;
}

// Wake a timed waiter: the virtual clock moves to its deadline.
void fireTimeout(Thread * t) {
	if (t->deadline > nowNs) nowNs = t->deadline;
	t->timedOut = true;
	t->deadline = NoDeadline;
	if (t->st == St::Cond) { t->condId = 0; t->st = St::Mutex; }
	else t->st = St::Runnable;
}

Thread * earliest() {
	Thread * e = nullptr;
	for (auto * t : threads) if (timedWaiting(t) && !(t->st == St::Mutex && canRun(t)) && (!e || t->deadline < e->deadline)) e = t;
	return e;
}

// Pick the next thread to run (in the main context or at a point).
Thread * pick(Thread * prefer, bool memory) {
	while (true) {
		Thread * c[64]; int cost[64]; int kind[64]; int n = 0;
		bool pref = prefer && canRun(prefer);
		if (pref) { c[n] = prefer; cost[n] = 0; kind[n] = 0; ++n; }
		int start = prefer ? prefer->id + 1 : 0, N = int(threads.size());
		bool any = pref;
		for (int k = 0; k < N; ++k) {
			Thread * t = threads[(start + k) % N];
			if (t == prefer || !canRun(t)) continue;
			c[n] = t; cost[n] = pref ? 1 : 0; kind[n] = 0; ++n; any = true;
		}
		if (any && !memory) {
			if (opt.freeTimeouts) {
				Thread * e = earliest();
				if (e) { c[n] = e; cost[n] = 1; kind[n] = 1; ++n; }
			}
			if (opt.spurious) {
				for (auto * t : threads) if (t->st == St::Cond && n < 60) { c[n] = t; cost[n] = 1; kind[n] = 2; ++n; }
			}
		}
		if (n == 0) {
			Thread * e = earliest();
			if (!e) return nullptr;
			// Idle: everything is blocked, virtual time moves on.
			if ((out->steps += 20) > 2 * opt.stepLimit) { limitHit = true; return nullptr; }
			out->events.push_back("{\"k\":\"idle\",\"t\":-1,\"now\":" + std::to_string(nowNs / 1000000) + "}");
			fireTimeout(e);
			// Simultaneous deadlines all fire.
			while ((e = earliest()) && e->deadline <= nowNs) fireTimeout(e);
			continue;
		}
		int i = choose(n, cost, memory);
		if (kind[i] == 1) { fireTimeout(c[i]); continue; }
		if (kind[i] == 2) { c[i]->signaled = true; c[i]->condId = 0; c[i]->deadline = NoDeadline; c[i]->st = St::Mutex; continue; }
		return c[i];
	}
}

std::vector<std::pair<const char *, const char *>> ranges;
bool focused(const volatile void * a) {
	if (ranges.empty()) return true;
	for (auto & r : ranges) if (a >= r.first && a < r.second) return true;
	return false;
}
void point(bool memory) {
	if (!cur || inRt || noPre) return;
	Guard g;
	if (++out->steps > opt.stepLimit) {
		if (out->steps > 2 * opt.stepLimit) {
			limitHit = true;
			cur->st = St::Crashed;
			switchOut();
		}
		// Suspected spinning: fair round robin from here on.
		for (size_t k = 1; k < threads.size(); ++k) {
			Thread * t = threads[(size_t(cur->id) + k) % threads.size()];
			if (canRun(t)) { nextThread = t; switchOut(); break; }
		}
		return;
	}
	if (!memory) {
		++cur->syncs;
		if (crashThread == cur->id && crashNth > 0 && cur->held == 0 && --crashNth == 0) {
			out->events.push_back("{\"k\":\"crash\",\"t\":" + std::to_string(cur->id) + "}");
			cur->st = St::Crashed;
			switchOut();
		}
	}
	Thread * t = pick(cur, memory);
	if (t != cur) { // switch directly through the main loop
		nextThread = t;
		switchOut();
	}
}

void blockHere() { // the state of cur has been set by the caller
	nextThread = nullptr;
	switchOut();
}

void syncEv(const char * k, void * o, int mo = -1) {
	if (!cur || !opt.traceSync || noPre) return;
	int id;
	auto it = syncObj.find(o);
	if (it == syncObj.end()) { id = ++nextSync; syncObj[o] = id; } else id = it->second;
	out->events.push_back(std::string("{\"k\":\"") + k + "\",\"t\":" + std::to_string(cur->id)
		+ ",\"o\":" + std::to_string(id) + ",\"mo\":" + std::to_string(mo) + "}");
}

void lockMutex(void * m) {
	int * p = w(m);
	if (p[2] == 0) p[2] = int(nextId++);
	while (p[0] != 0) {
		cur->st = St::Mutex;
		cur->waitOn = m;
		blockHere();
		cur->st = St::Runnable;
		if (cur->timedOut) return;
	}
	p[0] = cur->id + 2;
	p[1] = 1;
	++cur->held;
}

} // namespace

// ---------------------------------------------------------------- strategies

void Dfs::begin() { depth = 0; spent = 0; ++runs; }

int Dfs::choose(int n, const int * cost, bool memory) {
	if (memory) return 0;
	if (depth < stack.size()) {
		Node & nd = stack[depth];
		++depth;
		int c = nd.choice < n ? nd.choice : 0;
		spent = nd.spent + cost[c];
		return c;
	}
	Node nd{0, n, std::vector<int>(cost, cost + n), spent};
	stack.push_back(nd);
	++depth;
	return 0;
}

bool Dfs::next() {
	if (runs == 0) return true;
	if (runs >= maxRuns) return false;
	stack.resize(depth);
	while (!stack.empty()) {
		Node & nd = stack.back();
		int c = nd.choice + 1;
		while (c < nd.n && nd.spent + nd.cost[c] > bound) ++c;
		if (c < nd.n) { nd.choice = c; return true; }
		stack.pop_back();
	}
	exhausted = true;
	return false;
}

uint64_t Random::rnd() {
	state += 0x9E3779B97F4A7C15ull;
	uint64_t z = state;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

void Random::begin() {
	++runs;
	state = seed + uint64_t(runs) * 7919u;
	static const double ps[] = {0.05, 0.15, 0.4, 0.7};
	static const double pm[] = {0.005, 0.02, 0.1, 0.3};
	pSwitch = ps[rnd() % 4];
	pMem = pm[rnd() % 4];
}

int Random::choose(int n, const int * cost, bool memory) {
	bool pre = false;
	for (int i = 1; i < n; ++i) if (cost[i] > 0) pre = true;
	if (!pre) return int(rnd() % n);
	double u = double(rnd() >> 11) / 9007199254740992.0;
	if (u >= (memory ? pMem : pSwitch)) return 0;
	return 1 + int(rnd() % (n - 1));
}

bool Random::next() { return runs < maxRuns; }

// ---------------------------------------------------------------------- run

Outcome run(Strategy & s, const Options & o, const std::vector<std::function<void ()>> & bodies) {
	Outcome outcome{};
	inRt = true;
	strat = &s; opt = o; out = &outcome; nowNs = 0; limitHit = false; noPre = 0;
	syncObj.clear(); nextSync = 0;
	s.begin();
	findTls();
	threads.clear();
	for (size_t i = 0; i < bodies.size(); ++i) {
		auto * t = new Thread;
		t->id = int(i);
		t->body = bodies[i];
		if (!stackPool.empty()) { t->stack = stackPool.back(); stackPool.pop_back(); }
		else {
			t->stack = static_cast<char *>(mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
			if (t->stack == MAP_FAILED) { perror("mmap"); _exit(3); }
		}
		auto * top = reinterpret_cast<void **>(t->stack + StackSize - 64);
		*--top = nullptr;                    // return address of entry(): end of the stack
		*--top = reinterpret_cast<void *>(&entry);
		for (int k = 0; k < 6; ++k) *--top = nullptr;
		t->sp = top;
		if (tlsSize) { t->tls.assign(tlsSize, 0); memcpy(t->tls.data(), tlsInit, tlsInitSize); }
		threads.push_back(t);
	}
	nextThread = nullptr;
	mainEh = *eh();
	Thread * last = nullptr;
	while (true) {
		Thread * t = nextThread;
		nextThread = nullptr;
		if (!t) t = pick(last && canRun(last) ? last : nullptr, false);
		if (!t) break;
		last = t;
		cur = t;
		mainEh = *eh();
		*eh() = t->eh;
		if (tlsSize) { memcpy(mainTls.data(), tlsBase, tlsSize); memcpy(tlsBase, t->tls.data(), tlsSize); }
		ctl_switch(&mainSp, t->sp);
		if (tlsSize) { memcpy(t->tls.data(), tlsBase, tlsSize); memcpy(tlsBase, mainTls.data(), tlsSize); }
		cur = nullptr;
		inRt = true;
		if (limitHit) break;
	}
	cur = nullptr;
	bool all = true;
	for (auto * t : threads) if (t->st != St::Done) { all = false; outcome.blocked.push_back(t->id); }
	outcome.end = limitHit ? End::Limit : all ? End::Done : End::Blocked;
	for (auto * t : threads) {
		if (t->st == St::Done) { stackPool.push_back(t->stack); delete t; }
		else if (all) delete t;
		else { munmap(t->stack, StackSize); /* the frames are abandoned */ t->body = nullptr; delete t; }
	}
	threads.clear();
	strat = nullptr; out = nullptr;
	inRt = false;
	return outcome;
}

int self() { return cur ? cur->id : -1; }
void ev(const std::string & j) {
	Guard g;
	if (!out) return;
	out->events.push_back(j);
	if (out->events.size() > 4000) out->steps = 2 * opt.stepLimit;
}
void yield() { point(false); }
long nowMs() { return long(nowNs / 1000000); }
void join() { if (!cur) return; Guard g; cur->st = St::Join; blockHere(); cur->st = St::Runnable; }
void waitUntil(const std::function<bool ()> & p) {
	if (!cur) return;
	Guard g;
	if (p()) return;
	cur->gate = p; cur->st = St::Gate;
	blockHere();
	cur->st = St::Runnable;
}
void focus(std::vector<std::pair<const char *, const char *>> r) { ranges = std::move(r); }
void noPreempt(bool on) { noPre += on ? 1 : -1; }
void crash() {
	Guard g;
	out->events.push_back("{\"k\":\"crash\",\"t\":" + std::to_string(cur->id) + "}");
	cur->st = St::Crashed; switchOut();
}
void crashAtSync(int thread, int nth) { crashThread = thread; crashNth = nth; }
bool crashArmed() { return crashNth > 0; }
long syncPoints(int t) { return threads[size_t(t)]->syncs; }
void sleepMs(long ms) {
	if (!cur) return;
	Guard g;
	cur->st = St::Sleep;
	cur->deadline = nowNs + (long long) ms * 1000000;
	blockHere();
	cur->st = St::Runnable; cur->timedOut = false; cur->deadline = NoDeadline;
}
void payloadWrite(int x) {
	if (!cur) return;
	Guard g; out->events.push_back("{\"k\":\"pw\",\"t\":" + std::to_string(cur->id) + ",\"o\":" + std::to_string(x) + ",\"mo\":-1}");
}
void payloadRead(int x) {
	if (!cur) return;
	Guard g; out->events.push_back("{\"k\":\"pr\",\"t\":" + std::to_string(cur->id) + ",\"o\":" + std::to_string(x) + ",\"mo\":-1}");
}

} // namespace ctl

using namespace ctl;

// ------------------------------------------------------------------ pthreads

EXPORT int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) {
	memset(m, 0, sizeof *m);
	int type = PTHREAD_MUTEX_DEFAULT;
	if (a) pthread_mutexattr_gettype(a, &type);
	w(m)[4] = type;
	return 0;
}

EXPORT int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

EXPORT int pthread_mutex_lock(pthread_mutex_t * m) {
	int * p = w(m);
	int me = cur ? cur->id + 2 : 1;
	if (p[0] == me && p[4] == PTHREAD_MUTEX_RECURSIVE) { ++p[1]; return 0; }
	if (!cur || inRt) {
		if (!cur && p[0] != 0 && p[0] != 1) { p[0] = 0; /* left locked by an abandoned thread */ }
		if (cur && inRt) return 0;
		p[0] = me; p[1] = 1;
		return 0;
	}
	point(false);
	Guard g;
	lockMutex(m);
	syncEv("lock", m);
	return 0;
}

EXPORT int pthread_mutex_trylock(pthread_mutex_t * m) {
	int * p = w(m);
	int me = cur ? cur->id + 2 : 1;
	if (p[0] == me && p[4] == PTHREAD_MUTEX_RECURSIVE) { ++p[1]; return 0; }
	point(false);
	if (cur && inRt) return 0;
	if (p[0] != 0) return EBUSY;
	p[0] = me; p[1] = 1;
	if (cur) { Guard g; if (p[2] == 0) p[2] = int(nextId++); ++cur->held; syncEv("lock", m); }
	return 0;
}

static long long toVirtual(clockid_t clock, const struct timespec * ts);

static int timedLock(pthread_mutex_t * m, clockid_t clock, const struct timespec * ts) {
	if (!cur || inRt) return pthread_mutex_lock(m);
	point(false);
	Guard g;
	int * p = w(m);
	if (p[0] != 0) {
		cur->deadline = toVirtual(clock, ts);
		cur->timedOut = false;
		if (cur->deadline <= nowNs) { cur->deadline = NoDeadline; return ETIMEDOUT; }
	}
	lockMutex(m);
	bool to = cur->timedOut;
	cur->deadline = NoDeadline; cur->timedOut = false;
	if (to) return ETIMEDOUT;
	syncEv("lock", m);
	return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts) { return timedLock(m, CLOCK_REALTIME, ts); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const struct timespec * ts) { return timedLock(m, c, ts); }

EXPORT int pthread_mutex_unlock(pthread_mutex_t * m) {
	int * p = w(m);
	if (cur && inRt) return 0;
	if (p[4] == PTHREAD_MUTEX_RECURSIVE && p[1] > 1) { --p[1]; return 0; }
	if (cur && p[0] == cur->id + 2) { Guard g; --cur->held; syncEv("unlock", m); }
	p[0] = 0; p[1] = 0;
	point(false);
	return 0;
}

EXPORT int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) {
	memset(c, 0, sizeof *c);
	if (a) { clockid_t k = CLOCK_REALTIME; pthread_condattr_getclock(a, &k); w(c)[1] = k == CLOCK_MONOTONIC ? 1 : 0; }
	return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, clockid_t clock, const struct timespec * ts) {
	if (!cur || inRt) {
		fprintf(stderr, "ctl: condition wait outside a controlled thread\n");
		abort();
	}
	point(false);
	Guard g;
	if (w(c)[0] == 0) w(c)[0] = int(nextId++);
	cur->condId = unsigned(w(c)[0]);
	cur->signaled = cur->timedOut = false;
	cur->deadline = NoDeadline;
	if (timed) cur->deadline = toVirtual(clock, ts);
	cur->waitOn = m;
	int * p = w(m);
	syncEv("unlock", m);
	int rec = p[1];
	p[0] = 0; p[1] = 0;
	--cur->held;
	if (timed && cur->deadline <= nowNs) { // already expired
		cur->condId = 0;
		cur->timedOut = true;
		cur->deadline = NoDeadline;
		cur->st = St::Runnable;
		nextThread = nullptr;
		inRt = false; point(false); inRt = true;
	} else {
		cur->st = St::Cond;
		blockHere();
	}
	bool to = cur->timedOut;
	cur->st = St::Runnable;
	cur->deadline = NoDeadline;
	cur->timedOut = false;
	lockMutex(m);
	p[1] = rec;
	syncEv("lock", m);
	return to ? ETIMEDOUT : 0;
}

EXPORT int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return condWait(c, m, false, 0, nullptr); }
EXPORT int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) {
	return condWait(c, m, true, w(c)[1] == 1 ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) {
	return condWait(c, m, true, k, ts);
}

EXPORT int pthread_cond_signal(pthread_cond_t * c) {
	if (!cur || inRt) return 0;
	point(false);
	Guard g;
	unsigned id = unsigned(w(c)[0]);
	if (id == 0) return 0;
	Thread * ws[64]; int cost[64]; int n = 0;
	for (auto * t : threads) if (t->st == St::Cond && t->condId == id && n < 60) { ws[n] = t; cost[n] = 0; ++n; }
	if (n == 0) return 0;
	Thread * t = ws[choose(n, cost, false)];
	t->signaled = true; t->condId = 0; t->deadline = NoDeadline; t->st = St::Mutex;
	return 0;
}

EXPORT int pthread_cond_broadcast(pthread_cond_t * c) {
	if (!cur || inRt) return 0;
	point(false);
	Guard g;
	unsigned id = unsigned(w(c)[0]);
	if (id == 0) return 0;
	for (auto * t : threads) if (t->st == St::Cond && t->condId == id) {
		t->signaled = true; t->condId = 0; t->deadline = NoDeadline; t->st = St::Mutex;
	}
	return 0;
}

// rwlock: word0 = writer + 1, word1 = readers
EXPORT int pthread_rwlock_init(pthread_rwlock_t * r, const pthread_rwlockattr_t *) { memset(r, 0, sizeof *r); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rwLock(pthread_rwlock_t * r, bool write, bool tr) {
	int * p = w(r);
	if (!cur || inRt) return 0;
	point(false);
	Guard g;
	while (write ? (p[0] != 0 || p[1] != 0) : p[0] != 0) {
		if (tr) return EBUSY;
		cur->st = St::Rw; cur->waitOn = r; cur->wantWrite = write;
		blockHere();
		cur->st = St::Runnable;
	}
	if (write) p[0] = cur->id + 2; else ++p[1];
	++cur->held;
	syncEv("lock", r);
	return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t * r) { return rwLock(r, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t * r) { return rwLock(r, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t * r) { return rwLock(r, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t * r) { return rwLock(r, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t * r) {
	int * p = w(r);
	if (!cur || inRt) return 0;
	{ Guard g; if (p[0]) p[0] = 0; else --p[1]; --cur->held; syncEv("unlock", r); }
	point(false);
	return 0;
}

EXPORT int pthread_once(pthread_once_t * o, void (*f)()) {
	int * p = w(o);
	if (*p == 2) { if (cur && !inRt) { Guard g; syncEv("aload", o, 2); } return 0; }
	if (!cur || inRt) { *p = 2; f(); return 0; }
	point(false);
	while (*p == 1) { Guard g; cur->st = St::Once; cur->waitOn = o; blockHere(); cur->st = St::Runnable; }
	if (*p == 2) { Guard g; syncEv("aload", o, 2); return 0; }
	*p = 1;
	try { f(); } catch (...) { *p = 0; throw; }
	{ Guard g; syncEv("astore", o, 3); }
	*p = 2;
	point(false);
	return 0;
}

EXPORT int sem_init(sem_t * s, int, unsigned v) { memset(s, 0, sizeof *s); w(s)[0] = int(v); return 0; }
EXPORT int sem_destroy(sem_t *) { return 0; }
EXPORT int sem_post(sem_t * s) { if (cur && !inRt) { Guard g; syncEv("armw", s, 4); } ++w(s)[0]; point(false); return 0; }
static int semWait(sem_t * s, bool timed, clockid_t k, const struct timespec * ts, bool tr) {
	if (!cur || inRt) { --w(s)[0]; return 0; }
	point(false);
	Guard g;
	if (w(s)[0] <= 0 && tr) { errno = EAGAIN; return -1; }
	cur->timedOut = false;
	if (timed) cur->deadline = toVirtual(k, ts);
	while (w(s)[0] <= 0) {
		if (timed && cur->deadline != NoDeadline && cur->deadline <= nowNs) { cur->deadline = NoDeadline; errno = ETIMEDOUT; return -1; }
		cur->st = St::Sem; cur->waitOn = s; blockHere(); cur->st = St::Runnable;
		if (cur->timedOut) { cur->timedOut = false; cur->deadline = NoDeadline; errno = ETIMEDOUT; return -1; }
	}
	cur->deadline = NoDeadline;
	--w(s)[0];
	syncEv("armw", s, 4);
	return 0;
}
EXPORT int sem_wait(sem_t * s) { return semWait(s, false, 0, nullptr, false); }
EXPORT int sem_trywait(sem_t * s) { return semWait(s, false, 0, nullptr, true); }
EXPORT int sem_timedwait(sem_t * s, const struct timespec * ts) { return semWait(s, true, CLOCK_REALTIME, ts, false); }
EXPORT int sem_clockwait(sem_t * s, clockid_t k, const struct timespec * ts) { return semWait(s, true, k, ts, false); }

// ------------------------------------------------------------------- clocks

static const long long RealBase = 1700000000LL * 1000000000LL;
static const long long MonoBase = 100000LL * 1000000000LL;

static long long toVirtual(clockid_t clock, const struct timespec * ts) {
	// Saturate rather than overflow.
	__int128 v = (__int128) ts->tv_sec * 1000000000 + ts->tv_nsec;
	v -= clock == CLOCK_REALTIME ? RealBase : MonoBase;
	if (v > (__int128) 4000000000000000000LL) v = 4000000000000000000LL;
	if (v < 0) v = 0;
	return (long long) v;
}

EXPORT int clock_gettime(clockid_t k, struct timespec * ts) {
	if (!cur) return int(syscall(SYS_clock_gettime, k, ts));
	long long v = nowNs + (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? RealBase : MonoBase);
	ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
	return 0;
}
EXPORT int gettimeofday(struct timeval * tv, void *) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t * t) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
static void vsleep(long long deadline) {
	Guard g;
	cur->st = St::Sleep; cur->deadline = deadline;
	blockHere();
	cur->st = St::Runnable; cur->timedOut = false; cur->deadline = NoDeadline;
}
EXPORT int nanosleep(const struct timespec * ts, struct timespec * rem) {
	if (!cur || inRt) return int(syscall(SYS_nanosleep, ts, rem));
	vsleep(nowNs + ts->tv_sec * 1000000000LL + ts->tv_nsec);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t k, int flags, const struct timespec * ts, struct timespec * rem) {
	if (!cur || inRt) return int(syscall(SYS_clock_nanosleep, k, flags, ts, rem));
	vsleep(flags & TIMER_ABSTIME ? toVirtual(k, ts) : nowNs + ts->tv_sec * 1000000000LL + ts->tv_nsec);
	return 0;
}
EXPORT int usleep(useconds_t us) {
	struct timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
	return nanosleep(&ts, nullptr);
}
EXPORT int sched_yield() {
	// A yielding thread lets another runnable thread go (spin loops).
	if (!cur || inRt || noPre) return 0;
	Guard g;
	if (++out->steps > 2 * opt.stepLimit) { limitHit = true; cur->st = St::Crashed; switchOut(); }
	Thread * c[64]; int cost[64]; int n = 0, N = int(threads.size());
	for (int k = 1; k < N; ++k) { Thread * t = threads[(cur->id + k) % N]; if (canRun(t)) { c[n] = t; cost[n] = 0; ++n; } }
	if (n == 0) { Thread * e = earliest(); if (e) fireTimeout(e); return 0; }
	nextThread = c[out->steps > opt.stepLimit ? 0 : choose(n, cost, false)];
	switchOut();
	return 0;
}

// ---------------------------------------------------------------- static init

EXPORT int __cxa_guard_acquire(uint64_t * g) {
	auto * b = reinterpret_cast<char *>(g);
	if (b[0]) return 0;
	if (cur && !inRt) {
		point(false);
		while (b[1]) { sched_yield(); if (b[0]) return 0; }
		if (b[0]) return 0;
	}
	b[1] = 1;
	return 1;
}
EXPORT void __cxa_guard_release(uint64_t * g) { auto * b = reinterpret_cast<char *>(g); b[1] = 0; b[0] = 1; }
EXPORT void __cxa_guard_abort(uint64_t * g) { auto * b = reinterpret_cast<char *>(g); b[1] = 0; }

EXPORT int __cxa_thread_atexit_impl(void (*f)(void *), void * a, void *) { if (cur) cur->tlsDtors.emplace_back(f, a); return 0; }
EXPORT int __cxa_thread_atexit(void (*f)(void *), void * a, void *) { if (cur) cur->tlsDtors.emplace_back(f, a); return 0; }

// ----------------------------------------------------------------- TSan ABI

static inline void mem(void * a) {
	if (!cur || inRt || !opt.memoryPoints || noPre || !focused(a)) return;
	auto * p = static_cast<char *>(a);
	if (p >= cur->stack && p < cur->stack + 512 * 1024) return; // own stack
	point(true);
}

#define MEM(N) \
EXPORT void __tsan_read##N(void * a) { mem(a); } \
EXPORT void __tsan_write##N(void * a) { mem(a); } \
EXPORT void __tsan_volatile_read##N(void * a) { mem(a); } \
EXPORT void __tsan_volatile_write##N(void * a) { mem(a); } \
EXPORT void __tsan_unaligned_read##N(void * a) { mem(a); } \
EXPORT void __tsan_unaligned_write##N(void * a) { mem(a); } \
EXPORT void __tsan_unaligned_volatile_read##N(void * a) { mem(a); } \
EXPORT void __tsan_unaligned_volatile_write##N(void * a) { mem(a); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
EXPORT void __tsan_read_range(void * a, unsigned long) { mem(a); }
EXPORT void __tsan_write_range(void * a, unsigned long) { mem(a); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_vptr_update(void **, void *) {}
EXPORT void __tsan_vptr_read(void **) {}

EXPORT void __tsan_atomic_thread_fence(int mo) { point(false); if (cur && !inRt) { Guard g; syncEv("fence", nullptr, mo); } }
EXPORT void __tsan_atomic_signal_fence(int) {}

static inline void apoint(const volatile void * a) { if (focused(a)) point(false); }
#define ATOMIC(B, T) \
EXPORT T __tsan_atomic##B##_load(const volatile T * a, int mo) { apoint(a); T v = *a; if (cur && !inRt) { Guard g; syncEv("aload", (void *) a, mo); } return v; } \
EXPORT void __tsan_atomic##B##_store(volatile T * a, T v, int mo) { apoint(a); *a = v; if (cur && !inRt) { Guard g; syncEv("astore", (void *) a, mo); } } \
EXPORT T __tsan_atomic##B##_exchange(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = v; if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(o + v); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(o - v); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(o & v); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(o | v); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(o ^ v); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int mo) { apoint(a); T o = *a; *a = T(~(o & v)); if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return o; } \
EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int fmo) { apoint(a); T o = *a; if (o == *e) { *a = v; if (cur && !inRt) { Guard g; syncEv("armw", (void *) a, mo); } return 1; } *e = o; if (cur && !inRt) { Guard g; syncEv("aload", (void *) a, fmo); } return 0; } \
EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T e, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
