// mcrt: stateless model checker for the real code. See DESIGN.md.
#include "rt.h"

#include <new>
namespace abi { extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*); }
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;

namespace rt {

///////////////////////////////////////////////////////////////////////////////////////
// Layout

static const uptr ARENA_BASE = 0x600000000000ull;
static const uptr ARENA_PER = 64ull << 20; // per fiber
static const int INIT_ARENA = MAXT;        // arena of static initializers
static const uptr ARENA_END = ARENA_BASE + ARENA_PER * (MAXT + 1);
static const uptr STACK_BASE = 0x610000000000ull;
static const uptr STACK_PER = 1ull << 20;
static const uptr STACK_SIZE = 512 << 10;
static const uptr STACK_END = STACK_BASE + STACK_PER * MAXT;
static const uptr TLS_BASE = 0x620000000000ull;
static const uptr TLS_PER = 1ull << 20;
static const uptr TLS_END = TLS_BASE + TLS_PER * MAXT;

enum FState { F_NONE, F_READY, F_BLOCKED, F_DONE };

struct TlsEnt { void* ctl; void* mem; };
struct DtorEnt { void (*fn)(void*); void* obj; };

struct Fiber
{
	int id;
	FState state;
	void* sp;
	void (*fn)(void*);
	void* arg;
	void* (*pfn)(void*);
	const char* name;
	VC vc, fenceRel, fenceAcq;
	bool hasFenceRel;
	uint64_t hist;
	int err;
	Vec<TlsEnt> tls;
	size_t tlsPos;
	Vec<DtorEnt> dtors;
	// Blocking
	bool (*pred)(void*);
	void* parg;
	uint64_t deadline;
	bool timedOut;
	bool spuriousOk, spurious;
	bool yielding;
	int atomicDepth, ignoreDepth;
	uint32_t held[8]; // mutexes held now
	int nheld;
	uptr arenaPos;
	uint32_t steps;
};

static Fiber F[MAXT];
static int nF;
static Fiber* cur;
static void* hostSp;
static uint64_t vnow;
static uint64_t lastTick;

extern "C" void mcrt_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mcrt_switch,.-mcrt_switch
)");

///////////////////////////////////////////////////////////////////////////////////////
// Options

struct Opts
{
	const char* so;
	const char* scenario;
	int P, D;
	int jobs;
	double timeLimit;
	uint64_t horizon;
	uint64_t accLimit;
	const char* out;
	const char* replay;
	const char* replayOut;
	bool verbose;
	bool noShare;
	bool reduce;
	int minP;
	size_t tableBits;
	bool noDedup;
	bool timers;   // D-deviations: early timeouts
	bool spurious; // D-deviations: spurious condvar wakeups
	bool race;
	uint64_t maxExecs;
	uint64_t fairness;
} O;

struct Param { const char* name; long val; };
static Vec<Param> params;

long param(const char* name, long def)
{
	for (size_t i = 0; i < params.n; ++i)
		if (strcmp(params[i].name, name) == 0)
			return params[i].val;
	return def;
}

///////////////////////////////////////////////////////////////////////////////////////
// Shared memory between the workers

struct Slot { uint32_t len; uint32_t P, D; uint8_t ch[4096]; uint8_t nopt[4096]; };
static const int QCAP = 1024;

static const int MAXOUT = 4096;
struct Shared
{
	volatile int stop;
	volatile int found;
	volatile int capped;
	volatile int sharedChanged;
	volatile int idle;
	volatile int qn;
	volatile int qlock;
	volatile uint64_t execs, steps, states, pruned, choices, races, discards, truncated;
	volatile uint64_t maxLen, maxSteps, maxThreads;
	volatile uint64_t tableFull;
	volatile int addrLock[64];
	// Violation
	char msg[4096];
	uint32_t vlen;
	uint8_t vch[1 << 16];
	uint8_t vnopt[1 << 16];
	// Outcomes
	volatile int outLock;
	volatile int nOut;
	uint64_t outHash[MAXOUT];
	char outStr[MAXOUT][96];
	volatile uint64_t outCnt[MAXOUT];
	volatile int nKnown;
	char known[16][96];
	Slot q[QCAP];
};
static Shared* S;
static volatile uint64_t* table; // visited table: key hash with P in low 4 bits
static size_t tableMask;
struct AddrEnt { volatile uint64_t key; volatile uint32_t acc, wr; volatile uint64_t locks; };
static AddrEnt* addrTab;     // addresses seen so far, by whom and under which mutexes (being learned)
static uint64_t* addrFrozen; // addresses which are scheduling points in this round
static const size_t ADDR_BITS = 20;

static void lock(volatile int* l) { while (__sync_lock_test_and_set(l, 1)) __builtin_ia32_pause(); }
static void unlock(volatile int* l) { __sync_lock_release(l); }

///////////////////////////////////////////////////////////////////////////////////////
// Current execution

static Vec<uint8_t> prefix, prefixN; // choices to replay and the recorded option counts
static Vec<uint8_t> ch, chN;         // choices taken and number of options
static Vec<uint8_t> costP, costD;    // budget used before the choice
static Vec<uint64_t> altMask;        // for every choice point: alternatives allowed (bit per option)
static Vec<uint8_t> optCost;         // packed per option cost kinds: see pushChoice
struct OptInfo { uint8_t cost[20]; };
static Vec<OptInfo> optInfo;
static int usedP, usedD;
static uint64_t execSteps, execAcc;
static bool execEnded, execViolation, execPruned, execDiscard;
static bool replaying;
static bool ended; // final end reached
static uint64_t liveBlocks, liveBytes, allocTotal;
static Vec<uint64_t> chSig; // signature at every choice point
static uint64_t freeHist;   // history of free choices made by the host
static uptr soLo, soHi, orLo, orHi;
static int serialDepth; // the schedule is not branched
static bool wasBranching; // the starting unbranched section is over
static uint64_t runLen; // scheduling points passed since the last switch between threads
static uptr soTextLo, soTextHi; // load range of the checked object

bool inFiber() { return cur != nullptr; }
int curTid() { return cur->id; }
uint64_t nowNs() { return vnow; }
bool logging() { return replaying && O.verbose; }

void logf(const char* fmt, ...)
{
	if (!logging())
		return;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	fprintf(stderr, "  [%d %s t=%lu] %s\n", cur ? cur->id : -1, cur ? cur->name : "", (unsigned long)(vnow / 1000000), buf);
}

static void toHost()
{
	void* dummy;
	Fiber* f = cur;
	cur = nullptr;
	mcrt_switch(f ? &f->sp : &dummy, hostSp);
	__builtin_unreachable();
}

static void recordViolation(const char* msg)
{
	lock(&S->qlock);
	if (!S->found)
	{
		snprintf(S->msg, sizeof(S->msg), "%s", msg);
		S->vlen = ch.n < sizeof(S->vch) ? ch.n : sizeof(S->vch);
		memcpy(S->vch, ch.d, S->vlen);
		memcpy(S->vnopt, chN.d, S->vlen);
		__sync_synchronize();
		S->found = 1;
		S->stop = 1;
	}
	unlock(&S->qlock);
}

void fail(const char* fmt, ...)
{
	char buf[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	for (char* p = buf; *p; ++p)
		if (*p == '\n') *p = ' ';
	if (cur)
	{
		char b2[3300];
		snprintf(b2, sizeof(b2), "%s [thread %d %s]", buf, cur->id, cur->name ? cur->name : "");
		recordViolation(b2);
		if (replaying && O.verbose)
			fprintf(stderr, "  *** %s\n", b2);
	}
	else
		recordViolation(buf);
	execViolation = true;
	execEnded = true;
	if (cur)
		toHost();
	fprintf(stderr, "fatal in host context: %s\n", buf);
	_exit(3);
}

///////////////////////////////////////////////////////////////////////////////////////
// Visited table

static bool visitedCheck(uint64_t sig, int P)
{
	// Returns true if the state was already visited with <= P preemptions used.
	if (O.noDedup)
		return false;
	sig &= ~15ull;
	if (sig == 0)
		sig = 16;
	size_t i = (sig >> 4) & tableMask;
	for (int probe = 0; probe < 64; ++probe, i = (i + 1) & tableMask)
	{
		uint64_t v = table[i];
		if (v == 0)
		{
			uint64_t nv = sig | (uint64_t)P;
			if (__sync_bool_compare_and_swap(&table[i], 0, nv))
			{
				__sync_fetch_and_add(&S->states, 1);
				return false;
			}
			v = table[i];
		}
		if ((v & ~15ull) == sig)
		{
			while (true)
			{
				if ((int)(v & 15) <= P)
					return true;
				if (__sync_bool_compare_and_swap(&table[i], v, sig | (uint64_t)P))
					return false;
				v = table[i];
			}
		}
	}
	S->tableFull = 1;
	return false;
}

static const size_t ADDR_MASK = (1ull << ADDR_BITS) - 1;

// Is the address (its key) a scheduling point in this round?
static bool frozenShared(uint64_t key)
{
	size_t i = (key >> 20) & ADDR_MASK;
	for (int probe = 0; probe < 64; ++probe, i = (i + 1) & ADDR_MASK)
	{
		if (addrFrozen[i] == 0)
			return false;
		if (addrFrozen[i] == key)
			return true;
	}
	return true;
}

static void freezeKey(uint64_t key)
{
	size_t i = (key >> 20) & ADDR_MASK;
	for (int probe = 0; probe < 64; ++probe, i = (i + 1) & ADDR_MASK)
		if (addrFrozen[i] == 0 || addrFrozen[i] == key)
		{
			addrFrozen[i] = key;
			return;
		}
}

// Without the reduction: accessed by more than one thread. With it: also written by somebody, and not
// consistently protected by one mutex (then the points at the mutex are enough).
static bool addrNeedsPoint(const AddrEnt& e)
{
	if ((e.acc & (e.acc - 1)) == 0)
		return false;
	if (!O.reduce)
		return true;
	return e.wr != 0 && (uint32_t)(e.locks >> 32) == 0 && (uint32_t)e.locks == 0;
}

static uint64_t locksNow()
{
	Fiber* f = cur;
	uint64_t l0 = f->nheld > 0 ? f->held[f->nheld - 1] : 0;
	uint64_t l1 = f->nheld > 1 ? f->held[f->nheld - 2] : 0;
	return l0 | l1 << 32;
}

static uint64_t locksMeet(uint64_t a)
{
	uint32_t l[2] = {(uint32_t)a, (uint32_t)(a >> 32)};
	for (int k = 0; k < 2; ++k)
	{
		if (l[k] == 0)
			continue;
		bool found = false;
		for (int i = 0; i < cur->nheld; ++i)
			found = found || cur->held[i] == l[k];
		if (!found)
			l[k] = 0;
	}
	return l[0] | (uint64_t)l[1] << 32;
}

// Returns true if the address is a scheduling point. The set of such addresses is fixed during a round
// and is extended between the rounds.
static bool noteAddr(uptr addr, int tid, bool write)
{
	if (O.noShare)
		return true;
	if (serialDepth == 0)
		wasBranching = true;
	uint64_t key = mix(addr, 77) | 1;
	bool res = frozenShared(key);
	if (res || replaying)
		return res;
	// The order of accesses in the starting unbranched section is fixed.
	if (O.reduce && serialDepth > 0 && !wasBranching)
		return res;
	size_t i = (key >> 20) & ADDR_MASK;
	for (int probe = 0; probe < 64; ++probe, i = (i + 1) & ADDR_MASK)
	{
		AddrEnt* e = &addrTab[i];
		uint64_t k = e->key;
		if (k != 0 && k != key)
			continue;
		uint32_t bit = 1u << tid;
		if (k == key && (e->acc & bit) != 0 && (!write || (e->wr & bit) != 0) && (!O.reduce || e->locks == 0 || locksMeet(e->locks) == e->locks))
		{
			if (addrNeedsPoint(*e))
				S->sharedChanged = 1;
			return res;
		}
		volatile int* lk = &S->addrLock[i & 63];
		lock(lk);
		if (e->key == 0)
		{
			e->acc = bit;
			e->wr = write ? bit : 0;
			e->locks = locksNow();
			__sync_synchronize();
			e->key = key;
			unlock(lk);
			return res;
		}
		if (e->key != key)
		{
			unlock(lk);
			continue;
		}
		e->acc |= bit;
		if (write)
			e->wr |= bit;
		e->locks = locksMeet(e->locks);
		if (addrNeedsPoint(*e))
			S->sharedChanged = 1;
		unlock(lk);
		return res;
	}
	return true;
}

///////////////////////////////////////////////////////////////////////////////////////
// Sync objects

struct SyncObj { uptr addr; uint64_t gen; VC clk; uint64_t ver; int owner; int waiters; };
static SyncObj* objs;
static const size_t OBJ_BITS = 14;
static uint64_t objGen;
static size_t objCount;

static SyncObj* getObj(uptr a)
{
	size_t m = (1ull << OBJ_BITS) - 1;
	size_t i = mix(a, 5) & m;
	while (true)
	{
		SyncObj* o = &objs[i];
		if (o->gen != objGen)
		{
			o->gen = objGen;
			o->addr = a;
			o->clk.clear();
			o->ver = mix(a, 1234567);
			o->owner = -1;
			o->waiters = 0;
			if (++objCount > m / 2)
				fail("mcrt: too many sync objects");
			return o;
		}
		if (o->addr == a)
			return o;
		i = (i + 1) & m;
	}
}

static inline void tick() { ++cur->vc.c[cur->id]; }

void hbRelease(VC& to) { to.join(cur->vc); tick(); }
void hbAcquire(const VC& from) { cur->vc.join(from); }

void observe(uint64_t v) { cur->hist = mix(cur->hist, v); }

void effRead(uptr addr, bool acquire)
{
	SyncObj* o = getObj(addr);
	cur->hist = mix(cur->hist, o->ver ^ 0x11);
	if (acquire)
		cur->vc.join(o->clk);
	else
		cur->fenceAcq.join(o->clk);
}

void effWrite(uptr addr, bool release, bool rmw)
{
	SyncObj* o = getObj(addr);
	cur->hist = mix(cur->hist, o->ver ^ 0x22);
	o->ver = mix(cur->hist, addr);
	if (!rmw)
		o->clk.clear();
	if (release)
		o->clk.join(cur->vc);
	else if (cur->hasFenceRel)
		o->clk.join(cur->fenceRel);
	tick();
}

///////////////////////////////////////////////////////////////////////////////////////
// Scheduling

static bool fiberEnabled(Fiber* f)
{
	if (f->state == F_READY)
		return true;
	if (f->state != F_BLOCKED)
		return false;
	if (f->timedOut || f->spurious)
		return true;
	return f->pred != nullptr && f->pred(f->parg);
}

static uint64_t signature()
{
	uint64_t s = mix(vnow, freeHist) + (uint64_t)nF * 0x9E37;
	for (int i = 0; i < nF; ++i)
		s += mix(F[i].hist + F[i].state * 7 + (F[i].timedOut ? 3 : 0) + (F[i].spurious ? 5 : 0), i + 101);
	return mix(s, cur ? cur->id + (cur->yielding ? 50 : 0) : 99);
}

static const uint8_t COST_P = 1, COST_D = 2;

// Generic choice point. cost[i]: 0 free, COST_P preemption, COST_D environment deviation.
static int pick(int n, const uint8_t* cost, bool dedup, uint64_t sigExtra)
{
	if (n <= 1)
		return 0;
	if (n > 20)
		fail("mcrt: too many alternatives (%d)", n);
	size_t i = ch.n;
	int c = 0;
	if (i < prefix.n)
	{
		c = prefix[i];
		if (prefixN.n > i && prefixN[i] != n)
			fail("mcrt: replay divergence at choice %zu: %d options, expected %d", i, n, prefixN[i]);
		if (c >= n)
			fail("mcrt: replay divergence at choice %zu", i);
	}
	else if (dedup && !replaying)
	{
		uint64_t sig = mix(mix(signature(), sigExtra), usedD + 1000 * n);
		if (visitedCheck(sig, usedP))
		{
			execPruned = true;
			execEnded = true;
			toHost();
		}
	}
	OptInfo oi;
	memcpy(oi.cost, cost, n);
	ch.push((uint8_t)c);
	chN.push((uint8_t)n);
	costP.push((uint8_t)usedP);
	costD.push((uint8_t)usedD);
	optInfo.push(oi);
	if (cost[c] == COST_P) ++usedP;
	if (cost[c] == COST_D) ++usedD;
	return c;
}

static void switchTo(Fiber* f)
{
	if (f == cur)
		return;
	Fiber* old = cur;
	old->err = errno;
	runLen = 0;
	cur = f;
	mcrt_switch(&old->sp, f->sp);
	errno = cur->err;
}

// Choose who runs next. The current fiber may be runnable or not.
static void schedule()
{
	Fiber* me = cur;
	while (true)
	{
		Fiber* cand[20];
		uint8_t cost[20];
		uint8_t kind[20]; // 0 run, 1 early timeout, 2 spurious
		int n = 0;
		bool meOk = fiberEnabled(me);
		bool meFirst = meOk && !me->yielding;
		if (meFirst)
		{
			cand[n] = me; kind[n] = 0; cost[n++] = 0;
			if (me->atomicDepth > 0)
				goto run0;
		}
		for (int k = 1; k < nF; ++k)
		{
			Fiber* f = &F[(me->id + k) % nF];
			if (!fiberEnabled(f))
				continue;
			cand[n] = f; kind[n] = 0;
			cost[n++] = meFirst ? COST_P : 0;
		}
		if (meOk && !meFirst && n == 0)
		{
			cand[n] = me; kind[n] = 0; cost[n++] = 0;
		}
		if (n == 0)
		{
			// Nobody can run: let the time go to the earliest deadline.
			uint64_t best = UINT64_MAX;
			for (int k = 0; k < nF; ++k)
				if (F[k].state == F_BLOCKED && F[k].deadline < best)
					best = F[k].deadline;
			if (best == UINT64_MAX)
			{
				char buf[1500];
				int p = 0;
				for (int k = 0; k < nF; ++k)
					if (F[k].state == F_BLOCKED)
						p += snprintf(buf + p, sizeof(buf) - p, " %d:%s", k, F[k].name ? F[k].name : "?");
				fail("deadlock: no thread can make progress; blocked:%s", buf);
			}
			if (best > vnow)
				vnow = best;
			for (int k = 0; k < nF; ++k)
				if (F[k].state == F_BLOCKED && F[k].deadline <= vnow)
					F[k].timedOut = true;
			continue;
		}
		if (O.timers && usedD < O.D && serialDepth == 0)
		{
			// A timer may fire before the other threads get the CPU.
			uint64_t best = UINT64_MAX;
			Fiber* bf = nullptr;
			for (int k = 0; k < nF; ++k)
				if (F[k].state == F_BLOCKED && !fiberEnabled(&F[k]) && F[k].deadline < best)
				{
					best = F[k].deadline;
					bf = &F[k];
				}
			if (bf != nullptr && n < 20)
			{
				cand[n] = bf; kind[n] = 1; cost[n++] = COST_D;
			}
		}
		if (O.spurious && usedD < O.D && serialDepth == 0)
		{
			for (int k = 0; k < nF && n < 20; ++k)
				if (F[k].state == F_BLOCKED && F[k].spuriousOk && !fiberEnabled(&F[k]))
				{
					cand[n] = &F[k]; kind[n] = 2; cost[n++] = COST_D;
				}
		}
run0:
		int c = n > 1 && serialDepth == 0 ? pick(n, cost, true, 0) : 0;
		Fiber* f = cand[c];
		if (kind[c] == 1)
		{
			vnow = f->deadline;
			for (int k = 0; k < nF; ++k)
				if (F[k].state == F_BLOCKED && F[k].deadline <= vnow)
					F[k].timedOut = true;
			continue;
		}
		if (kind[c] == 2)
			f->spurious = true;
		me->yielding = false;
		if (f != me)
			switchTo(f);
		return;
	}
}

static bool traceOn;
void point(uptr addr, bool write)
{
	if (logging())
	{
		void* bt[24];
		int n = backtrace(bt, 24);
		fprintf(stderr, "@%d %s a=%lx", cur->id, cur->name ? cur->name : "", addr);
		for (int i = 0; i < n; ++i)
			if ((uptr)bt[i] >= soTextLo && (uptr)bt[i] < soTextHi)
				fprintf(stderr, " %lx", (uptr)bt[i] - soTextLo);
		fprintf(stderr, "\n");
	}
	if (traceOn)
		fprintf(stderr, "T %d point %lx choice %zu now %lu\n", cur->id, addr, ch.n, (unsigned long)vnow);
	++cur->steps;
	if (++execSteps > O.horizon)
		fail("horizon exceeded: %lu visible steps (livelock or unbounded wait)", (unsigned long)execSteps);
	if (addr != 0 && !noteAddr(addr, cur->id, write))
		return;
	if (cur->atomicDepth > 0)
		return;
	// The position in the code is a part of the state: two points in a row must not look equal.
	cur->hist = mix(cur->hist, 0x90147);
	// Fairness: a thread that has been running alone for very long is likely spinning on something
	// that another runnable thread is about to do. Let the others go, for free.
	if (++runLen >= O.fairness)
	{
		cur->yielding = true;
		runLen = 0;
	}
	schedule();
}

bool blockUntil(bool (*pred)(void*), void* arg, uint64_t deadline)
{
	if (pred != nullptr && pred(arg))
		return true;
	if (cur->atomicDepth > 0)
		fail("mcrt: blocking inside an atomic section");
	cur->pred = pred;
	cur->parg = arg;
	cur->deadline = deadline;
	cur->timedOut = false;
	cur->spurious = false;
	cur->state = F_BLOCKED;
	schedule();
	cur->state = F_READY;
	cur->pred = nullptr;
	cur->deadline = UINT64_MAX;
	bool t = cur->timedOut;
	cur->timedOut = false;
	if (pred != nullptr && pred(arg))
		return true;
	return !t;
}

int choose(int n)
{
	if (n <= 1)
		return 0;
	uint8_t cost[20] = {0};
	int rem = n, base = 0;
	(void)base;
	if (n <= 20)
	{
		int c = pick(n, cost, false, 0);
		cur->hist = mix(cur->hist, 0xC0 + c);
		return c;
	}
	// Big domains are split into 16-ary digits.
	int d = 1;
	int res = 0;
	while (d < n) d *= 16;
	(void)rem;
	while (d > 1)
	{
		d /= 16;
		int left = n - res;
		int k = (left + d - 1) / d;
		if (k > 16) k = 16;
		res += pick(k, cost, false, 0) * d;
	}
	cur->hist = mix(cur->hist, 0xC0 + res);
	return res;
}

int chooseDev(int n)
{
	if (n <= 1)
		return 0;
	if (usedD >= O.D && ch.n >= prefix.n)
	{
		// Keep the number of options stable for replay.
	}
	uint8_t cost[20];
	cost[0] = 0;
	for (int i = 1; i < n && i < 20; ++i)
		cost[i] = COST_D;
	int c = pick(n, cost, false, 0);
	cur->hist = mix(cur->hist, 0xD0 + c);
	return c;
}

///////////////////////////////////////////////////////////////////////////////////////
// Heap

static uint8_t* hshadow; // one byte per 8 bytes of arena: 0 none, 1..8 valid bytes, 0xFD freed

struct BlockHdr { uint64_t size; uint64_t magic; };

static inline bool inArena(uptr a) { return a >= ARENA_BASE && a < ARENA_END; }

static uptr initArenaPos;
static bool inInit;
static Vec<uptr> liveList;

static void* arenaAlloc(size_t size, size_t align)
{
	uptr& pos = cur ? cur->arenaPos : initArenaPos;
	int id = cur ? cur->id : INIT_ARENA;
	uptr lim = ARENA_BASE + ARENA_PER * (id + 1);
	if (align < 16) align = 16;
	uptr p = (pos + sizeof(BlockHdr) + align - 1) & ~(align - 1);
	uptr e = p + ((size + 7) & ~7ull) + 16;
	if (e >= lim)
	{
		if (cur)
			fail("memory exhausted: allocation of %zu bytes", size);
		abort();
	}
	BlockHdr* h = (BlockHdr*)(p - sizeof(BlockHdr));
	h->size = size;
	h->magic = 0xA110CA7EDull;
	memset((void*)p, 0xBE, size);
	size_t g = (p - ARENA_BASE) >> 3;
	size_t full = size >> 3;
	memset(hshadow + g, 8, full);
	if (size & 7)
		hshadow[g + full] = size & 7;
	pos = (e + 15) & ~15ull;
	++liveBlocks;
	liveBytes += size;
	allocTotal += size;
	return (void*)p;
}


static void arenaFree(void* ptr, void* pc)
{
	uptr p = (uptr)ptr;
	BlockHdr* h = (BlockHdr*)(p - sizeof(BlockHdr));
	size_t g = (p - ARENA_BASE) >> 3;
	if (h->magic == 0xDEADF4EEull)
	{
		if (cur) fail("double free of %p", ptr);
		return;
	}
	if (h->magic != 0xA110CA7EDull || (p & 15) != 0)
	{
		if (cur) fail("invalid free of %p", ptr);
		return;
	}
	size_t size = h->size;
	if (cur && O.race && cur->ignoreDepth == 0)
		accRange(p, size, true, pc);
	h->magic = 0xDEADF4EEull;
	memset(hshadow + g, 0xFD, (size + 7) >> 3);
	memset(ptr, 0xDD, size);
	--liveBlocks;
	liveBytes -= size;
}

///////////////////////////////////////////////////////////////////////////////////////
// Race detector

struct Cell { uint32_t next; uint32_t clk; uint8_t mask; uint8_t tid; uint8_t flags; uint8_t pad; void* pc; };
enum { CW = 1, CA = 2 }; // write, atomic
static Vec<Cell> cells;
static uint32_t* gArena; // head per granule
static uint32_t* gStack;
static uint32_t* gSo;
static uint32_t* gTls;
static Vec<uint32_t*> touched;

static inline uint32_t* granule(uptr a)
{
	if (a >= ARENA_BASE && a < ARENA_END) return gArena + ((a - ARENA_BASE) >> 3);
	if (a >= STACK_BASE && a < STACK_END) return gStack + ((a - STACK_BASE) >> 3);
	if (a >= soLo && a < soHi) return gSo + ((a - soLo) >> 3);
	if (a >= TLS_BASE && a < TLS_END) return gTls + ((a - TLS_BASE) >> 3);
	return nullptr;
}

static void symbolize(void* pc, char* buf, size_t n)
{
	Dl_info di;
	if (dladdr(pc, &di) && di.dli_sname)
	{
		int st = 0;
		char* dn = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
		snprintf(buf, n, "%.150s+0x%lx", dn ? dn : di.dli_sname, (unsigned long)((uptr)pc - (uptr)di.dli_saddr));
		free(dn);
	}
	else if (dladdr(pc, &di))
		snprintf(buf, n, "so+0x%lx", (unsigned long)((uptr)pc - (uptr)di.dli_fbase));
	else
		snprintf(buf, n, "%p", pc);
}

static void raceReport(uptr a, const Cell& c, uint8_t flags, void* pc)
{
	char b1[256], b2[256];
	symbolize(c.pc, b1, sizeof(b1));
	symbolize(pc, b2, sizeof(b2));
	fail("data race: %s%s in %s by thread %d (%s) is not ordered with %s%s in %s by thread %d",
		(c.flags & CA) ? "atomic " : "", (c.flags & CW) ? "write" : "read", b1, c.tid,
		F[c.tid].name ? F[c.tid].name : "",
		(flags & CA) ? "atomic " : "", (flags & CW) ? "write" : "read", b2, cur->id);
}

static inline void accGranule(uptr a, uint8_t mask, uint8_t flags, void* pc)
{
	uint32_t* head = granule(a);
	if (head == nullptr)
		return;
	uint32_t* link = head;
	Fiber* me = cur;
	bool have = false;
	uint32_t ix = *link;
	if (ix == 0)
		touched.push(head);
	while (ix != 0)
	{
		Cell& c = cells[ix];
		if ((c.mask & mask) != 0)
		{
			bool hb = c.clk <= me->vc.c[c.tid];
			if (c.tid != me->id && !hb && ((c.flags | flags) & CW) != 0 &&
				!((c.flags & CA) && (flags & CA)))
				raceReport(a, c, flags, pc);
			if (c.tid == me->id && c.flags == flags && (c.mask & mask) == mask)
			{
				// Same kind by the same thread: refresh.
				if (c.mask == mask) { c.clk = me->vc.c[me->id]; c.pc = pc; have = true; }
				else if (c.clk == me->vc.c[me->id]) have = true;
			}
			else if (hb && (flags & CW) && !(flags & CA))
			{
				// A plain write ordered after it supersedes any older access.
				c.mask &= ~mask;
				if (c.mask == 0)
				{
					*link = c.next;
					ix = *link;
					continue;
				}
			}
		}
		link = &c.next;
		ix = c.next;
	}
	if (!have)
	{
		Cell c;
		c.next = *head;
		c.clk = me->vc.c[me->id];
		c.mask = mask;
		c.tid = me->id;
		c.flags = flags;
		c.pc = pc;
		cells.push(c);
		*head = cells.n - 1;
	}
}

static void heapCheck(uptr a, size_t n, bool w, void* pc)
{
	// All bytes of [a, a+n) must be inside of one live block.
	uptr e = a + n;
	for (uptr g = a & ~7ull; g < e; g += 8)
	{
		uint8_t s = hshadow[(g - ARENA_BASE) >> 3];
		if (s == 8)
			continue;
		uptr hi = e - g < 8 ? e - g : 8;
		if (s >= 1 && s < 8 && hi <= s)
			continue;
		char b[256];
		symbolize(pc, b, sizeof(b));
		fail("%s: %s of %zu bytes in %s", s == 0xFD ? "use after free" : "heap buffer overflow",
			w ? "write" : "read", n, b);
	}
}

static inline void accFlags(uptr a, size_t n, uint8_t flags, void* pc)
{
	if (cur == nullptr)
		return;
	if (a >= orLo && a < orHi)
	{
		// Harness bookkeeping: never a race, but the order of such accesses is a part of the
		// state (the histories), otherwise states with different oracle values would be merged.
		for (uptr g = a & ~7ull; g < a + n; g += 8)
		{
			SyncObj* o = getObj(g);
			cur->hist = mix(cur->hist, o->ver ^ ((flags & CW) ? 0x55 : 0x56));
			if (flags & CW)
				o->ver = mix(cur->hist, g);
		}
		return;
	}
	if (cur->ignoreDepth > 0)
		return;
	if (++execAcc > O.accLimit)
		fail("no progress: more than %lu memory accesses in one execution (endless loop)", (unsigned long)O.accLimit);
	if (inArena(a))
		heapCheck(a, n, flags & CW, pc);
	else if (a < 4096)
		fail("null pointer %s", (flags & CW) ? "write" : "read");
	if (!O.race || nF <= 1)
		return;
	uptr e = a + n;
	uptr g = a & ~7ull;
	while (g < e)
	{
		int lo = a > g ? a - g : 0;
		int hi = e - g < 8 ? e - g : 8;
		uint8_t mask = (uint8_t)((0xFF << lo) & (0xFF >> (8 - hi)));
		accGranule(g, mask, flags, pc);
		g += 8;
	}
}

void accRange(uptr a, size_t n, bool w, void* pc)
{
	if (n != 0)
		accFlags(a, n, w ? CW : 0, pc);
}

///////////////////////////////////////////////////////////////////////////////////////
// Fibers

static void fiberExit()
{
	cur->state = F_DONE;
	tick();
	cur->hist = mix(cur->hist, 0xEEEE);
	schedule();
	__builtin_unreachable();
}

static void fiberMain()
{
	Fiber* f = cur;
	errno = 0;
	if (f->pfn)
		f->pfn(f->arg);
	else
		f->fn(f->arg);
	while (f->dtors.n > 0)
	{
		DtorEnt e = f->dtors.pop();
		e.fn(e.obj);
	}
	if (f->id == 0)
	{
		ended = true;
		execEnded = true;
		toHost();
	}
	fiberExit();
}

static void fiberInit(Fiber* f, int id, const char* name)
{
	f->id = id;
	f->state = F_READY;
	f->name = name;
	f->fn = nullptr; f->pfn = nullptr; f->arg = nullptr;
	f->vc.clear(); f->fenceRel.clear(); f->fenceAcq.clear(); f->hasFenceRel = false;
	f->vc.c[id] = 1;
	f->hist = mix(id, 4242);
	f->err = 0;
	f->tls.clear();
	f->tlsPos = 0;
	f->dtors.clear();
	f->pred = nullptr; f->deadline = UINT64_MAX; f->timedOut = false;
	f->spurious = f->spuriousOk = false;
	f->yielding = false;
	f->atomicDepth = f->ignoreDepth = 0;
	f->nheld = 0;
	f->arenaPos = ARENA_BASE + ARENA_PER * id;
	f->steps = 0;
	uptr top = STACK_BASE + STACK_PER * id + STACK_SIZE;
	void** sp = (void**)top;
	*--sp = nullptr; // alignment: rsp % 16 == 8 at function entry
	*--sp = (void*)fiberMain;
	for (int i = 0; i < 6; ++i)
		*--sp = nullptr;
	f->sp = sp;
}

static Fiber* spawn(const char* name)
{
	if (nF >= MAXT)
		fail("mcrt: too many threads");
	Fiber* f = &F[nF];
	fiberInit(f, nF, name);
	++nF;
	f->vc.join(cur->vc);
	f->hist = mix(f->hist, cur->hist);
	tick();
	cur->hist = mix(cur->hist, 0x5A + f->id);
	return f;
}

static bool predDone(void* a) { return ((Fiber*)a)->state == F_DONE; }

static void joinFiber(int id)
{
	Fiber* f = &F[id];
	point(0);
	blockUntil(predDone, f, UINT64_MAX);
	cur->vc.join(f->vc);
	cur->hist = mix(cur->hist, f->hist);
}

///////////////////////////////////////////////////////////////////////////////////////
// Scenarios and the loaded object

struct Scn { const char* name; mc_scenario_fn fn; };
static Vec<Scn> scns;
static mc_scenario_fn theScn;

struct Seg { uptr a; size_t n; void* copy; };
static Vec<Seg> segs;
static size_t initArenaSize;
static void* initArenaCopy;
static uint8_t* initShadowCopy;
static uint64_t initLive, initLiveBytes;

static int phdrCb(struct dl_phdr_info* info, size_t, void*)
{
	char real1[4096], real2[4096];
	if (!info->dlpi_name || !*info->dlpi_name || !realpath(info->dlpi_name, real1) || !realpath(O.so, real2) || strcmp(real1, real2) != 0)
		return 0;
	uptr relroLo = 0, relroHi = 0;
	for (int i = 0; i < info->dlpi_phnum; ++i)
		if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO)
		{
			relroLo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
			relroHi = (relroLo + info->dlpi_phdr[i].p_memsz) & ~4095ull;
		}
	for (int i = 0; i < info->dlpi_phnum; ++i)
	{
		const ElfW(Phdr)& ph = info->dlpi_phdr[i];
		if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W))
			continue;
		Seg s;
		s.a = info->dlpi_addr + ph.p_vaddr;
		uptr e = s.a + ph.p_memsz;
		if (s.a < relroHi && s.a >= (relroLo & ~4095ull))
			s.a = relroHi;
		if (s.a >= e)
			continue;
		s.n = e - s.a;
		s.copy = nullptr;
		segs.push(s);
	}
	return 0;
}

static void loadSo()
{
	inInit = true;
	void* h = dlopen(O.so, RTLD_NOW | RTLD_GLOBAL);
	if (!h)
	{
		fprintf(stderr, "dlopen: %s\n", dlerror());
		_exit(4);
	}
	inInit = false;
	dl_iterate_phdr(phdrCb, nullptr);
	struct link_map* lm = (struct link_map*)h;
	soTextLo = lm->l_addr;
	soLo = UINT64_MAX; soHi = 0;
	for (size_t i = 0; i < segs.n; ++i)
	{
		if (segs[i].a < soLo) soLo = segs[i].a;
		if (segs[i].a + segs[i].n > soHi) soHi = segs[i].a + segs[i].n;
	}
	soLo &= ~7ull;
	soTextHi = soHi;
	void (*orf)(void**, void**) = (void (*)(void**, void**))dlsym(h, "mc_glue_oracle");
	if (orf)
	{
		void *a, *b;
		orf(&a, &b);
		orLo = (uptr)a;
		orHi = (uptr)b;
	}
	gSo = (uint32_t*)calloc(((soHi - soLo) >> 3) + 8, 4);
	for (size_t i = 0; i < segs.n; ++i)
	{
		segs[i].copy = malloc(segs[i].n);
		memcpy(segs[i].copy, (void*)segs[i].a, segs[i].n);
	}
	uptr b = ARENA_BASE + ARENA_PER * INIT_ARENA;
	initArenaSize = initArenaPos - b;
	initArenaCopy = malloc(initArenaSize + 16);
	memcpy(initArenaCopy, (void*)b, initArenaSize);
	initShadowCopy = (uint8_t*)malloc(initArenaSize / 8 + 16);
	memcpy(initShadowCopy, hshadow + ((b - ARENA_BASE) >> 3), initArenaSize / 8 + 1);
	initLive = liveBlocks;
	initLiveBytes = liveBytes;
}

static int nFPrev;

static void resetWorld()
{
	for (size_t i = 0; i < segs.n; ++i)
		memcpy((void*)segs[i].a, segs[i].copy, segs[i].n);
	uptr b = ARENA_BASE + ARENA_PER * INIT_ARENA;
	memcpy((void*)b, initArenaCopy, initArenaSize);
	memcpy(hshadow + ((b - ARENA_BASE) >> 3), initShadowCopy, initArenaSize / 8 + 1);
	for (int i = 0; i < nFPrev; ++i)
	{
		uptr ab = ARENA_BASE + ARENA_PER * i;
		size_t used = F[i].arenaPos - ab;
		if (used)
			memset(hshadow + ((ab - ARENA_BASE) >> 3), 0, used / 8 + 8);
	}
	liveBlocks = initLive;
	liveBytes = initLiveBytes;
	allocTotal = 0;
	for (size_t i = 0; i < touched.n; ++i)
		*touched[i] = 0;
	touched.clear();
	cells.clear();
	Cell z; memset(&z, 0, sizeof(z));
	cells.push(z);
	++objGen;
	objCount = 0;
	lastTick = 0;
	vnow = 1000000ull * 1000000ull; // 1000 seconds since boot
	freeHist = 0;
	ch.clear(); chN.clear(); costP.clear(); costD.clear(); optInfo.clear();
	usedP = usedD = 0;
	execSteps = execAcc = runLen = 0;
	serialDepth = 0;
	wasBranching = false;
	execEnded = execViolation = execPruned = execDiscard = ended = false;
	nF = 0;
	kernReset();
}

static void scnEntry(void*) { theScn(); }

static void runOne()
{
	resetWorld();
	fiberInit(&F[0], 0, "main");
	F[0].fn = scnEntry;
	nF = 1;
	cur = &F[0];
	mcrt_switch(&hostSp, F[0].sp);
	cur = nullptr;
	nFPrev = nF;
	if (!execViolation && !execPruned && !execDiscard && ch.n < prefix.n)
	{
		if (getenv("MCRT_DEBUG"))
		{
			for (size_t i = 0; i < prefix.n; ++i) fprintf(stderr, " %d/%d", prefix[i], prefixN[i]);
			fprintf(stderr, "\n got ");
			for (size_t i = 0; i < ch.n; ++i) fprintf(stderr, " %d/%d", ch[i], chN[i]);
			fprintf(stderr, "\n");
		}
		recordViolation("mcrt: replay divergence: execution ended before the prefix");
		execViolation = true;
	}
}

///////////////////////////////////////////////////////////////////////////////////////
// Exploration

struct Base { int refs; uint32_t n; uint8_t* ch; uint8_t* nopt; };
struct Work { Base* base; uint32_t idx; uint8_t alt; };
static Vec<Work> stack;

static void baseUnref(Base* b)
{
	if (--b->refs == 0) { free(b->ch); free(b->nopt); free(b); }
}

static double monoNow()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

static volatile uint64_t curExecNo;

static void expand()
{
	size_t from = prefix.n;
	Base* b = nullptr;
	for (size_t i = from; i < ch.n; ++i)
	{
		for (int alt = 0; alt < chN[i]; ++alt)
		{
			if (alt == ch[i])
				continue;
			int p = costP[i] + (optInfo[i].cost[alt] == COST_P);
			int d = costD[i] + (optInfo[i].cost[alt] == COST_D);
			if (p > O.P || d > O.D)
				continue;
			if (b == nullptr)
			{
				b = (Base*)malloc(sizeof(Base));
				b->refs = 0;
				b->n = ch.n;
				b->ch = (uint8_t*)malloc(ch.n);
				b->nopt = (uint8_t*)malloc(ch.n);
				memcpy(b->ch, ch.d, ch.n);
				memcpy(b->nopt, chN.d, ch.n);
			}
			Work w;
			w.base = b;
			w.idx = i;
			w.alt = alt;
			++b->refs;
			stack.push(w);
		}
	}
}

static void donate()
{
	// Give the shallowest work to the others when they starve.
	if (S->qn >= O.jobs * 2 || stack.n < 2)
		return;
	lock(&S->qlock);
	size_t give = stack.n / 2;
	if (give > 32) give = 32;
	size_t i = 0, gave = 0;
	while (gave < give && S->qn < QCAP && i < stack.n)
	{
		Work w = stack[i];
		if (w.idx + 1 > sizeof(S->q[0].ch)) { ++i; continue; }
		Slot& s = S->q[S->qn];
		s.len = w.idx + 1;
		memcpy(s.ch, w.base->ch, w.idx);
		memcpy(s.nopt, w.base->nopt, w.idx + 1);
		s.ch[w.idx] = w.alt;
		++S->qn;
		baseUnref(w.base);
		++gave;
		++i;
		stack[i - 1].base = nullptr;
	}
	unlock(&S->qlock);
	// Compact.
	size_t j = 0;
	for (size_t k = 0; k < stack.n; ++k)
		if (stack[k].base != nullptr)
			stack[j++] = stack[k];
	stack.n = j;
}

static bool getWork()
{
	prefix.clear();
	prefixN.clear();
	if (stack.n > 0)
	{
		Work w = stack.pop();
		for (uint32_t i = 0; i < w.idx; ++i)
		{
			prefix.push(w.base->ch[i]);
			prefixN.push(w.base->nopt[i]);
		}
		prefix.push(w.alt);
		prefixN.push(w.base->nopt[w.idx]);
		baseUnref(w.base);
		return true;
	}
	bool wasIdle = false;
	while (!S->stop)
	{
		lock(&S->qlock);
		if (S->qn > 0)
		{
			Slot& s = S->q[--S->qn];
			for (uint32_t i = 0; i < s.len; ++i)
			{
				prefix.push(s.ch[i]);
				prefixN.push(s.nopt[i]);
			}
			if (wasIdle)
				--S->idle;
			unlock(&S->qlock);
			return true;
		}
		if (!wasIdle)
		{
			wasIdle = true;
			++S->idle;
		}
		if (S->idle == O.jobs)
		{
			unlock(&S->qlock);
			return false;
		}
		unlock(&S->qlock);
		struct timespec ts = {0, 200000};
		syscall(SYS_nanosleep, &ts, nullptr);
	}
	return false;
}

static int wdLast = -1;
static uint64_t wdExec;
static int wdCount;
static int wdLimit = 20;

static void onAlarm(int)
{
	if (curExecNo == wdExec && cur != nullptr)
	{
		if (++wdCount >= wdLimit)
		{
			recordViolation("hang: one execution does not finish (endless loop without visible steps)");
			_exit(0);
		}
	}
	else
	{
		wdExec = curExecNo;
		wdCount = 0;
	}
	(void)wdLast;
}

static void onCrash(int sig, siginfo_t* si, void*)
{
	char b[300];
	snprintf(b, sizeof(b), "crash: signal %d (%s) at address %p [thread %d]", sig,
		sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : "fault",
		si->si_addr, cur ? cur->id : -1);
	if (cur == nullptr)
		fprintf(stderr, "mcrt host %s\n", b);
	recordViolation(b);
	_exit(cur == nullptr ? 3 : 0);
}

static void setupSignals()
{
	static char alt[65536];
	stack_t ss;
	memset(&ss, 0, sizeof(ss));
	ss.ss_sp = alt;
	ss.ss_size = sizeof(alt);
	sigaltstack(&ss, nullptr);
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = onCrash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, nullptr);
	sigaction(SIGBUS, &sa, nullptr);
	sigaction(SIGFPE, &sa, nullptr);
	sigaction(SIGILL, &sa, nullptr);
	sigaction(SIGABRT, &sa, nullptr);
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = onAlarm;
	sa.sa_flags = SA_ONSTACK | SA_RESTART;
	sigaction(SIGALRM, &sa, nullptr);
	struct itimerval it;
	it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0;
	it.it_value = it.it_interval;
	setitimer(ITIMER_REAL, &it, nullptr);
}

static void worker(int id, double deadline)
{
	setupSignals();
	if (getenv("MCRT_TRACE"))
	{
		traceOn = true;
		for (int i = 0; i < 2; ++i) { fprintf(stderr, "RUN %d\n", i); prefix.clear(); replaying = true; runOne(); }
		_exit(0);
	}
	uint64_t n = 0, steps = 0, pruned = 0, choices = 0, disc = 0;
	bool first = id == 0;
	while (!S->stop)
	{
		if (first)
		{
			prefix.clear();
			prefixN.clear();
			first = false;
		}
		else if (!getWork())
			break;
		++curExecNo;
		runOne();
		++n;
		steps += execSteps;
		choices += ch.n;
		if (getenv("MCRT_EXECS")) { fprintf(stderr, "EX pruned=%d disc=%d sh=%d:", execPruned, execDiscard, S->sharedChanged); for (size_t q = 0; q < ch.n; ++q) fprintf(stderr, " %d/%d", ch[q], chN[q]); fprintf(stderr, "\n"); }
		pruned += execPruned;
		disc += execDiscard;
		if (ch.n > S->maxLen) S->maxLen = ch.n;
		if (execSteps > S->maxSteps) S->maxSteps = execSteps;
		if ((uint64_t)nFPrev > S->maxThreads) S->maxThreads = nFPrev;
		if (execViolation)
			break;
		expand();
		if (O.jobs > 1)
			donate();
		if ((n & 63) == 0)
		{
			if (monoNow() > deadline || (O.maxExecs && S->execs > O.maxExecs))
			{
				S->capped = 1;
				S->stop = 1;
			}
			__sync_fetch_and_add(&S->execs, 64);
		}
		else if ((n & 7) == 0 && monoNow() > deadline)
		{
			S->capped = 1;
			S->stop = 1;
		}
	}
	__sync_fetch_and_add(&S->execs, n & 63);
	__sync_fetch_and_add(&S->steps, steps);
	__sync_fetch_and_add(&S->pruned, pruned);
	__sync_fetch_and_add(&S->choices, choices);
	__sync_fetch_and_add(&S->discards, disc);
	_exit(0);
}

static void exploreOnce(double deadline)
{
	S->stop = 0;
	S->capped = 0;
	S->idle = 0;
	S->qn = 0;
	S->qlock = 0;
	S->sharedChanged = 0;
	memset((void*)table, 0, (tableMask + 1) * 8);
	memset(addrFrozen, 0, 8ull << ADDR_BITS);
	for (size_t i = 0; i <= ADDR_MASK; ++i)
		if (addrTab[i].key != 0 && addrNeedsPoint(addrTab[i]))
			freezeKey(addrTab[i].key);
	fflush(stdout);
	fflush(stderr);
	int pids[64];
	for (int i = 0; i < O.jobs; ++i)
	{
		pids[i] = fork();
		if (pids[i] == 0)
			worker(i, deadline);
	}
	for (int i = 0; i < O.jobs; ++i)
	{
		int st = 0;
		while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR);
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		{
			fprintf(stderr, "worker %d died: status %x\n", i, st);
			S->stop = 1;
			if (!S->found)
			{
				// An infrastructure failure, never a verdict.
				snprintf(S->msg, sizeof(S->msg), "mcrt: worker died");
				S->found = 2;
			}
		}
	}
}

static bool loadReplay(const char* path)
{
	FILE* f = fopen(path, "r");
	if (!f)
		return false;
	char line[1 << 18];
	while (fgets(line, sizeof(line), f))
	{
		if (strncmp(line, "choices:", 8) == 0)
		{
			char* p = line + 8;
			int c, n, k;
			while (sscanf(p, " %d/%d%n", &c, &n, &k) == 2)
			{
				prefix.push((uint8_t)c);
				prefixN.push((uint8_t)n);
				p += k;
			}
		}
		else if (strncmp(line, "P:", 2) == 0) O.P = atoi(line + 2);
		else if (strncmp(line, "D:", 2) == 0) O.D = atoi(line + 2);
		else if (strncmp(line, "timers:", 7) == 0) O.timers = atoi(line + 7);
		else if (strncmp(line, "spurious:", 9) == 0) O.spurious = atoi(line + 9);
		else if (strncmp(line, "noshare:", 8) == 0) O.noShare = atoi(line + 8);
		else if (strncmp(line, "reduce:", 7) == 0) O.reduce = atoi(line + 7);
		else if (strncmp(line, "addrs:", 6) == 0)
		{
			char* p = line + 6;
			unsigned long a, b;
			int k;
			while (sscanf(p, " %lx:%lx%n", &a, &b, &k) == 2)
			{
				(void)a;
				freezeKey(b);
				p += k;
			}
		}
	}
	fclose(f);
	return true;
}

static void writeReplay(const char* path, const char* scenario)
{
	FILE* f = fopen(path, "w");
	if (!f)
		return;
	fprintf(f, "# mcrt replay artefact\nscenario: %s\nmessage: %s\nP: %d\nD: %d\ntimers: %d\nspurious: %d\nnoshare: %d\nreduce: %d\nparams:", scenario, S->msg, O.P, O.D, O.timers, O.spurious, O.noShare, O.reduce);
	for (size_t i = 0; i < params.n; ++i)
		fprintf(f, " %s=%ld", params[i].name, params[i].val);
	fprintf(f, "\nchoices:");
	for (uint32_t i = 0; i < S->vlen; ++i)
		fprintf(f, " %d/%d", S->vch[i], S->vnopt[i]);
	fprintf(f, "\n");
	if (!O.noShare)
	{
		fprintf(f, "addrs:");
		for (size_t i = 0; i < (1ull << ADDR_BITS); ++i)
			if (addrFrozen[i])
				fprintf(f, " %lx:%lx", (unsigned long)i, (unsigned long)addrFrozen[i]);
		fprintf(f, "\n");
	}
	fclose(f);
}

// Runs the recorded choices in a child; returns true and fills msg if it fails the same way.
static bool replayInChild(const char* expect, bool verbose)
{
	S->found = 0;
	S->stop = 0;
	S->msg[0] = 0;
	fflush(stdout);
	fflush(stderr);
	int pid = fork();
	if (pid == 0)
	{
		wdLimit = 60;
		setupSignals();
		replaying = true;
		O.verbose = verbose;
		++curExecNo;
		runOne();
		_exit(0);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
	bool found = S->found == 1;
	(void)expect;
	return found;
}

static void usage()
{
	fprintf(stderr, "mcrun --so X.so --scenario N [--P n --D n --jobs n --time s --out f --replay-out f --replay f -v] [name=value...]\n");
	_exit(2);
}

static int hostMain(int argc, char** argv)
{
	O.P = 2; O.D = 0; O.jobs = 8; O.timeLimit = 60; O.horizon = 20000; O.fairness = 120; O.accLimit = 20000000;
	O.tableBits = 28; O.race = true; O.minP = 0;
	bool iterate = true;
	for (int i = 1; i < argc; ++i)
	{
		char* a = argv[i];
		auto val = [&]() { if (i + 1 >= argc) usage(); return argv[++i]; };
		if (!strcmp(a, "--so")) O.so = val();
		else if (!strcmp(a, "--scenario")) O.scenario = val();
		else if (!strcmp(a, "--P")) O.P = atoi(val());
		else if (!strcmp(a, "--minP")) O.minP = atoi(val());
		else if (!strcmp(a, "--D")) O.D = atoi(val());
		else if (!strcmp(a, "--jobs")) O.jobs = atoi(val());
		else if (!strcmp(a, "--time")) O.timeLimit = atof(val());
		else if (!strcmp(a, "--horizon")) O.horizon = atoll(val());
		else if (!strcmp(a, "--acc")) O.accLimit = atoll(val());
		else if (!strcmp(a, "--out")) O.out = val();
		else if (!strcmp(a, "--replay-out")) O.replayOut = val();
		else if (!strcmp(a, "--replay")) O.replay = val();
		else if (!strcmp(a, "--fairness")) O.fairness = atoll(val());
		else if (!strcmp(a, "--table")) O.tableBits = atoi(val());
		else if (!strcmp(a, "--max-execs")) O.maxExecs = atoll(val());
		else if (!strcmp(a, "--timers")) O.timers = true;
		else if (!strcmp(a, "--spurious")) O.spurious = true;
		else if (!strcmp(a, "--reduce")) O.reduce = true;
		else if (!strcmp(a, "--no-share")) O.noShare = true;
		else if (!strcmp(a, "--no-race")) O.race = false;
		else if (!strcmp(a, "--no-iterate")) iterate = false;
		else if (!strcmp(a, "--no-dedup")) O.noDedup = true;
		else if (!strcmp(a, "-v")) O.verbose = true;
		else if (strchr(a, '='))
		{
			char* e = strchr(a, '=');
			*e = 0;
			Param p = {a, atol(e + 1)};
			params.push(p);
		}
		else usage();
	}
	if (!O.so)
		usage();
	__libc_single_threaded = 0;
	auto mapAt = [](uptr a, size_t n) {
		void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (p == MAP_FAILED || (a && (uptr)p != a)) { fprintf(stderr, "mmap failed at %lx\n", (unsigned long)a); _exit(4); }
		return p;
	};
	mapAt(ARENA_BASE, ARENA_END - ARENA_BASE);
	mapAt(STACK_BASE, STACK_END - STACK_BASE);
	mapAt(TLS_BASE, TLS_END - TLS_BASE);
	for (int i = 0; i < MAXT; ++i)
		mprotect((void*)(STACK_BASE + STACK_PER * i + STACK_SIZE), 4096, PROT_NONE);
	hshadow = (uint8_t*)mapAt(0, (ARENA_END - ARENA_BASE) >> 3);
	gArena = (uint32_t*)mapAt(0, (ARENA_END - ARENA_BASE) >> 1);
	gStack = (uint32_t*)mapAt(0, (STACK_END - STACK_BASE) >> 1);
	gTls = (uint32_t*)mapAt(0, (TLS_END - TLS_BASE) >> 1);
	objs = (SyncObj*)mapAt(0, sizeof(SyncObj) << OBJ_BITS);
	S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	// The table grows between the rounds, to keep the small scenarios cheap.
	tableMask = (1ull << (O.tableBits < 22 ? O.tableBits : 22)) - 1;
	table = (volatile uint64_t*)mmap(nullptr, 8ull << O.tableBits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	addrTab = (AddrEnt*)mmap(nullptr, sizeof(AddrEnt) << ADDR_BITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	addrFrozen = (uint64_t*)mapAt(0, 8ull << ADDR_BITS);
	initArenaPos = ARENA_BASE + ARENA_PER * INIT_ARENA;
	loadSo();
	if (!O.scenario)
	{
		for (size_t i = 0; i < scns.n; ++i)
			printf("%s\n", scns[i].name);
		return 0;
	}
	for (size_t i = 0; i < scns.n; ++i)
		if (!strcmp(scns[i].name, O.scenario))
			theScn = scns[i].fn;
	if (!theScn)
	{
		fprintf(stderr, "no scenario %s\n", O.scenario);
		return 2;
	}
	if (O.replay)
	{
		bool verbose = O.verbose;
		if (!loadReplay(O.replay))
			return 2;
		bool f = replayInChild("", verbose);
		printf("%s %s\n", f ? "REPRODUCED" : "NOT-REPRODUCED", S->msg);
		return f ? 1 : 0;
	}
	double t0 = monoNow();
	double deadline = t0 + O.timeLimit;
	int maxP = O.P;
	int doneP = -1;
	uint64_t totExecs = 0, totSteps = 0, rounds = 0, lastStates = 0, lastExecs = 0, totChoices = 0;
	bool capped = false;
	int p = iterate ? O.minP : maxP;
	while (true)
	{
		O.P = p;
		S->execs = 0; S->steps = 0; S->states = 0; S->pruned = 0; S->choices = 0;
		exploreOnce(deadline);
		++rounds;
		totExecs += S->execs;
		totSteps += S->steps;
		totChoices += S->choices;
		if (S->found)
			break;
		if (S->capped)
		{
			capped = true;
			if (lastExecs == 0) { lastExecs = S->execs; lastStates = S->states; }
			break;
		}
		lastStates = S->states;
		lastExecs = S->execs;
		while (S->states > tableMask / 32 && tableMask < (1ull << O.tableBits) - 1)
			tableMask = tableMask * 2 + 1;
		S->tableFull = 0;
		if (!O.noShare && S->sharedChanged)
			continue; // repeat the same bound with the refined set of scheduling points
		doneP = p;
		if (p >= maxP)
			break;
		++p;
	}
	int rc = 0;
	char msg[4096] = "";
	if (S->found == 1)
	{
		snprintf(msg, sizeof(msg), "%s", S->msg);
		// Replay before report.
		prefix.clear(); prefixN.clear();
		uint32_t vlen = S->vlen;
		for (uint32_t i = 0; i < vlen; ++i) { prefix.push(S->vch[i]); prefixN.push(S->vnopt[i]); }
		bool ok1 = replayInChild(msg, false);
		char m1[4096]; snprintf(m1, sizeof(m1), "%s", S->msg);
		bool ok2 = replayInChild(msg, false);
		char m2[4096]; snprintf(m2, sizeof(m2), "%s", S->msg);
		if (!ok1 || !ok2 || strcmp(m1, m2) != 0)
		{
			fprintf(stderr, "mcrt: UNSTABLE violation: '%s' vs '%s' vs '%s'\n", msg, m1, m2);
			rc = 3;
		}
		else if (strncmp(msg, "mcrt:", 5) == 0)
		{
			fprintf(stderr, "%s\n", msg);
			rc = 3;
		}
		else
		{
			rc = 1;
			// The second replay left the same choices in S (vch is refreshed by the child).
			snprintf(S->msg, sizeof(S->msg), "%s", msg);
			if (O.replayOut)
				writeReplay(O.replayOut, O.scenario);
			if (O.verbose)
			{
				replayInChild(msg, true);
			}
		}
	}
	else if (S->found == 2)
		rc = 3;
	FILE* o = O.out ? fopen(O.out, "w") : stdout;
	fprintf(o, "{\"scenario\": \"%s\", \"rc\": %d, \"bound_P\": %d, \"bound_D\": %d, \"completed_P\": %d, \"capped\": %s, \"rounds\": %lu, "
		"\"executions\": %lu, \"executions_last_bound\": %lu, \"transitions\": %lu, \"choice_points\": %lu, \"states\": %lu, \"max_choices\": %lu, \"max_steps\": %lu, \"threads\": %lu, "
		"\"table_full\": %s, \"distinct_outcomes\": %d, \"wall\": %.2f, \"message\": \"",
		O.scenario, rc, maxP, O.D, doneP, capped ? "true" : "false", (unsigned long)rounds, (unsigned long)totExecs, (unsigned long)lastExecs,
		(unsigned long)totSteps, (unsigned long)totChoices, (unsigned long)lastStates, (unsigned long)S->maxLen, (unsigned long)S->maxSteps, (unsigned long)S->maxThreads,
		S->tableFull ? "true" : "false", S->nOut, monoNow() - t0);
	for (char* q = msg; *q; ++q)
		if (*q == '"' || *q == '\\') fprintf(o, "\\%c", *q);
		else if ((unsigned char)*q >= 32) fputc(*q, o);
	fprintf(o, "\", \"known\": [");
	for (int i = 0; i < S->nKnown; ++i)
		fprintf(o, "%s\"%s\"", i ? ", " : "", S->known[i]);
	fprintf(o, "], \"outcomes\": [");
	for (int i = 0; i < S->nOut && i < 40; ++i)
	{
		fprintf(o, "%s[\"", i ? ", " : "");
		for (char* q = S->outStr[i]; *q; ++q)
			if (*q == '"' || *q == '\\') fprintf(o, "\\%c", *q);
			else if ((unsigned char)*q >= 32 && (unsigned char)*q < 127) fputc(*q, o);
		fprintf(o, "\", %lu]", (unsigned long)S->outCnt[i]);
	}
	fprintf(o, "]}\n");
	if (O.out)
		fclose(o);
	return rc;
}

} // namespace rt

using namespace rt;

int main(int argc, char** argv)
{
	// Deterministic addresses between runs.
	if (!getenv("MCRT_NOASLR"))
	{
		setenv("MCRT_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	return hostMain(argc, argv);
}

///////////////////////////////////////////////////////////////////////////////////////
// Harness API

#define PC __builtin_return_address(0)

extern "C" {

int mc_choose(int n) { return choose(n); }
int mc_choose_dev(int n) { return chooseDev(n); }

void mc_fail(const char* fmt, ...)
{
	char buf[3000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	rt::fail("%s", buf);
}

void mc_outcome(const char* fmt, ...)
{
	char buf[96];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	uint64_t h = 1;
	for (char* p = buf; *p; ++p) h = mix(h, *p);
	lock(&S->outLock);
	int i;
	for (i = 0; i < S->nOut; ++i)
		if (S->outHash[i] == h) break;
	if (i == S->nOut && i < MAXOUT)
	{
		S->outHash[i] = h;
		memcpy(S->outStr[i], buf, sizeof(buf));
		++S->nOut;
	}
	if (i < MAXOUT)
		++S->outCnt[i];
	unlock(&S->outLock);
	if (logging()) logf("outcome: %s", buf);
}

void mc_known(const char* key)
{
	lock(&S->outLock);
	int i;
	for (i = 0; i < S->nKnown; ++i)
		if (!strcmp(S->known[i], key)) break;
	if (i == S->nKnown && i < 16)
		snprintf(S->known[S->nKnown++], 96, "%s", key);
	unlock(&S->outLock);
}

void mc_discard(void)
{
	execDiscard = true;
	execEnded = true;
	toHost();
	__builtin_unreachable();
}

void mc_state(uint64_t hash, int remaining)
{
	if (replaying || ch.n < prefix.n)
		return;
	int used = 15 - (remaining > 15 ? 15 : remaining);
	if (visitedCheck(mix(hash, 0x57A7E + usedD), used))
	{
		execPruned = true;
		execEnded = true;
		toHost();
	}
}

int mc_spawn(mc_fn fn, void* arg, const char* name)
{
	Fiber* f = spawn(name);
	f->fn = fn;
	f->arg = arg;
	point(0);
	return f->id;
}

void mc_join(int tid) { joinFiber(tid); }
int mc_tid(void) { return cur ? cur->id : -1; }

int mc_nthreads_alive(void)
{
	int n = 0;
	for (int i = 0; i < nF; ++i)
		n += F[i].state != F_DONE;
	return n;
}

void mc_point(void) { point(0); }

void mc_wait_until(bool (*pred)(void*), void* arg)
{
	point(0);
	blockUntil(pred, arg, UINT64_MAX);
	cur->hist = mix(cur->hist, 0x3A17);
}

void mc_serial_begin(void) { ++serialDepth; }
void mc_serial_end(void) { --serialDepth; wasBranching = true; }

static bool settledPred(void* a)
{
	for (int k = 0; k < nF; ++k)
		if (&F[k] != (Fiber*)a && fiberEnabled(&F[k]))
			return false;
	return true;
}
void mc_settle(void)
{
	blockUntil(settledPred, cur, UINT64_MAX);
	cur->hist = mix(cur->hist, 0x5E77);
}

uint64_t mc_now_ns(void) { return vnow; }
uint64_t mc_last_tick_ns(void) { return lastTick; }
void mc_set_now_ns(uint64_t ns) { vnow = ns; }
uint64_t mc_live_blocks(void) { return liveBlocks; }
uint64_t mc_live_bytes(void) { return liveBytes; }
uint64_t mc_alloc_bytes_total(void) { return allocTotal; }
void mc_dump_live(void)
{
	if (!logging()) return;
	for (int i = 0; i <= MAXT; ++i)
	{
		uptr b = ARENA_BASE + ARENA_PER * i;
		uptr e = i == INIT_ARENA ? initArenaPos : (i < nF ? F[i].arenaPos : b);
		for (uptr p = b; p + sizeof(BlockHdr) < e; p += 16)
		{
			BlockHdr* h = (BlockHdr*)p;
			if (h->magic == 0xA110CA7EDull)
				logf("live block %p size %lu", (void*)(p + 16), (unsigned long)h->size);
		}
	}
}
long mc_param(const char* name, long def) { return param(name, def); }
void mc_atomic_begin(void) { ++cur->atomicDepth; }
void mc_atomic_end(void) { --cur->atomicDepth; }
void mc_ignore_begin(void) { if (cur) ++cur->ignoreDepth; }
void mc_ignore_end(void) { if (cur) --cur->ignoreDepth; }
void mc_log(const char* fmt, ...)
{
	if (!logging()) return;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	logf("%s", buf);
}
void mc_hb_release(void* addr) { effWrite((uptr)addr ^ 1, true, true); }
void mc_hb_acquire(void* addr) { effRead((uptr)addr ^ 1, true); }
uint64_t mc_stamp(void) { uint64_t r = ((uint64_t)cur->id << 32) | cur->vc.c[cur->id]; tick(); return r; }
bool mc_ordered(uint64_t st) { return cur->vc.c[st >> 32] >= (uint32_t)st; }
void mc_register_scenario(const char* name, mc_scenario_fn fn) { Scn s = {name, fn}; scns.push(s); }

///////////////////////////////////////////////////////////////////////////////////////
// tsan instrumentation ABI

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* a) { accFlags((uptr)a, N, 0, PC); } \
void __tsan_write##N(void* a) { accFlags((uptr)a, N, CW, PC); } \
void __tsan_unaligned_read##N(void* a) { accFlags((uptr)a, N, 0, PC); } \
void __tsan_unaligned_write##N(void* a) { accFlags((uptr)a, N, CW, PC); } \
void __tsan_read_write##N(void* a) { accFlags((uptr)a, N, CW, PC); } \
void __tsan_unaligned_read_write##N(void* a) { accFlags((uptr)a, N, CW, PC); } \
void __tsan_volatile_read##N(void* a) { accFlags((uptr)a, N, 0, PC); } \
void __tsan_volatile_write##N(void* a) { accFlags((uptr)a, N, CW, PC); } \
void __tsan_unaligned_volatile_read##N(void* a) { accFlags((uptr)a, N, 0, PC); } \
void __tsan_unaligned_volatile_write##N(void* a) { accFlags((uptr)a, N, CW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { accRange((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { accRange((uptr)a, n, true, PC); }
void __tsan_vptr_read(void** a) { accFlags((uptr)a, 8, 0, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) accFlags((uptr)a, 8, CW, PC); else accFlags((uptr)a, 8, 0, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	accRange((uptr)s, n, false, PC);
	accRange((uptr)d, n, true, PC);
	if (cur && n != 0 && d != s && (uptr)d < (uptr)s + n && (uptr)s < (uptr)d + n)
		rt::fail("memcpy with overlapping ranges");
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	accRange((uptr)s, n, false, PC);
	accRange((uptr)d, n, true, PC);
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
	accRange((uptr)d, n, true, PC);
	return memset(d, c, n);
}

static inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

#define ATOMICS(BITS, T) \
T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { \
	if (!cur) return *a; \
	point((uptr)a, false); accFlags((uptr)a, sizeof(T), CA, PC); effRead((uptr)a, isAcq(mo)); return *a; } \
void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { \
	if (!cur) { *a = v; return; } \
	point((uptr)a); accFlags((uptr)a, sizeof(T), CA | CW, PC); effWrite((uptr)a, isRel(mo), false); *a = v; } \
static T rmw##BITS(volatile T* a, T v, int mo, int op, void* pc) { \
	T old; \
	if (cur) { point((uptr)a); accFlags((uptr)a, sizeof(T), CA | CW, pc); effRead((uptr)a, isAcq(mo)); effWrite((uptr)a, isRel(mo), true); } \
	old = *a; \
	switch (op) { case 0: *a = v; break; case 1: *a = old + v; break; case 2: *a = old - v; break; \
	case 3: *a = old & v; break; case 4: *a = old | v; break; case 5: *a = old ^ v; break; case 6: *a = ~(old & v); break; } \
	return old; } \
T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 0, PC); } \
T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 1, PC); } \
T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 2, PC); } \
T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 3, PC); } \
T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 4, PC); } \
T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 5, PC); } \
T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { return rmw##BITS(a, v, mo, 6, PC); } \
T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
	if (!cur) { T o = *a; if (o == c) *a = v; return o; } \
	point((uptr)a); \
	T old = *a; \
	if (old == c) { accFlags((uptr)a, sizeof(T), CA | CW, PC); effRead((uptr)a, isAcq(mo)); effWrite((uptr)a, isRel(mo), true); *a = v; } \
	else { accFlags((uptr)a, sizeof(T), CA, PC); effRead((uptr)a, isAcq(fmo)); } \
	return old; } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
	T exp = *c; T old = __tsan_atomic##BITS##_compare_exchange_val(a, exp, v, mo, fmo); \
	if (old == exp) return 1; *c = old; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
	return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, mo, fmo); }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

static char fenceObj;
void __tsan_atomic_thread_fence(int mo)
{
	if (!cur) return;
	if (mo == __ATOMIC_SEQ_CST)
	{
		point((uptr)&fenceObj);
		effRead((uptr)&fenceObj, true);
		effWrite((uptr)&fenceObj, true, true);
	}
	if (isAcq(mo)) cur->vc.join(cur->fenceAcq);
	if (isRel(mo)) { cur->fenceRel = cur->vc; cur->hasFenceRel = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}

///////////////////////////////////////////////////////////////////////////////////////
// TLS

struct EmuCtl { size_t size; size_t align; void* obj; void* init; };

void* __emutls_get_address(EmuCtl* c)
{
	static char hostTls[1 << 16];
	static Vec<TlsEnt> hostEnts;
	static size_t hostPos;
	Vec<TlsEnt>& ents = cur ? cur->tls : hostEnts;
	for (size_t i = 0; i < ents.n; ++i)
		if (ents[i].ctl == c)
			return ents[i].mem;
	size_t& pos = cur ? cur->tlsPos : hostPos;
	uptr base = cur ? TLS_BASE + TLS_PER * cur->id : (uptr)hostTls;
	size_t al = c->align < 16 ? 16 : c->align;
	pos = (pos + al - 1) & ~(al - 1);
	uptr p = base + pos;
	pos += c->size;
	if (c->init) memcpy((void*)p, c->init, c->size);
	else memset((void*)p, 0, c->size);
	TlsEnt e = {c, (void*)p};
	ents.push(e);
	return (void*)p;
}

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*)
{
	if (!cur) return 0;
	DtorEnt e = {fn, obj};
	cur->dtors.push(e);
	return 0;
}

int __cxa_guard_acquire(uint64_t* g)
{
	uint8_t* b = (uint8_t*)g;
	if (!cur)
	{
		if (*b) return 0;
		b[1] = 1;
		return 1;
	}
	point((uptr)g, *b == 0);
	effRead((uptr)g, true);
	if (*b) return 0;
	struct L { static bool free(void* a) { return ((uint8_t*)a)[1] == 0; } };
	while (b[1])
	{
		blockUntil(L::free, b, UINT64_MAX);
		effRead((uptr)g, true);
		if (*b) return 0;
	}
	b[1] = 1;
	effWrite((uptr)g, true, true);
	return 1;
}
void __cxa_guard_release(uint64_t* g)
{
	uint8_t* b = (uint8_t*)g;
	if (cur) { point((uptr)g); effWrite((uptr)g, true, true); }
	b[0] = 1;
	b[1] = 0;
}
void __cxa_guard_abort(uint64_t* g)
{
	((uint8_t*)g)[1] = 0;
}

///////////////////////////////////////////////////////////////////////////////////////
// pthread

static bool predMutexFree(void* a) { return getObj((uptr)a)->owner < 0; }

static void heldAdd(uptr a)
{
	if (cur->nheld < 8)
		cur->held[cur->nheld++] = (uint32_t)mix(a, 31) | 1;
}
static void heldDel(uptr a)
{
	uint32_t id = (uint32_t)mix(a, 31) | 1;
	for (int i = cur->nheld - 1; i >= 0; --i)
		if (cur->held[i] == id)
		{
			for (; i + 1 < cur->nheld; ++i)
				cur->held[i] = cur->held[i + 1];
			--cur->nheld;
			return;
		}
}

static void mutexLock(uptr a)
{
	point(a);
	accFlags(a, 1, CA, PC);
	SyncObj* o = getObj(a);
	if (o->owner == cur->id)
		rt::fail("deadlock: non-recursive mutex is locked twice by the same thread");
	while (getObj(a)->owner >= 0)
		blockUntil(predMutexFree, (void*)a, UINT64_MAX);
	accFlags(a, 1, CA, PC);
	o = getObj(a);
	effRead(a, true);
	o->owner = cur->id;
	o->ver = mix(cur->hist, a);
	heldAdd(a);
}

static void mutexUnlock(uptr a)
{
	SyncObj* o = getObj(a);
	accFlags(a, 1, CA, PC);
	if (o->owner != cur->id)
		rt::fail("mutex is unlocked by a thread which doesn't own it");
	o->owner = -1;
	heldDel(a);
	o->clk.join(cur->vc);
	cur->hist = mix(cur->hist, o->ver ^ 0x33);
	o->ver = mix(cur->hist, a);
	tick();
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!cur) return 0;
	mutexLock((uptr)m);
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!cur) return 0;
	uptr a = (uptr)m;
	point(a);
	accFlags(a, 1, CA, PC);
	SyncObj* o = getObj(a);
	if (o->owner >= 0)
	{
		cur->hist = mix(cur->hist, o->ver ^ 0x44);
		return EBUSY;
	}
	effRead(a, true);
	o->owner = cur->id;
	o->ver = mix(cur->hist, a);
	heldAdd(a);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!cur) return 0;
	// With the reduction no switch is needed here: a release commutes with everything others can do
	// while the mutex is locked.
	if (!O.reduce)
		point((uptr)m);
	mutexUnlock((uptr)m);
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (!cur) return 0;
	if (getObj((uptr)m)->owner >= 0) rt::fail("destruction of a locked mutex");
	return 0;
}

struct CondWait { uptr cond; bool signaled; int tid; };
static CondWait cw[MAXT];

static bool predSignaled(void* a) { return ((CondWait*)a)->signaled; }

static Vec<int> condQ; // FIFO of waiting tids (all conds)
static uint64_t condGen;

static int condWait(uptr c, uptr m, uint64_t deadline)
{
	if (condGen != objGen) { condGen = objGen; condQ.clear(); }
	point(c);
	accFlags(c, 1, CA, PC);
	// Enqueue + unlock atomically.
	CondWait& w = cw[cur->id];
	w.cond = c;
	w.signaled = false;
	w.tid = cur->id;
	effRead(c, false);
	effWrite(c, false, true);
	condQ.push(cur->id);
	mutexUnlock(m);
	cur->spuriousOk = true;
	bool ok = blockUntil(predSignaled, &w, deadline);
	cur->spuriousOk = false;
	bool sig = w.signaled;
	cur->spurious = false;
	if (!sig)
		for (size_t i = 0; i < condQ.n; ++i)
			if (condQ[i] == cur->id) { condQ.removeAt(i); break; }
	cur->hist = mix(cur->hist, sig ? 0x71 : ok ? 0x72 : 0x73);
	// Time is observable by a timeout.
	if (!ok) cur->hist = mix(cur->hist, vnow);
	effRead(c, false);
	mutexLock(m);
	return ok ? 0 : ETIMEDOUT;
}

static uint64_t tsToNs(const struct timespec* ts)
{
	if (ts->tv_sec < 0) return 0;
	if ((uint64_t)ts->tv_sec > UINT64_MAX / 1000000000ull - 1) return UINT64_MAX - 1;
	return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!cur) return 0;
	return condWait((uptr)c, (uptr)m, UINT64_MAX);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	return condWait((uptr)c, (uptr)m, tsToNs(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
	return condWait((uptr)c, (uptr)m, tsToNs(ts));
}
static int condNotify(uptr c, bool all)
{
	if (!cur) return 0;
	if (condGen != objGen) { condGen = objGen; condQ.clear(); }
	point(c);
	accFlags(c, 1, CA, PC);
	effRead(c, false);
	effWrite(c, false, true);
	int idx[MAXT];
	int n = 0;
	for (size_t i = 0; i < condQ.n; ++i)
		if (cw[condQ[i]].cond == c && !cw[condQ[i]].signaled)
			idx[n++] = condQ[i];
	if (n == 0) return 0;
	if (all)
	{
		for (int i = 0; i < n; ++i) cw[idx[i]].signaled = true;
	}
	else
	{
		// Any waiter may be the one.
		int k = n > 1 ? choose(n) : 0;
		cw[idx[k]].signaled = true;
	}
	size_t j = 0;
	for (size_t i = 0; i < condQ.n; ++i)
		if (!cw[condQ[i]].signaled) condQ[j++] = condQ[i];
	condQ.n = j;
	return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return condNotify((uptr)c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return condNotify((uptr)c, true); }
int pthread_cond_destroy(pthread_cond_t* c)
{
	if (!cur) return 0;
	if (condGen == objGen)
		for (size_t i = 0; i < condQ.n; ++i)
			if (cw[condQ[i]].cond == (uptr)c)
				rt::fail("destruction of a condition variable with a waiter");
	return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
	if (!cur) { fprintf(stderr, "mcrt: thread at static init\n"); abort(); }
	Fiber* f = spawn("thread");
	f->pfn = fn;
	f->arg = arg;
	*t = (pthread_t)(f->id + 1);
	point(0);
	return 0;
}
int pthread_join(pthread_t t, void** r)
{
	joinFiber((int)t - 1);
	if (r) *r = nullptr;
	return 0;
}
int pthread_detach(pthread_t) { return 0; }
static char* setName(Fiber* f, const char* n)
{
	static char names[MAXT][20];
	snprintf(names[f->id], 20, "%s", n);
	f->name = names[f->id];
	return names[f->id];
}
int pthread_setname_np(pthread_t t, const char* n) { if (cur) setName(&F[(int)t - 1], n); return 0; }
pthread_t pthread_self(void) { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)1; }

int sched_yield(void)
{
	if (!cur) return 0;
	cur->yielding = true;
	cur->hist = mix(cur->hist, 0x1E1D);
	point(0);
	return 0;
}

static void sleepNs(uint64_t ns)
{
	if (ns == 0)
	{
		cur->yielding = true;
		point(0);
		return;
	}
	uint64_t dl = vnow + ns < vnow ? UINT64_MAX - 1 : vnow + ns;
	blockUntil(nullptr, nullptr, dl);
	cur->hist = mix(cur->hist, vnow);
}
int usleep(useconds_t us) { if (cur) sleepNs((uint64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { if (cur) sleepNs((uint64_t)s * 1000000000ull); return 0; }
int nanosleep(const struct timespec* a, struct timespec*) { if (cur) sleepNs(tsToNs(a)); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*)
{
	if (!cur) return 0;
	if (flags & TIMER_ABSTIME) { uint64_t t = tsToNs(a); sleepNs(t > vnow ? t - vnow : 0); }
	else sleepNs(tsToNs(a));
	return 0;
}

int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (!cur && !inInit)
		return (int)syscall(SYS_clock_gettime, id, ts);
	if (cur)
	{
		// The time may go on while the threads are working.
		static long tick = -1;
		if (tick < 0)
			tick = param("tick", 0);
		if (tick > 0 && serialDepth == 0 && cur->atomicDepth == 0 && chooseDev(2))
		{
			vnow += (uint64_t)tick * 1000000;
			lastTick = vnow;
			for (int k = 0; k < nF; ++k)
				if (F[k].state == F_BLOCKED && F[k].deadline <= vnow)
					F[k].timedOut = true;
		}
		cur->hist = mix(cur->hist, vnow ^ 0x99);
	}
	ts->tv_sec = vnow / 1000000000ull;
	ts->tv_nsec = vnow % 1000000000ull;
	return 0;
}

long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (cur)
	{
		if (n == SYS_gettid)
			return 100 + cur->id;
		rt::fail("mcrt: unmodelled raw syscall %ld", n);
	}
	register long r10 asm("r10") = d;
	register long r8 asm("r8") = e;
	register long r9 asm("r9") = f;
	long ret;
	asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
	return ret;
}
pid_t gettid(void) { return cur ? 100 + cur->id : (pid_t)syscall(SYS_gettid); }

void abort(void)
{
	if (cur)
		rt::fail("abort() called");
	raise(SIGABRT);
	_exit(134);
}

// The repository's assertion handlers are replaced so as the message is a part of the verdict.
void _ZN2mg3box7AssertSEPKcS2_i(const char* e, const char* f, int line)
{
	const char* b = strrchr(f, '/');
	if (cur) rt::fail("assertion failed: (%s) %s:%d", e, b ? b + 1 : f, line);
	fprintf(stderr, "assertion at init: (%s) %s:%d\n", e, f, line);
	_exit(3);
}

} // extern C

namespace std { void terminate() noexcept { if (rt::cur) rt::fail("std::terminate() called"); _exit(3); } }

///////////////////////////////////////////////////////////////////////////////////////
// Heap entry points

static void* doNew(size_t n, size_t al)
{
	if (cur || inInit)
		return arenaAlloc(n, al);
	return malloc(n);
}
static void doDel(void* p, void* pc)
{
	if (p == nullptr) return;
	if (inArena((uptr)p)) arenaFree(p, pc);
	else if (cur) rt::fail("delete of a non-heap pointer %p", p);
	else free(p);
}
void* operator new(size_t n) { return doNew(n, 16); }
void* operator new[](size_t n) { return doNew(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return doNew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return doNew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return doNew(n, (size_t)a); }
void operator delete(void* p) noexcept { doDel(p, PC); }
void operator delete[](void* p) noexcept { doDel(p, PC); }
void operator delete(void* p, size_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, size_t) noexcept { doDel(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { doDel(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { doDel(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doDel(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doDel(p, PC); }
