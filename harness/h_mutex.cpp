// Mutex, condition variable, interruptible mutex.
#include "mc.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/InterruptibleMutex.h"
#include "mg/box/Mutex.h"
#include "mg/box/Signal.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"

#define ORACLE __attribute__((section("mcoracle")))

namespace {

ORACLE int gOwner;      // who is in the critical section
ORACLE int gDepth;
ORACLE int gEntered;
ORACLE int gTryFails;

struct Ctx
{
	mg::box::Mutex mtx;
	int plain; // protected by the mutex only
};

void enter(int depth)
{
	if (depth == 1)
	{
		MC_CHECKF(gOwner == 0, "two threads own the mutex at once");
		gOwner = mc_tid() + 1;
	}
	mc_point();
	MC_CHECKF(gOwner == mc_tid() + 1, "two threads own the mutex at once");
	++gEntered;
}
void leave(int depth)
{
	MC_CHECKF(gOwner == mc_tid() + 1, "two threads own the mutex at once");
	if (depth == 1)
		gOwner = 0;
}

// A script: L lock, T trylock(1 level if ok), U unlock
void runScript(Ctx* c, const char* s)
{
	int depth = 0;
	for (; *s; ++s)
	{
		if (*s == 'L')
		{
			c->mtx.Lock();
			enter(++depth);
			c->plain++;
		}
		else if (*s == 'T')
		{
			bool ok = c->mtx.TryLock();
			if (!ok)
			{
				MC_CHECKF(depth == 0, "recursive try-lock by the owner failed");
				++gTryFails;
				c->mtx.Lock();
			}
			enter(++depth);
			c->plain++;
		}
		else
		{
			c->plain--;
			leave(depth--);
			c->mtx.Unlock();
		}
		MC_CHECKF(c->mtx.IsOwnedByThisThread() == (depth > 0), "wrong ownership report");
	}
}
const char* theScripts[] = {"LU", "TU", "LTUU", "TLUU", "LULU"};
struct Arg { Ctx* c; const char* s; };
void scriptThread(void* a) { runScript(((Arg*)a)->c, ((Arg*)a)->s); }

}

MC_SCENARIO(mutex_exclusion)
{
	Ctx* c = new Ctx();
	c->plain = 0;
	gOwner = gEntered = gTryFails = 0;
	Arg a1 = {c, theScripts[mc_choose(5)]};
	Arg a2 = {c, theScripts[mc_choose(5)]};
	int t1 = mc_spawn(scriptThread, &a1, "t1");
	int t2 = mc_spawn(scriptThread, &a2, "t2");
	if (mc_param("main", 0))
		runScript(c, "TU");
	mc_join(t1);
	mc_join(t2);
	MC_CHECK(c->plain == 0);
	mc_outcome("tryfails=%d", gTryFails);
	delete c;
}

namespace {
// Bounded buffer: two condition variables, one lock.
struct Buf
{
	mg::box::Mutex mtx;
	mg::box::ConditionVariable notEmpty, notFull;
	int count = 0, cap = 1, total = 0, bcast = 0, timed = 0;
};
void producer(void* a)
{
	Buf* b = (Buf*)a;
	b->mtx.Lock();
	while (b->count == b->cap)
	{
		if (b->timed) b->notFull.TimedWait(b->mtx, mg::box::TimeDuration(100));
		else b->notFull.Wait(b->mtx);
		MC_CHECKF(b->mtx.IsOwnedByThisThread(), "the mutex isn't owned after the wait");
	}
	++b->count;
	if (b->bcast) b->notEmpty.Broadcast();
	else b->notEmpty.Signal();
	b->mtx.Unlock();
}
void consumer(void* a)
{
	Buf* b = (Buf*)a;
	b->mtx.Lock();
	while (b->count == 0)
	{
		if (b->timed) b->notEmpty.TimedWait(b->mtx, mg::box::TimeDuration(100));
		else b->notEmpty.Wait(b->mtx);
		MC_CHECKF(b->mtx.IsOwnedByThisThread(), "the mutex isn't owned after the wait");
	}
	MC_CHECK(b->count > 0 && b->count <= b->cap);
	--b->count;
	++b->total;
	if (b->bcast) b->notFull.Broadcast();
	else b->notFull.Signal();
	b->mtx.Unlock();
}
}
MC_SCENARIO(cond_bounded_buffer)
{
	Buf* b = new Buf();
	b->bcast = mc_choose(2);
	b->timed = mc_choose(2);
	int n = (int)mc_param("pairs", 1);
	int t[8], k = 0;
	for (int i = 0; i < n; ++i)
	{
		t[k++] = mc_spawn(consumer, b, "consumer");
		t[k++] = mc_spawn(producer, b, "producer");
	}
	if (mc_param("main", 1))
	{
		t[k++] = mc_spawn(consumer, b, "consumer");
		producer(b);
	}
	for (int i = 0; i < k; ++i)
		mc_join(t[i]);
	MC_CHECK(b->count == 0);
	mc_outcome("total=%d", b->total);
	delete b;
}

// A broadcast wakes up everybody who was waiting.
namespace {
struct Gate { mg::box::Mutex mtx; mg::box::ConditionVariable cond; bool open = false; int passed = 0; int timed = 0; };
void gateWait(void* a)
{
	Gate* g = (Gate*)a;
	mg::box::MutexLock lock(g->mtx);
	while (!g->open)
		g->cond.Wait(g->mtx);
	++g->passed;
}
}
MC_SCENARIO(cond_broadcast)
{
	Gate* g = new Gate();
	int t1 = mc_spawn(gateWait, g, "w1");
	int t2 = mc_spawn(gateWait, g, "w2");
	bool under = mc_choose(2);
	g->mtx.Lock();
	g->open = true;
	if (under) g->cond.Broadcast();
	g->mtx.Unlock();
	if (!under) g->cond.Broadcast();
	mc_join(t1);
	mc_join(t2);
	MC_CHECK(g->passed == 2);
	delete g;
}

// Timed wait without anybody to signal: not earlier than the limit, and for any limit given as a
// duration or as a time point.
MC_SCENARIO(cond_timed_limits)
{
	static const uint64_t lims[] = {0, 1, 2, 999, 1000, 1001, 100000, UINT32_MAX, UINT64_MAX / 1000000 - 1,
		(uint64_t)INT64_MAX / 1000000 + 5, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX - 1, UINT64_MAX};
	int k = mc_choose(14);
	bool point = mc_choose(2);
	bool sig = mc_choose(2);
	uint64_t lim = lims[k];
	if (!sig && lim > UINT32_MAX)
		mc_discard();
	uint64_t start = mg::box::GetMilliseconds();
	uint64_t end = UINT64_MAX - start < lim ? UINT64_MAX : start + lim;
	mg::box::TimeLimit tl;
	if (point) tl = mg::box::TimePoint(end);
	else tl = mg::box::TimeDuration(lim);
	Gate* g = new Gate();
	struct S { static void fn(void* a) { Gate* g = (Gate*)a; mg::box::Sleep(50);
		g->mtx.Lock(); g->cond.Signal(); g->mtx.Unlock(); } };
	int t = -1;
	if (sig)
		t = mc_spawn(S::fn, g, "signaler");
	g->mtx.Lock();
	bool ok = g->cond.TimedWait(g->mtx, tl);
	MC_CHECK(g->mtx.IsOwnedByThisThread());
	g->mtx.Unlock();
	uint64_t now = mg::box::GetMilliseconds();
	if (ok)
		MC_CHECKF(sig && now == start + 50, "timed wait is woken up by nobody");
	else
		MC_CHECKF(now >= end && now <= end + 1, "timed wait with limit %llu returned at +%llu",
			(unsigned long long)lim, (unsigned long long)(now - start));
	if (t >= 0)
		mc_join(t);
	mc_outcome("lim%d %d", k, ok);
	delete g;
}

///////////////////////////////////////////////////////////////////////////////////////
// Interruptible mutex

namespace {
struct IM
{
	mg::box::InterruptibleMutex mtx;
	mg::box::Signal sig;
	int plain = 0;
	mg::box::AtomicBool stop{false};
	int rounds = 1;
};
ORACLE int gIn;
ORACLE int gWake;
ORACLE int gWorkerRuns;
void imEnter() { MC_CHECKF(gIn == 0, "two owners of the interruptible mutex"); gIn = 1; mc_point(); }
void imLeave() { MC_CHECKF(gIn == 1, "two owners of the interruptible mutex"); gIn = 0; }

// A worker sleeps on the signal while holding the mutex.
void imWorker(void* a)
{
	IM* m = (IM*)a;
	while (!m->stop.LoadAcquire())
	{
		if (m->mtx.TryLock())
		{
			imEnter();
			++m->plain;
			++gWorkerRuns;
			m->sig.ReceiveBlocking();
			++m->plain;
			imLeave();
			m->mtx.Unlock();
		}
		else
			mg::box::Sleep(0);
	}
}
void imOther(void* a)
{
	IM* m = (IM*)a;
	for (int i = 0; i < m->rounds; ++i)
	{
		m->mtx.Lock([m]() { ++gWake; m->sig.Send(); });
		imEnter();
		++m->plain;
		imLeave();
		m->mtx.Unlock();
	}
}
}
MC_SCENARIO(imutex_takeover)
{
	IM* m = new IM();
	gIn = gWake = gWorkerRuns = 0;
	int others = (int)mc_param("others", 2);
	int t[4];
	int w = mc_spawn(imWorker, m, "worker");
	int w2 = mc_param("workers", 1) > 1 ? mc_spawn(imWorker, m, "worker2") : -1;
	for (int i = 0; i < others; ++i)
		t[i] = mc_spawn(imOther, m, "other");
	for (int i = 0; i < others; ++i)
		mc_join(t[i]);
	m->stop.StoreRelease(true);
	m->sig.Send();
	mc_join(w);
	if (w2 >= 0)
	{
		m->sig.Send();
		mc_join(w2);
	}
	mc_outcome("wakes=%d worker=%d", gWake, gWorkerRuns);
	delete m;
}

// Only forced lockers and short try-lockers, several rounds each. TryLock never barges in front of the
// waiters: ownership is handed over.
MC_SCENARIO(imutex_handover)
{
	IM* m = new IM();
	m->rounds = (int)mc_param("rounds", 1);
	gIn = gWake = gWorkerRuns = 0;
	int n = (int)mc_param("others", 3);
	int t[4];
	for (int i = 0; i < n; ++i)
		t[i] = mc_spawn(imOther, m, "other");
	bool ok = m->mtx.TryLock();
	if (ok)
	{
		imEnter();
		++m->plain;
		imLeave();
		m->mtx.Unlock();
	}
	for (int i = 0; i < n; ++i)
		mc_join(t[i]);
	MC_CHECK(m->mtx.TryLock());
	MC_CHECK(m->plain == n * m->rounds + ok);
	m->mtx.Unlock();
	mc_outcome("wakes=%d try=%d", gWake, ok);
	delete m;
}

// The contention statistics count exactly the failed attempts since the last clear.
MC_SCENARIO(mutex_stat)
{
	mg::box::Mutex* m = new mg::box::Mutex();
	uint64_t expected = mg::box::MutexStatContentionCount();
	for (int i = 0; i < 4; ++i)
	{
		switch (mc_choose(4))
		{
		case 0: mg::box::MutexStatClear(); expected = 0; break;
		case 1: m->Lock(); MC_CHECK(m->TryLock()); m->Unlock(); m->Unlock(); break;
		case 2: MC_CHECK(m->TryLock()); m->Unlock(); break;
		default:
		{
			m->Lock();
			int t = mc_spawn([](void* p) { MC_CHECK(!((mg::box::Mutex*)p)->TryLock()); }, m, "other");
			mc_join(t);
			m->Unlock();
			++expected;
			break;
		}
		}
		MC_CHECKF(mg::box::MutexStatContentionCount() == expected, "wrong contention count");
	}
	delete m;
}
