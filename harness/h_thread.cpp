// Thread lifecycle and coroutine stacks.
#include "mc.h"
#include "mg/box/Coro.h"
#include "mg/box/Thread.h"
#include "mg/box/ThreadFunc.h"
#include <string.h>
#include <utility>

#define ORACLE __attribute__((section("mcoracle")))

namespace {

ORACLE int gRuns;
ORACLE int gFinished;
ORACLE int gDeleted;

struct Worker : public mg::box::Thread
{
	Worker(int m) : Thread("worker_with_a_very_long_name"), mode(m) {}
	~Worker() override { MC_CHECKF(gFinished == gRuns, "the thread object is deleted before its body returned"); ++gDeleted; }
	void Run() override
	{
		++gRuns;
		MC_CHECKF(IsRunning(), "a thread inside its body is not running");
		tid = mg::box::GetCurrentThreadId();
		if (mode == 1)
		{
			while (!StopRequested())
				mg::box::Sleep(1);
			MC_CHECKF(asked, "stop is requested before it is visible why");
		}
		result = 77;
		mc_point();
		++gFinished;
	}
	int mode;
	bool asked = false;
	int result = 0;
	mg::box::ThreadId tid = 0;
};
void stopper(void* a) { Worker* w = (Worker*)a; w->Stop(); }
void blockingStopper(void* a)
{
	Worker* w = (Worker*)a;
	w->BlockingStop();
	MC_CHECKF(gFinished == 1, "blocking stop returned before the thread finished");
	MC_CHECKF(w->result == 77, "the results of the thread are not visible after it is stopped");
	MC_CHECK(!w->IsRunning());
}

}

MC_SCENARIO(thread_lifecycle)
{
	gRuns = gFinished = gDeleted = 0;
	int how = mc_choose(6);
	int mode = mc_choose(2);
	Worker* w = new Worker(mode);
	MC_CHECK(!w->IsRunning() && !w->StopRequested());
	w->asked = true;
	bool start = how != 5;
	if (start)
	{
		w->Start();
		MC_CHECK(!w->StopRequested());
	}
	switch (how)
	{
	case 0:
		blockingStopper(w);
		w->BlockingStop();
		MC_CHECKF(w->tid != mg::box::GetCurrentThreadId(), "two threads have the same id");
		w->StopAndDelete();
		break;
	case 1:
		w->StopAndDelete();
		MC_CHECK(gFinished == 1);
		break;
	case 2:
	{
		// Stop by one thread, wait by others.
		int t1 = mc_spawn(stopper, w, "stopper");
		int t2 = mc_spawn(blockingStopper, w, "stopper");
		mc_join(t1);
		blockingStopper(w);
		mc_join(t2);
		w->StopAndDelete();
		break;
	}
	case 3:
	{
		// Wait by polling and delete.
		w->Stop();
		MC_CHECK(w->StopRequested());
		while (w->IsRunning())
			mg::box::Sleep(1);
		MC_CHECKF(gFinished == 1, "the thread is reported as finished too early");
		MC_CHECKF(w->result == 77, "the results of the thread are not visible after it is finished");
		w->StopAndDelete();
		break;
	}
	case 4:
	{
		int t1 = mc_spawn(blockingStopper, w, "stopper");
		int t2 = mc_spawn(blockingStopper, w, "stopper");
		mc_join(t1);
		mc_join(t2);
		w->StopAndDelete();
		break;
	}
	case 5:
		// Never started.
		if (mc_choose(2))
			w->BlockingStop();
		w->StopAndDelete();
		MC_CHECK(gRuns == 0);
		break;
	}
	MC_CHECK(gDeleted == 1);
	MC_CHECKF(gRuns == (start ? 1 : 0), "the thread body ran %d times", gRuns);
	mc_outcome("how=%d mode=%d", how, mode);
}

MC_SCENARIO(thread_func)
{
	gRuns = gFinished = 0;
	int res[2] = {0, 0};
	mg::box::ThreadId ids[2] = {0, 0};
	{
		mg::box::ThreadFunc a("a", [&]() { ids[0] = mg::box::GetCurrentThreadId(); res[0] = 1; ++gFinished; MC_CHECK(ids[0] == mg::box::GetCurrentThreadId()); });
		mg::box::ThreadFunc b("b", [&]() { ids[1] = mg::box::GetCurrentThreadId(); res[1] = 2; ++gFinished; });
		a.Start();
		b.Start();
		if (mc_choose(2))
			b.BlockingStop();
		if (mc_choose(2))
			a.Stop();
	}
	MC_CHECKF(gFinished == 2, "a thread object is destroyed before its callback returned");
	MC_CHECK(res[0] == 1 && res[1] == 2);
	MC_CHECK(ids[0] != ids[1] && ids[0] != mg::box::GetCurrentThreadId());
}

///////////////////////////////////// coroutines /////////////////////////////////////

namespace {

struct CoroLog
{
	int ev[96];
	int n = 0;
	void add(int e) { MC_CHECK(n < 96); ev[n++] = e; }
};
CoroLog* gLog;
int gNextCoro;
int gCalls;
int gMaxCalls;
int gLiveCoros;

// Script of each coroutine is decided on the fly, the reference interpreter keeps a plain stack.
int gStack[8];
int gDepth;

struct Local
{
	Local(int i) : id(i) { ++gLiveCoros; }
	~Local() { gLog->add(300 + id); --gLiveCoros; }
	int id;
};

struct ManualSuspend
{
	bool await_ready() noexcept { return false; }
	void await_suspend(std::coroutine_handle<mg::box::CoroPromise>) noexcept {}
	int await_resume() noexcept { return 5; }
};

mg::box::Coro
coroBody(int id, int depth)
{
	Local l(id);
	MC_CHECKF(gDepth == depth, "a coroutine started at depth %d instead of %d", gDepth, depth);
	gStack[gDepth++] = id;
	for (int step = 0; step < 3; ++step)
	{
		MC_CHECKF(gStack[gDepth - 1] == id, "coroutine %d runs when %d is on the top", id, gStack[gDepth - 1]);
		gLog->add(id);
		int op = mc_choose(gCalls < gMaxCalls ? 3 : 2);
		if (op == 0)
			break;
		if (op == 1)
		{
			int r = co_await ManualSuspend();
			MC_CHECKF(gStack[gDepth - 1] == id, "resumed coroutine %d, but %d is on the top", id, gStack[gDepth - 1]);
			MC_CHECK(r == 5);
		}
		else
		{
			++gCalls;
			int child = gNextCoro++;
			int liveBefore = gLiveCoros;
			co_await mg::box::CoroCall(coroBody(child, depth + 1));
			MC_CHECKF(gDepth == depth + 1, "the caller is continued before the callee is finished");
			MC_CHECKF(gLiveCoros == liveBefore, "a finished coroutine is not destroyed");
		}
	}
	--gDepth;
	MC_CHECK(l.id == id);
}

}

// All shapes of coroutine call trees with suspensions anywhere; the owner resumes the stack, moves
// the reference, or destroys everything at any suspension.
MC_SCENARIO(coro_stack)
{
	CoroLog log;
	gLog = &log;
	gNextCoro = 1;
	gCalls = 0;
	gMaxCalls = (int)mc_param("calls", 3);
	gLiveCoros = 0;
	gDepth = 0;
	uint64_t blocks = mc_live_blocks();
	{
		mg::box::CoroRef* ref = new mg::box::CoroRef(coroBody(0, 0));
		bool started = false;
		MC_CHECK(*ref);
		for (int round = 0; ; ++round)
		{
			int op = started && gDepth == 0 ? 4 : mc_choose(round < (int)mc_param("rounds", 4) ? 4 : 2);
			if (op == 0)
			{
				started = true;
				ref->ResumeTop();
				if (gDepth == 0)
				{
					MC_CHECKF(ref->Handle().done(), "finished coroutine is not done");
					MC_CHECKF(gLiveCoros == 0, "locals of a finished coroutine are alive");
				}
				else
					MC_CHECK(!ref->Handle().done());
				continue;
			}
			if (op == 2)
			{
				mg::box::CoroRef* r2 = new mg::box::CoroRef(std::move(*ref));
				MC_CHECK(!*ref);
				delete ref;
				ref = r2;
				continue;
			}
			if (op == 3)
			{
				mg::box::CoroRef* r2 = new mg::box::CoroRef();
				*r2 = std::move(*ref);
				MC_CHECK(!*ref);
				delete ref;
				ref = r2;
				continue;
			}
			// Destroy: the stack is unwound from the top.
			int from = log.n;
			int depth = gDepth;
			int how = mc_choose(3);
			if (how == 0)
				ref->Clear();
			else if (how == 1)
				*ref = mg::box::CoroRef();
			int lim = log.n;
			delete ref;
			if (how != 2)
				MC_CHECKF(lim == log.n, "the reference was not cleared");
			MC_CHECKF(log.n - from == depth, "%d coroutines are destroyed instead of %d", log.n - from, depth);
			for (int i = 0; i < depth; ++i)
				MC_CHECKF(log.ev[from + i] == 300 + gStack[depth - 1 - i], "the coroutine stack is destroyed in a wrong order");
			mc_outcome("destroyed at %d", depth);
			break;
		}
	}
	MC_CHECKF(gLiveCoros == 0, "leaked coroutines");
	MC_CHECKF(mc_live_blocks() == blocks, "leaked coroutine frames");
}

// Completed calls do not consume the machine stack: a long-living coroutine can make any number of them.
namespace {
uintptr_t gSp[256];
int gSpN;
__attribute__((noinline)) void noteSp()
{
	volatile char c = 0;
	(void)c;
	gSp[gSpN++] = (uintptr_t)__builtin_frame_address(0);
}
mg::box::Coro
coroLeaf(bool susp)
{
	noteSp();
	if (susp)
		co_await ManualSuspend();
}
mg::box::Coro
coroLoop(int n, bool nested, bool susp)
{
	for (int i = 0; i < n; ++i)
	{
		if (nested)
			co_await mg::box::CoroCall(coroLoop(1, false, susp));
		else
			co_await mg::box::CoroCall(coroLeaf(susp));
	}
}
}
MC_SCENARIO(coro_loop)
{
	gSpN = 0;
	int n = 200;
	bool nested = mc_choose(2);
	bool susp = mc_choose(2);
	mg::box::CoroRef ref(coroLoop(n, nested, susp));
	int resumes = 0;
	while (!ref.Handle().done())
	{
		ref.ResumeTop();
		MC_CHECK(++resumes <= n + 1);
	}
	MC_CHECK(gSpN == n);
	uintptr_t lo = UINTPTR_MAX, hi = 0;
	for (int i = 10; i < n; ++i)
	{
		if (gSp[i] < lo) lo = gSp[i];
		if (gSp[i] > hi) hi = gSp[i];
	}
	mc_outcome("nested=%d susp=%d", nested, susp);
	if (hi - lo > 2048)
		mc_fail("the machine stack grows with the number of completed coroutine calls: %d bytes per call", (int)((hi - lo) / (n - 10)));
}
