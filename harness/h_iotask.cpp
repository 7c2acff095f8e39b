// IOCore and IOTask: wakeups, deadlines, closing, re-use, emptiness, stop and start.
#include "mc.h"
#include "kern.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/IOTask.h"
#include "mg/box/Atomic.h"
#include "mg/box/Thread.h"
#include "mg/box/Time.h"
#include <errno.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>

using mg::aio::IOArgs;
using mg::aio::IOCore;
using mg::aio::IOEvent;
using mg::aio::IOSubscription;
using mg::aio::IOTask;

#define ORACLE __attribute__((section("mcoracle")))

namespace {

ORACLE int gIn[8];
ORACLE int gExecs[8];
ORACLE int gReq[8];      // wakeup requests started
ORACLE int gSeen[8];     // the last request seen by an execution
ORACLE int gClosedN[8];
ORACLE int gCloseReq[8];
ORACLE int gClosedTotal;
ORACLE int gExecBudget[8]; // the maximum of executions allowed so far
ORACLE int gDtor;
ORACLE int gWoken[8];    // executions caused by the wakeups only
ORACLE int gLeft;
ORACLE int gReadyO;

mg::box::Atomic<int> gReady(0);

bool seen0(void*) { return gSeen[0] >= gReq[0]; }
bool closedAll(void* n) { return gClosedTotal >= (int)(long)n; }

struct Sub;
Sub* gSubs[4];

// One task and its listener.
struct Sub : public IOSubscription
{
	Sub(IOCore& core, int aId) : task(core), id(aId) {}
	~Sub() override { ++gDtor; }

	void OnEvent(const IOArgs& aArgs) override
	{
		MC_CHECKF(gIn[id] == 0, "task %d is executed by two threads at once", id);
		gIn[id] = 1;
		++gExecs[id];
		MC_CHECKF(gClosedN[id] == 0, "task %d is executed after the closing", id);
		MC_CHECK(task.IsInWorkerNow());
		gSeen[id] = gReq[id];
		int d = data;
		mc_point();
		data = d + 1;
		if (task.IsClosed())
		{
			MC_CHECKF(gCloseReq[id] > 0, "task %d is closed by nobody", id);
			MC_CHECKF(!task.HasSocket(), "the socket is not gone");
			++gClosedN[id];
			gIn[id] = 0;
			onClosed();
			++gClosedTotal;
			return;
		}
		MC_CHECKF(gExecs[id] <= gExecBudget[id], "task %d is executed %d times, expected at most %d", id, gExecs[id], gExecBudget[id]);
		onExec(aArgs);
		gIn[id] = 0;
	}
	virtual void onExec(const IOArgs&) {}
	virtual void onClosed() {}
	void unref() { PrivUnref(); }

	IOTask task;
	int id;
	int data = 0;
	int mode = 0;
};

void wake(Sub* s)
{
	++gReq[s->id];
	++gExecBudget[s->id];
	s->task.PostWakeup();
}
void closeTask(Sub* s)
{
	++gCloseReq[s->id];
	s->task.PostClose();
}

struct Act { Sub* s; int what; int n; };
void actThread(void* a)
{
	Act* p = (Act*)a;
	for (int i = 0; i < p->n; ++i)
	{
		if (p->what == 0)
			wake(p->s);
		else
			closeTask(p->s);
	}
}

void startCore(IOCore& core, int workers)
{
	mc_serial_begin();
	core.Start(workers);
	mc_settle();
	mc_serial_end();
}

void finishCore(IOCore& core)
{
	mc_serial_begin();
	MC_CHECKF(core.WaitEmpty(mg::box::TimeDuration(1000)) == 0, "the core is not empty");
	core.Stop();
}

}

// Wakeups from two threads and a closing: no wakeup is lost, no execution is invented, one final execution.
MC_SCENARIO(iotask_wakeup)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(4);
	{
		IOCore core;
		startCore(core, workers);
		Sub* s = new Sub(core, 0);
		Act a{s, 0, 1 + (kind & 1)};
		Act c{s, 1, 1};
		int t1 = -1, t2 = -1;
		if (kind < 2)
		{
			// Woken up and closed even before the post.
			t1 = mc_spawn(actThread, &a, "waker");
			s->task.Post(s);
		}
		else
		{
			s->task.Post(s);
			t1 = mc_spawn(actThread, &a, "waker");
			wake(s);
		}
		mc_join(t1);
		uint64_t t0 = mc_now_ns();
		mc_wait_until(seen0, nullptr);
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the wakeup came with a delay");
		MC_CHECK(!s->task.IsInWorkerNow());
		int execs = gExecs[0];
		(void)execs;
		t2 = mc_spawn(actThread, &c, "closer");
		closeTask(s);
		mc_join(t2);
		mc_wait_until(closedAll, (void*)1);
		MC_CHECK(gClosedN[0] == 1);
		finishCore(core);
		MC_CHECK(s->data == gExecs[0]);
		// Useless but allowed.
		s->task.PostClose();
		s->task.PostWakeup();
		s->unref();
		MC_CHECKF(gDtor == 1, "the listener is not deleted");
		mc_outcome("w=%d kind=%d execs=%d", workers, kind, gExecs[0]);
		mc_serial_begin();
	}
	MC_CHECK(mc_k_open(K_NONE) == 0);
}

// Closing of a task at any moment of its life, with concurrent wakeups, in all places where it can be.
namespace {
struct CloseSub : public Sub
{
	using Sub::Sub;
	void onExec(const IOArgs&) override
	{
		switch (mode)
		{
		case 1: task.SetDeadline(mg::box::GetMilliseconds() + 100); ++gExecBudget[0]; break;
		case 2: if (left-- > 0) { task.Reschedule(); ++gExecBudget[0]; } break;
		case 3: closeTask(this); break;
		case 4: if (left-- > 0) { task.SetDeadline(0); ++gExecBudget[0]; } else closeTask(this); break;
		default: break;
		}
	}
	int left = 2;
};
}
MC_SCENARIO(iotask_close)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int mode = mc_choose(5);
	bool early = mc_choose(2);
	{
		IOCore core;
		startCore(core, workers);
		CloseSub* s = new CloseSub(core, 0);
		s->mode = mode;
		Act a{s, 0, 1};
		Act c{s, 1, 1};
		int t1 = -1;
		if (early)
			t1 = mc_spawn(actThread, &c, "closer");
		s->task.Post(s);
		if (mode != 0)
			wake(s);
		if (!early)
			t1 = mc_spawn(actThread, &c, "closer");
		else if (mode == 0)
			wake(s);
		mc_join(t1);
		uint64_t t0 = mc_now_ns();
		mc_wait_until(closedAll, (void*)1);
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the closing came with a delay");
		s->unref();
		finishCore(core);
		MC_CHECK(gDtor == 1);
		MC_CHECK(gClosedN[0] == 1);
		mc_outcome("w=%d mode=%d execs=%d", workers, mode, gExecs[0]);
	}
	MC_CHECK(mc_k_open(K_NONE) == 0);
}

// Deadlines: not before, not late, the flag is right, reset at each execution, the lowest one wins.
namespace {
struct DeadlineSub : public Sub
{
	using Sub::Sub;
	void onExec(const IOArgs&) override
	{
		uint64_t now = mg::box::GetMilliseconds();
		bool expired = task.IsExpired();
		bool woken = gReq[id] > gWoken[id];
		if (!expired)
			++gWoken[id];
		MC_CHECKF(!expired || now >= deadline, "task %d is executed %llu ms before the deadline", id, (unsigned long long)(deadline - now));
		MC_CHECKF(expired || woken, "task %d is executed without a reason", id);
		if (expired && !woken)
			MC_CHECKF(now <= deadline || deadline < 1000, "task %d is late for %llu ms", id, (unsigned long long)(now - deadline));
		++steps;
		++gExecBudget[id];
		switch (steps)
		{
		case 1: deadline = now + first; task.SetDeadline(now + first + 5); task.SetDeadline(deadline); task.SetDeadline(now + first + 1); break;
		case 2: deadline = now + 20; task.SetDeadline(deadline); break;
		case 3: if (mode == 1) { deadline = 0; task.Reschedule(); } else { deadline = MG_TIME_INFINITE; lastSet = true; } break;
		default: deadline = MG_TIME_INFINITE; lastSet = true; break;
		}
		if (deadline == MG_TIME_INFINITE)
			closeTask(this);
	}
	uint64_t deadline = MG_TIME_INFINITE;
	uint64_t first = 10;
	int steps = 0;
	bool lastSet = false;
};
}
MC_SCENARIO(iotask_deadline)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(4);
	int tasks = (int)mc_param("tasks", 2);
	{
		IOCore core;
		startCore(core, workers);
		mc_serial_begin();
		mc_set_now_ns(5000000000ull);
		mc_serial_end();
		DeadlineSub* s[4];
		for (int i = 0; i < tasks; ++i)
		{
			s[i] = new DeadlineSub(core, i);
			s[i]->mode = kind & 1;
			s[i]->first = i == 0 ? 10 : 10 * mc_choose(3);
			gSubs[i] = s[i];
			s[i]->task.Post(s[i]);
			wake(s[i]);
		}
		Act a{s[0], 0, 1};
		int t1 = -1;
		if (kind & 2)
			t1 = mc_spawn(actThread, &a, "waker");
		if (t1 >= 0)
			mc_join(t1);
		mc_wait_until(closedAll, (void*)(long)tasks);
		for (int i = 0; i < tasks; ++i)
			s[i]->unref();
		finishCore(core);
		mc_outcome("w=%d k=%d %d %d", workers, kind, gExecs[0], gExecs[1]);
	}
}

// A closed task is posted again from its final execution, or deleted there; another one is posted from it.
namespace {
struct ReuseSub : public Sub
{
	using Sub::Sub;
	void onExec(const IOArgs&) override
	{
		if (mode == 1 && gLeft > 0)
			closeTask(this);
	}
	void onClosed() override
	{
		if (gLeft > 0)
		{
			// Like new.
			gClosedN[id] = 0;
			--gClosedTotal;
			gCloseReq[id] = 0;
			gExecBudget[id] = gExecs[id];
			task.Post(this);
			MC_CHECK(gClosedN[id] == 0);
			++gReq[id];
			++gExecBudget[id];
			--gLeft;
			task.PostWakeup();
			gReady.StoreRelease(1);
			gReadyO = 1;
			return;
		}
		unref();
		if (mode == 2)
		{
			gSubs[1]->task.Post(gSubs[1]);
			wake(gSubs[1]);
			gReady.StoreRelease(2);
			gReadyO = 2;
		}
	}
};
}
MC_SCENARIO(iotask_reuse)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int mode = mc_choose(3);
	{
		IOCore core;
		startCore(core, workers);
		ReuseSub* s = new ReuseSub(core, 0);
		s->mode = mode;
		gLeft = 1;
		Sub* other = new Sub(core, 1);
		gSubs[1] = other;
		s->task.Post(s);
		wake(s);
		if (mode != 1)
		{
			closeTask(s);
			mc_wait_until(seen0, nullptr);
			mc_settle();
		}
		// Is open again.
		MC_CHECKF(gDtor == 0, "the task is gone too early");
		mc_wait_until([](void*) -> bool { return gLeft == 0 && gReadyO == 1 && seen0(nullptr); }, nullptr);
		MC_CHECK(gReady.LoadAcquire());
		closeTask(s);
		mc_wait_until(closedAll, (void*)1);
		if (mode == 2)
		{
			mc_wait_until([](void*) -> bool { return gReadyO == 2 && gReq[1] > 0 && gSeen[1] >= gReq[1]; }, nullptr);
			MC_CHECK(gReady.LoadAcquire() == 2);
			closeTask(other);
			mc_wait_until(closedAll, (void*)2);
		}
		other->unref();
		finishCore(core);
		MC_CHECK(gDtor == 2);
		mc_outcome("w=%d mode=%d execs=%d", workers, mode, gExecs[0]);
	}
}

// The core is stopped and started at any moment: nothing is executed while it is stopped, nothing is lost.
namespace {
ORACLE int gStopped;
struct StopSub : public Sub
{
	using Sub::Sub;
	void onExec(const IOArgs&) override
	{
		MC_CHECKF(!gStopped, "a task is executed in a stopped core");
		if (mode == 1)
			task.SetDeadline(mg::box::GetMilliseconds() + 100), ++gExecBudget[id];
	}
	void onClosed() override { MC_CHECKF(!gStopped, "a task is closed in a stopped core"); }
};
struct CoreAct { IOCore* core; int workers; int start; };
void coreThread(void* a)
{
	CoreAct* p = (CoreAct*)a;
	if (p->start)
		p->core->Start(p->workers);
	else
		p->core->Stop();
}
}
MC_SCENARIO(iotask_stop)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(6);
	{
		IOCore core;
		gStopped = 1;
		StopSub* s = new StopSub(core, 0);
		s->mode = kind & 1;
		// Before the start.
		s->task.Post(s);
		wake(s);
		if (kind < 2)
		{
			mc_serial_begin();
			mc_settle();
			mc_serial_end();
		}
		gStopped = 0;
		core.Start(workers);
		Act a{s, kind < 4 ? 0 : 1, 1};
		int t1 = mc_spawn(actThread, &a, "actor");
		uint64_t t0 = mc_now_ns();
		core.Stop();
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the stop took %llu ms", (unsigned long long)(mc_now_ns() - t0) / 1000000);
		gStopped = 1;
		mc_join(t1);
		if (kind < 4)
			wake(s);
		mc_serial_begin();
		mc_settle();
		mc_serial_end();
		gStopped = 0;
		// Restart with other settings, can be concurrent with no effect.
		CoreAct ca{&core, workers, 1};
		if (kind & 2)
			t1 = mc_spawn(coreThread, &ca, "starter");
		core.Start(3 - workers);
		if (kind & 2)
			mc_join(t1);
		if (kind < 4)
		{
			mc_wait_until(seen0, nullptr);
			closeTask(s);
		}
		mc_wait_until(closedAll, (void*)1);
		s->unref();
		// The destructor waits for the emptiness and stops it.
		mc_serial_begin();
		mc_outcome("w=%d k=%d execs=%d", workers, kind, gExecs[0]);
	}
	MC_CHECK(gDtor == 1);
	MC_CHECK(mc_k_open(K_NONE) == 0);
}

// A stop does not wait for the deadlines of the tasks, whatever the workers are doing.
MC_SCENARIO(iotask_stop_wait)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(2);
	{
		IOCore core;
		StopSub* s = new StopSub(core, 0);
		s->mode = 1;
		startCore(core, workers);
		mc_serial_begin();
		s->task.Post(s);
		wake(s);
		mc_settle();
		mc_serial_end();
		// Some workers are awake.
		if (kind == 1)
			wake(s);
		uint64_t t0 = mc_now_ns();
		core.Stop();
		MC_CHECKF(mc_now_ns() - t0 < 1000000, "the stop took %llu ms", (unsigned long long)(mc_now_ns() - t0) / 1000000);
		mc_serial_begin();
		core.Start(1);
		closeTask(s);
		mc_wait_until(closedAll, (void*)1);
		s->unref();
		mc_outcome("w=%d k=%d execs=%d", workers, kind, gExecs[0]);
	}
	MC_CHECK(gDtor == 1);
	MC_CHECK(mc_k_open(K_NONE) == 0);
}

// An empty core means all its tasks are finished, and all what they did is visible.
namespace {
int gData[4];
}
MC_SCENARIO(iotask_empty)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(4);
	int tasks = (int)mc_param("tasks", 2);
	struct EmptySub : public Sub
	{
		using Sub::Sub;
		~EmptySub() override { *out = data; }
		int* out = nullptr;
	};
	{
		IOCore core;
		startCore(core, workers);
		MC_CHECK(core.WaitEmpty() == 0);
		EmptySub* s[4];
		for (int i = 0; i < tasks; ++i)
		{
			s[i] = new EmptySub(core, i);
			s[i]->out = &gData[i];
			s[i]->task.Post(s[i]);
			if (kind & 1)
				wake(s[i]);
		}
		MC_CHECKF(core.WaitEmpty(mg::box::TimeDuration(0)) == (uint32_t)tasks, "wrong task count");
		for (int i = 0; i < tasks; ++i)
			closeTask(s[i]);
		for (int i = 0; i < tasks; ++i)
			s[i]->unref();
		if (kind & 2)
		{
			uint32_t rc = core.WaitEmpty();
			MC_CHECKF(rc == 0 && gDtor == tasks, "the core is empty, %d tasks are not deleted", tasks - gDtor);
			for (int i = 0; i < tasks; ++i)
				MC_CHECK(gData[i] == gExecs[i] && gData[i] > 0);
		}
		else
		{
			MC_CHECKF(core.WaitEmpty(mg::box::TimeDuration(50)) == 0, "the core is not empty");
			mc_serial_begin();
			core.Stop();
		}
	}
	MC_CHECK(gDtor == tasks);
	for (int i = 0; i < tasks; ++i)
		MC_CHECK(gData[i] == gExecs[i] && gData[i] > 0);
	mc_outcome("w=%d k=%d", workers, kind);
}

// A not posted task is woken up, or not, and deleted.
MC_SCENARIO(iotask_unused)
{
	int steps = mc_choose(3);
	{
		IOCore core;
		Sub* s = new Sub(core, 0);
		for (int i = 0; i < steps; ++i)
			s->task.PostWakeup();
		s->unref();
	}
	MC_CHECK(gDtor == 1);
	mc_outcome("%d", steps);
}

// More tasks than fit into the batches of the core.
namespace {
struct ManySub : public Sub
{
	using Sub::Sub;
	void onExec(const IOArgs&) override
	{
		if (mode == 1 && left-- > 0)
		{
			task.SetDeadline(mg::box::GetMilliseconds() + (id & 1));
			++gExecBudget[id];
			return;
		}
		if (mode == 2 && left-- > 0)
		{
			task.Reschedule();
			++gExecBudget[id];
			return;
		}
		closeTask(this);
	}
	int left = 2;
};
}
MC_SCENARIO(iotask_many)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int tasks = 1 + mc_choose((int)mc_param("tasks", 7));
	int mode = mc_choose(4);
	{
		IOCore core;
		startCore(core, workers);
		ManySub* s[8];
		for (int i = 0; i < tasks; ++i)
		{
			s[i] = new ManySub(core, i);
			s[i]->mode = mode;
		}
		mc_serial_begin();
		for (int i = 0; i < tasks; ++i)
		{
			s[i]->task.Post(s[i]);
			if (mode != 3 || i == tasks - 1)
				wake(s[i]);
		}
		mc_serial_end();
		if (mode == 3)
		{
			// The only one with something to do.
			mc_wait_until(closedAll, (void*)1);
			MC_CHECK(gClosedN[tasks - 1] == 1);
			for (int i = 0; i < tasks - 1; ++i)
				wake(s[i]);
		}
		mc_wait_until(closedAll, (void*)(long)tasks);
		for (int i = 0; i < tasks; ++i)
		{
			MC_CHECKF(gExecs[i] == (mode % 3 == 0 ? 2 : 4), "task %d has %d executions", i, gExecs[i]);
			s[i]->unref();
		}
		finishCore(core);
	}
	MC_CHECK(gDtor == tasks);
	mc_outcome("w=%d m=%d t=%d", workers, mode, tasks);
}

// Tasks with sockets: data come at any moment, next to deadlines of this and other tasks, wakeups, a closing, a stop.
namespace {
ORACLE int gGot;
ORACLE int gFin;
ORACLE int gIdle;     // deadlines without anything new
ORACLE int gAllSent;
ORACLE uint64_t gDl[8];
struct SockSub : public Sub
{
	SockSub(IOCore& core, int id) : Sub(core, id) { gExecBudget[id] = 1000; }
	void onExec(const IOArgs& args) override
	{
		uint64_t now = mg::box::GetMilliseconds();

		MC_CHECKF(!gStopped, "a task is executed in a stopped core");
		// The time does not go while anybody has something to do.
		MC_CHECKF(again || task.IsExpired() == (now >= gDl[id]), "task %d: expired=%d at %llu, the deadline is %llu", id, (int)task.IsExpired(), (unsigned long long)now, (unsigned long long)gDl[id]);
		gDl[id] = MG_TIME_INFINITE;
		again = false;
		mg::box::Error::Ptr err;
		if (id == 0)
		{
			bool ok = task.ProcessArgs(args, err);
			MC_CHECKF(ok || mode == 9, "a broken socket");
			if (!first && fin == 0 && !ev.IsLocked())
			{
				if (!ev.IsEmpty())
				{
					MC_CHECKF(!ev.IsError(), "error %d", (int)ev.GetError());
					take(ev.PopBytes());
				}
			}
			first = false;
			if (fin == 0 && !ev.IsLocked())
			{
				mg::box::IOVec v;
				v.myData = buf;
				v.mySize = size;
				MC_CHECK(task.Recv(&v, 1, ev));
				if (!ev.IsLocked())
				{
					take(ev.PopBytes());
					// The rest.
					if (fin == 0)
					{
						task.Reschedule();
						again = true;
					}
				}
			}
		}
		if (ms > 0 && !(gAllSent && ++gIdle > 6))
		{
			gDl[id] = now + ms;
			task.SetDeadline(gDl[id]);
		}
	}
	void take(uint32_t n)
	{
		MC_CHECKF(n <= size, "%u bytes are received", n);
		if (n == 0)
			fin = gFin = 1;
		for (uint32_t i = 0; i < n; ++i)
			MC_CHECKF(buf[i] == (uint8_t)(gGot + 1 + i), "wrong byte %d", gGot + (int)i);
		gGot += n;
	}
	mg::aio::IOEvent ev;
	uint8_t buf[4];
	uint32_t size = 1;
	int ms = 0;
	int fin = 0;
	bool first = true;
	bool again = false; // the fast wakeup may look like a deadline
};
struct PeerAct { int fd; int n; int pause; };
void peerThread(void* a)
{
	PeerAct* p = (PeerAct*)a;
	for (int i = 0; i < p->n; ++i)
	{
		if (p->pause && i > 0)
			mg::box::Sleep(p->pause);
		uint8_t b = (uint8_t)(i + 1);
		MC_CHECK(send(p->fd, &b, 1, MSG_NOSIGNAL) == 1);
	}
	shutdown(p->fd, SHUT_WR);
	gAllSent = 1;
}
int tcpPair(int& peer)
{
	sockaddr_in a;
	socklen_t len = sizeof(a);
	int l = socket(AF_INET, SOCK_STREAM, 0);
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	MC_CHECK(bind(l, (sockaddr*)&a, sizeof(a)) == 0);
	MC_CHECK(getsockname(l, (sockaddr*)&a, &len) == 0);
	MC_CHECK(listen(l, 4) == 0);
	peer = socket(AF_INET, SOCK_STREAM, 0);
	MC_CHECK(connect(peer, (sockaddr*)&a, sizeof(a)) == 0);
	int fd = accept4(l, nullptr, nullptr, SOCK_NONBLOCK);
	MC_CHECK(fd >= 0);
	close(l);
	return fd;
}
}
MC_SCENARIO(iotask_socket)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	// Of the task with the socket and of the other one.
	static const int times[] = {0, 10, 100};
	int ms0 = times[mc_choose(3)];
	int ms1 = times[mc_choose(3)];
	int pause = mc_choose(3);
	int stop = mc_choose(3);
	int size = 1 + mc_choose(2);
	int n = (int)mc_param("bytes", 2);
	int peer;
	{
		IOCore core;
		mc_serial_begin();
		core.Start(workers);
		mc_settle();
		SockSub* s[2];
		for (int i = 0; i < 2; ++i)
		{
			s[i] = new SockSub(core, i);
			gDl[i] = MG_TIME_INFINITE;
			s[i]->size = size;
		}
		s[0]->ms = ms0;
		s[1]->ms = ms1;
		int fd = tcpPair(peer);
		mc_serial_end();
		if (ms1 > 0)
		{
			s[1]->task.Post(s[1]);
			wake(s[1]);
		}
		s[0]->task.Post(fd, s[0]);
		// A notification or a wakeup.
		wake(s[0]);
		PeerAct p{peer, n, pause == 2 ? 20 : pause * 10};
		int t = -1;
		if (stop == 0)
			t = mc_spawn(peerThread, &p, "peer");
		else
		{
			core.Stop();
			gStopped = 1;
			if (stop == 1)
				t = mc_spawn(peerThread, &p, "peer");
			mg::box::Sleep(15);
			if (stop == 2)
				t = mc_spawn(peerThread, &p, "peer");
			mc_serial_begin();
			mc_settle();
			mc_serial_end();
			gStopped = 0;
			core.Start(3 - workers);
		}
		mc_wait_until([](void*) -> bool { return gFin != 0; }, nullptr);
		MC_CHECKF(gGot == n, "%d bytes of %d", gGot, n);
		mc_join(t);
		closeTask(s[0]);
		if (ms1 > 0)
			closeTask(s[1]);
		mc_wait_until(closedAll, (void*)(long)(1 + (ms1 > 0)));
		for (int i = 0; i < 2; ++i)
			s[i]->unref();
		close(peer);
		finishCore(core);
		mc_outcome("w=%d %d %d p=%d s=%d", workers, ms0, ms1, pause, stop);
	}
	MC_CHECK(gDtor == 2);
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}

// A task with a running receipt is closed at any moment, data may come at the same time.
MC_SCENARIO(iotask_socket_close)
{
	int workers = 1 + mc_choose((int)mc_param("workers", 2));
	int kind = mc_choose(3);
	int ms = mc_choose(2) * 10;
	int peer;
	{
		IOCore core;
		mc_serial_begin();
		core.Start(workers);
		mc_settle();
		int fd = tcpPair(peer);
		SockSub* s = new SockSub(core, 0);
		s->ms = ms;
		gDl[0] = MG_TIME_INFINITE;
		mc_serial_end();
		PeerAct p{peer, 1, 0};
		Act c{s, 1, 1};
		s->task.Post(fd, s);
		if (kind > 0)
			wake(s);
		if (kind == 2)
			mc_settle();
		int t1 = mc_spawn(peerThread, &p, "peer");
		int t2 = mc_spawn(actThread, &c, "closer");
		mc_join(t1);
		mc_join(t2);
		mc_wait_until(closedAll, (void*)1);
		s->unref();
		finishCore(core);
		close(peer);
		mc_outcome("w=%d k=%d ms=%d got=%d", workers, kind, ms, gGot);
	}
	MC_CHECK(gDtor == 1);
	MC_CHECKF(mc_k_open(K_NONE) == 0, "a descriptor is not closed");
}
